//! An ICRC-1/2 ledger whose minting account is the minter's default account.
use crate::util::*;
use candid::{Nat, Principal};
use icrc_ledger_types::icrc1::account::Account;
use icrc_ledger_types::icrc1::transfer::{TransferArg, TransferError};
use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum BlockKind {
    Mint { to: Account },
    Burn { from: Account },
    Transfer { from: Account, to: Account },
    Approve,
    Filler,
}
#[derive(Clone, Debug)]
pub struct Block {
    pub kind: BlockKind,
    pub amount: N,
    pub memo: Option<Vec<u8>>,
    pub ctx: u64,
}
#[derive(Clone, Debug)]
pub struct Ledger {
    pub id: Principal,
    pub minter: Account,
    pub fee: N,
    pub bal: BTreeMap<Account, N>,
    pub allow: BTreeMap<(Account, Account), N>,
    pub blocks: Vec<Block>,
    pub supply: N,
    /// Block index of `blocks[0]`: ledgers start at different heights so indices differ between ledgers.
    pub base: u64,
    done: BTreeMap<String, u64>,
}
impl Ledger {
    pub fn new(id: Principal, minter: Principal, fee: N, base: u64) -> Self {
        Ledger {
            id,
            minter: minter.into(),
            fee,
            bal: BTreeMap::new(),
            allow: BTreeMap::new(),
            blocks: vec![],
            supply: n(0),
            base,
            done: BTreeMap::new(),
        }
    }
    pub fn balance(&self, a: &Account) -> N {
        self.bal.get(a).cloned().unwrap_or_default()
    }
    pub fn owner_total(&self, p: &Principal) -> N {
        self.bal.iter().filter(|(a, _)| a.owner == *p).map(|(_, v)| v).sum()
    }
    pub fn block(&self, idx: u64) -> Option<&Block> {
        idx.checked_sub(self.base).and_then(|i| self.blocks.get(i as usize))
    }
    pub fn approve(&mut self, owner: Account, spender: Account, amount: N) {
        // (the approval's own fee is not modelled: it is not part of a withdrawal call)
        self.allow.insert((owner, spender), amount);
        self.push(BlockKind::Approve, n(0), None, 0);
    }
    pub fn filler(&mut self) {
        self.push(BlockKind::Filler, n(0), None, 0);
    }
    fn push(&mut self, kind: BlockKind, amount: N, memo: Option<Vec<u8>>, ctx: u64) -> u64 {
        self.blocks.push(Block { kind, amount, memo, ctx });
        self.base + self.blocks.len() as u64 - 1
    }
    pub fn next_index(&self) -> u64 {
        self.base + self.blocks.len() as u64
    }
    fn credit(&mut self, a: Account, v: &N) {
        *self.bal.entry(a).or_default() += v;
    }
    fn debit(&mut self, a: &Account, v: &N) {
        let b = self.bal.entry(*a).or_default();
        *b -= v;
    }
    /// An account burns at least the transfer fee, or all it has, and never nothing.
    fn least_burn(&self, from: &Account) -> N {
        self.fee.clone().min(self.balance(from)).max(n(1))
    }
    /// A transaction with a creation time is executed once, however often it is sent.
    pub fn transfer(&mut self, caller: Principal, a: &TransferArg, ctx: u64) -> Result<u64, TransferError> {
        let key = a.created_at_time.map(|_| format!("{caller} {a:?}"));
        if let Some(i) = key.as_ref().and_then(|k| self.done.get(k)) {
            return Err(TransferError::Duplicate { duplicate_of: Nat::from(*i) });
        }
        let r = self.transfer_once(caller, a, ctx);
        if let (Some(k), Ok(i)) = (key, &r) {
            self.done.insert(k, *i);
        }
        r
    }
    pub fn transfer_from(&mut self, caller: Principal, a: &TransferFromArgs, ctx: u64) -> Result<u64, TransferFromError> {
        let key = a.created_at_time.map(|_| format!("{caller} {a:?}"));
        if let Some(i) = key.as_ref().and_then(|k| self.done.get(k)) {
            return Err(TransferFromError::Duplicate { duplicate_of: Nat::from(*i) });
        }
        let r = self.transfer_from_once(caller, a, ctx);
        if let (Some(k), Ok(i)) = (key, &r) {
            self.done.insert(k, *i);
        }
        r
    }
    fn transfer_once(&mut self, caller: Principal, a: &TransferArg, ctx: u64) -> Result<u64, TransferError> {
        let from = Account { owner: caller, subaccount: a.from_subaccount };
        let amount = a.amount.0.clone();
        let memo = a.memo.as_ref().map(|m| m.0.to_vec());
        if from == self.minter {
            if let Some(f) = &a.fee {
                if f.0 != n(0) {
                    return Err(TransferError::BadFee { expected_fee: Nat::from(0u8) });
                }
            }
            if a.to == self.minter {
                return Err(TransferError::GenericError { error_code: Nat::from(1u8), message: "mint to the minting account".into() });
            }
            self.credit(a.to, &amount);
            self.supply += &amount;
            return Ok(self.push(BlockKind::Mint { to: a.to }, amount, memo, ctx));
        }
        if a.to == self.minter {
            let least = self.least_burn(&from);
            if amount < least {
                return Err(TransferError::BadBurn { min_burn_amount: nat(&least) });
            }
            if self.balance(&from) < amount {
                return Err(TransferError::InsufficientFunds { balance: nat(&self.balance(&from)) });
            }
            self.debit(&from, &amount);
            self.supply -= &amount;
            return Ok(self.push(BlockKind::Burn { from }, amount, memo, ctx));
        }
        if let Some(f) = &a.fee {
            if f.0 != self.fee {
                return Err(TransferError::BadFee { expected_fee: nat(&self.fee) });
            }
        }
        let total = &amount + &self.fee;
        if self.balance(&from) < total {
            return Err(TransferError::InsufficientFunds { balance: nat(&self.balance(&from)) });
        }
        self.debit(&from, &total);
        self.supply -= self.fee.clone();
        self.credit(a.to, &amount);
        Ok(self.push(BlockKind::Transfer { from, to: a.to }, amount, memo, ctx))
    }
    fn transfer_from_once(&mut self, caller: Principal, a: &TransferFromArgs, ctx: u64) -> Result<u64, TransferFromError> {
        use TransferFromError as E;
        let spender = Account { owner: caller, subaccount: a.spender_subaccount };
        let amount = a.amount.0.clone();
        let memo = a.memo.as_ref().map(|m| m.0.to_vec());
        if a.from == self.minter {
            return Err(E::GenericError { error_code: Nat::from(2u8), message: "transfer_from the minting account".into() });
        }
        let burn = a.to == self.minter;
        let fee = if burn { n(0) } else { self.fee.clone() };
        if let Some(f) = &a.fee {
            if f.0 != fee {
                return Err(E::BadFee { expected_fee: nat(&fee) });
            }
        }
        let least = self.least_burn(&a.from);
        if burn && amount < least {
            return Err(E::BadBurn { min_burn_amount: nat(&least) });
        }
        let total = &amount + &fee;
        let own = spender == a.from;
        let key = (a.from, spender);
        if !own {
            let al = self.allow.get(&key).cloned().unwrap_or_default();
            if al < total {
                return Err(E::InsufficientAllowance { allowance: nat(&al) });
            }
        }
        if self.balance(&a.from) < total {
            return Err(E::InsufficientFunds { balance: nat(&self.balance(&a.from)) });
        }
        if !own {
            *self.allow.get_mut(&key).unwrap() -= &total;
        }
        self.debit(&a.from, &total);
        if burn {
            self.supply -= &amount;
            Ok(self.push(BlockKind::Burn { from: a.from }, amount, memo, ctx))
        } else {
            self.supply -= &fee;
            self.credit(a.to, &amount);
            Ok(self.push(BlockKind::Transfer { from: a.from, to: a.to }, amount, memo, ctx))
        }
    }
}
