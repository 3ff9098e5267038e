//! The reference model: what the minter's events, calls and answers have to be.
use crate::chain::*;
use crate::ledger::{BlockKind, Ledger};
use crate::mon::Mon;
use crate::rpc::*;
use crate::util::*;
use candid::{Nat, Principal};
use crate::wire as ep;
use crate::wire::events::{Event, EventPayload as EP, EventSource, ReimbursementIndex, TransactionStatus, UnsignedTransaction};
use crate::wire::CandidBlockTag;
use crate::wire::EvmNetwork;
use crate::wire::UpgradeArg;
use icrc_ledger_types::icrc1::account::Account;
use std::collections::{BTreeMap, BTreeSet};

pub const NATIVE_GAS: u64 = 21_000;
pub const ERC20_GAS: u64 = 65_000;
pub const SEC: u64 = 1_000_000_000;

pub fn fees_sub() -> H32 {
    let mut s = [0u8; 32];
    s[30] = 0x0f;
    s[31] = 0xee;
    s
}
pub fn depth_of(chain_id: u64) -> u64 {
    match chain_id {
        56 => 20,
        42161 | 8453 | 10 | 43114 | 250 => 12,
        _ => 0,
    }
}

pub struct World {
    pub chain: Chain,
    pub ledgers: BTreeMap<Principal, Ledger>,
    pub native: Principal,
    pub minter_id: Principal,
    pub now: u64,
}
impl World {
    pub fn nat(&self) -> &Ledger {
        &self.ledgers[&self.native]
    }
}

#[derive(Clone, Debug)]
pub struct Conf {
    pub net: EvmNetwork,
    pub chain_id: u64,
    pub symbol: String,
    pub native: Principal,
    pub index: Principal,
    pub helper: Option<Addr>,
    pub min_w: N,
    pub lf: N,
    pub dep_fee: N,
    pub wd_fee: N,
    pub tag: CandidBlockTag,
    pub min_prio: N,
    pub lsm: Principal,
    pub evm: Principal,
    pub key_name: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Token {
    pub ledger: Principal,
    pub addr: Addr,
    pub symbol: String,
    pub since: u64,
    /// Head of the chain when the token was registered.
    pub since_block: u64,
}
pub type Src = (H32, u64);

#[derive(Clone, Debug)]
pub struct Acc {
    pub d: Deposit,
    pub block: u64,
    pub minted: Option<u64>,
    pub quarantined: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct UTx {
    pub chain_id: N,
    pub nonce: N,
    pub prio: N,
    pub max_fee: N,
    pub gas: N,
    pub to: Addr,
    pub value: N,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Wd {
    pub id: u64,
    pub amount: N,
    pub dest: Addr,
    pub from: Principal,
    pub sub: Option<H32>,
    /// (contract, ledger, erc20 burn index, max fee, symbol)
    pub erc20: Option<(Addr, Principal, u64, N, String)>,
    pub created_at: u64,
    pub txs: Vec<UTx>,
    pub signed: Vec<RawTx>,
    pub fin: Option<Fin>,
    pub reimbursed: Option<(N, u64)>,
}
#[derive(Clone, Debug)]
pub struct Fin {
    pub hash: H32,
    pub ok: bool,
    pub fee: N,
    pub tx: usize,
}
impl Wd {
    pub fn allowed_fee(&self) -> N {
        match &self.erc20 {
            None => self.amount.clone(),
            Some(e) => e.3.clone(),
        }
    }
    pub fn gas(&self) -> u64 {
        if self.erc20.is_some() {
            ERC20_GAS
        } else {
            NATIVE_GAS
        }
    }
}
#[derive(Clone, Debug)]
pub struct Due {
    pub to: Account,
    pub amount: N,
    pub tx: Option<H32>,
    pub wid: u64,
    pub minted: Vec<u64>,
    pub event: Option<u64>,
    pub quarantined: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Est {
    pub base: N,
    pub prio: N,
    pub ts: u64,
    pub until: u64,
}
impl Est {
    pub fn max(&self) -> N {
        &self.base * 2u8 + &self.prio
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum CtxKind {
    Init,
    GlobalTimer,
    Timer,
    WithdrawNative { amount: N, dest: String },
    WithdrawErc20 { amount: N, ledger: Principal, dest: String },
    AddToken { ok: bool, addr: String, symbol: String, ledger: Principal, chain: N },
    Scraping,
    Other(&'static str),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Task {
    Scrape,
    Mint,
    Reimburse,
    Retrieve,
}
#[derive(Clone, Debug)]
pub struct Ctx {
    pub id: u64,
    pub caller: Principal,
    pub kind: CtxKind,
    pub start: u64,
    pub outstanding: u32,
    pub calls: u32,
    pub replied: bool,
    pub task: Option<Task>,
    pub trapped: bool,
    /// The minter's own code panicked (nothing was injected).
    pub real_trap: Option<String>,
    pub refund_fault: bool,
    pub perform_fault: bool,
    pub tokens_at_start: usize,
    pub accepted: Option<u64>,
    pub failed: Option<u64>,
    pub events: u32,
    /// For withdrawals: whether the entry had to be refused.
    pub must_refuse: Option<&'static str>,
}
/// What one executed message was.
#[derive(Clone, Debug, Default)]
pub struct Msg {
    pub ctx: u64,
    pub real: Option<String>,
    /// A callback of this call.
    pub call: Option<u64>,
    pub trapped: bool,
    /// getLogs answer delivered by this message: (from, to, outcome)
    pub logs: Option<(u64, u64, LogsOutcome)>,
    pub upgrade: Option<Option<UpgradeArg>>,
    pub pre_upgrade: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum LogsOutcome {
    Accept,
    TooLarge,
    Error,
    Retry,
}

pub struct Model {
    pub mon: Mon,
    pub conf: Conf,
    /// Every helper contract ever configured.
    pub helpers: Vec<Addr>,
    pub tokens: Vec<Token>,
    pub acc: BTreeMap<Src, Acc>,
    pub invalid: BTreeSet<Src>,
    pub mints: BTreeMap<Src, Vec<(Principal, u64)>>,
    pub fee_budget: N,
    pub fee_minted: N,
    pub wds: BTreeMap<u64, Wd>,
    pub due: BTreeMap<(Principal, u64), Due>,
    pub next_nonce: N,
    pub first_nonce: N,
    pub nonce_used: BTreeMap<N, u64>,
    pub scraped: u64,
    pub first_scraped: u64,
    pub skipped: BTreeSet<u64>,
    pub events: Vec<Event>,
    pub native_bal: N,
    pub erc20_bal: BTreeMap<Addr, N>,
    pub est: Vec<Est>,
    pub ctxs: BTreeMap<u64, Ctx>,
    pub minter_addr: Option<Addr>,
    pub served_max: Option<u64>,
    pub observed: Option<u64>,
    pub scrape_start: Option<u64>,
    pub scrape_maybe: Vec<u64>,
    pub want_scrape: Option<u64>,
    pub lsm_calls: u64,
    pub scrapes: u64,
    pub scrape_budget: u64,
    pub life_start: u64,
    pub upgrades: u64,
    pub burned: BTreeSet<(Principal, u64)>,
    pub erc20_ids_used: BTreeSet<(Principal, u64)>,
    pub last_status: BTreeMap<u64, u8>,
    pub fees_sent: BTreeMap<u64, u32>,
    /// Events seen in the current message, by type (for one-event-per-act checks).
    pub msg_events: Vec<usize>,
}

fn bn(x: &Nat) -> N {
    x.0.clone()
}
fn bu(x: &Nat) -> u64 {
    u64::try_from(&x.0).unwrap_or(u64::MAX)
}

impl Model {
    pub fn new(conf: Conf, first_nonce: u64, scraped: u64) -> Self {
        Model {
            mon: Mon::default(),
            helpers: conf.helper.iter().cloned().collect(),
            conf,
            tokens: vec![],
            acc: Default::default(),
            invalid: Default::default(),
            mints: Default::default(),
            fee_budget: n(0),
            fee_minted: n(0),
            wds: Default::default(),
            due: Default::default(),
            next_nonce: n(first_nonce),
            first_nonce: n(first_nonce),
            nonce_used: Default::default(),
            scraped,
            first_scraped: scraped,
            skipped: Default::default(),
            events: vec![],
            native_bal: n(0),
            erc20_bal: Default::default(),
            est: vec![],
            ctxs: Default::default(),
            minter_addr: None,
            served_max: None,
            observed: None,
            scrape_start: None,
            scrape_maybe: vec![],
            want_scrape: None,
            lsm_calls: 0,
            scrapes: 0,
            scrape_budget: 1,
            life_start: 0,
            upgrades: 0,
            burned: Default::default(),
            erc20_ids_used: Default::default(),
            last_status: Default::default(),
            fees_sent: Default::default(),
            msg_events: vec![],
        }
    }
    pub fn cur_est(&self) -> Option<&Est> {
        self.est.last().filter(|e| e.until == u64::MAX)
    }
    /// Estimates that were current at some moment of the given period.
    pub fn est_between(&self, a: u64, b: u64) -> Vec<Est> {
        self.est.iter().rev().take(12).filter(|e| e.ts <= b && e.until >= a).cloned().collect()
    }
    pub fn token_by_addr(&self, a: &Addr) -> Option<&Token> {
        self.tokens.iter().find(|t| t.addr == *a)
    }
    pub fn token_by_ledger(&self, l: &Principal) -> Option<&Token> {
        self.tokens.iter().find(|t| t.ledger == *l)
    }
    pub fn fee_account(&self, w: &World) -> Account {
        Account { owner: w.minter_id, subaccount: Some(fees_sub()) }
    }
    /// An address printed by the minter.
    pub fn addr(&mut self, s: &str, where_: &str) -> Addr {
        let a = parse_addr(s);
        let ok = a.map(|a| eip55(&a) == s).unwrap_or(false);
        self.mon.ck(ok, &["C21"], &format!("printed address in {where_}"), || format!("{where_}: address printed as {s:?}"));
        a.unwrap_or([0xee; 20])
    }
    fn utx(&mut self, t: &UnsignedTransaction) -> UTx {
        let to = self.addr(&t.destination, "transaction event");
        self.mon.ck(t.access_list.is_empty(), &["C05", "C07"], "access list empty", || format!("{t:?}"));
        UTx {
            chain_id: bn(&t.chain_id),
            nonce: bn(&t.nonce),
            prio: bn(&t.max_priority_fee_per_gas),
            max_fee: bn(&t.max_fee_per_gas),
            gas: bn(&t.gas_limit),
            to,
            value: bn(&t.value),
            data: t.data.to_vec(),
        }
    }
    fn src(&self, s: &EventSource) -> Src {
        (parse_h32(&s.transaction_hash).unwrap_or([0xee; 32]), bu(&s.log_index))
    }

    // ------------------------------------------------------------ ledger executions
    /// A mint or transfer from one of the minter's accounts was executed.
    pub fn on_transfer(&mut self, w: &World, ledger: Principal, idx: u64, ctx: u64) {
        let l = &w.ledgers[&ledger];
        let b = l.block(idx).unwrap().clone();
        match &b.kind {
            BlockKind::Mint { to } => {
                let memo = b.memo.as_ref().and_then(|m| decode_memo(m, true));
                match memo {
                    Some(Memo::MintConvert { from, tx, log_index }) => {
                        let src = (tx, u64::try_from(&log_index).unwrap_or(u64::MAX));
                        let v = self.mints.entry(src).or_default();
                        v.push((ledger, idx));
                        let k = v.len();
                        let after = if self.upgrades > 0 { "after upgrade" } else { "first life" };
                        self.mon.ck(k <= 1, &["C01"], &format!("mint executed ({after})"), || {
                            format!("deposit {} #{} minted {k} times", h0x(&src.0), src.1)
                        });
                        let Some(a) = self.acc.get(&src).cloned() else {
                            self.mon.ck(false, &["C02", "C15", "C23", "C24"], "mint of an accepted deposit", || {
                                format!("mint for {} #{} which was never accepted", h0x(&src.0), src.1)
                            });
                            return;
                        };
                        let want_ledger = match &a.d.token {
                            None => Some(self.conf.native),
                            Some(t) => self.token_by_addr(t).map(|t| t.ledger),
                        };
                        let tok = if a.d.token.is_some() { "erc20" } else { "native" };
                        self.mon.ck(want_ledger == Some(ledger), &["C02"], &format!("mint ledger {tok}"), || {
                            format!("mint of {:?} on ledger {ledger}", a.d)
                        });
                        let want_to = Account { owner: a.d.principal, subaccount: a.d.subaccount };
                        let sub = if a.d.subaccount.is_some() { "subaccount" } else { "default account" };
                        self.mon.ck(*to == want_to, &["C02"], &format!("mint to {sub}"), || {
                            format!("mint to {to:?}, the deposit names {want_to:?}")
                        });
                        self.mon.ck(from == a.d.from, &["C02"], "mint memo from", || format!("memo names {from:?}, deposit {:?}", a.d));
                        let fee = if a.d.token.is_none() { self.conf.dep_fee.clone() } else { n(0) };
                        let want = if a.d.value > fee { &a.d.value - &fee } else { n(0) };
                        let fk = match (fee == n(0), a.d.value < fee) {
                            (true, _) => "no fee",
                            (_, true) => "below fee",
                            _ => "with fee",
                        };
                        self.mon.ck(b.amount == want, &["C02", "C11"], &format!("mint amount {tok} {fk}"), || {
                            format!("minted {} for a deposit of {} with fee {fee}", b.amount, a.d.value)
                        });
                        let paid = if b.amount < a.d.value { &a.d.value - &b.amount } else { n(0) };
                        self.fee_budget += paid;
                        let real = self.chain_deposit(w, &src);
                        self.mon.ck(real.as_ref().map(|r| r.1 == a.d).unwrap_or(false), &["C02", "C23", "C14"], "mint backed by chain", || {
                            format!("minted {:?} but the finalized chain has {real:?}", a.d)
                        });
                    }
                    Some(Memo::ReimburseTx { id, tx }) => self.on_reimburse(ledger, idx, *to, &b.amount, id, Some(tx)),
                    Some(Memo::Reimburse { id }) => self.on_reimburse(ledger, idx, *to, &b.amount, id, None),
                    _ => {
                        let fee_acc = self.fee_account(w);
                        let ok = b.memo.is_none() && *to == fee_acc && ledger == self.conf.native;
                        self.mon.ck(ok, &["C02", "C08", "C16"], "unlabelled mint goes to the fee account", || {
                            format!("unexpected mint of {} to {to:?} on {ledger} memo {:?}", b.amount, b.memo)
                        });
                        self.fee_minted += &b.amount;
                        let (fm, fb) = (self.fee_minted.clone(), self.fee_budget.clone());
                        self.mon.ck(fm <= fb && b.amount <= self.conf.dep_fee, &["C02", "C11"], "fee mint within what depositors paid", || {
                            format!("fee mint {}: total {fm} of {fb} paid", b.amount)
                        });
                    }
                }
            }
            BlockKind::Transfer { from, to } => {
                let c = self.ctxs.get(&ctx).cloned();
                let fee_acc = self.fee_account(w);
                let withdraw = c.as_ref().map(|c| matches!(c.kind, CtxKind::WithdrawNative { .. } | CtxKind::WithdrawErc20 { .. })).unwrap_or(false);
                let caller = c.as_ref().map(|c| c.caller);
                if *from == fee_acc {
                    // refund of the withdrawal fee
                    let twice = &self.conf.lf * 2u8;
                    let max = if self.conf.wd_fee > twice { &self.conf.wd_fee - twice } else { n(0) };
                    let ok = withdraw && Some(to.owner) == caller && to.subaccount.is_none() && b.amount <= max && ledger == self.conf.native;
                    self.mon.ck(ok, &["C12", "C16"], "fee refund to the caller", || {
                        format!("transfer from the fee account of {} to {to:?} by ctx {c:?}", b.amount)
                    });
                    let k = self.fees_sent.entry(ctx).or_default();
                    *k += 1;
                    let k = *k;
                    self.mon.ck(k <= 1, &["C12"], "one refund per call", || format!("{k} refunds in ctx {ctx}"));
                } else {
                    let ok = withdraw && Some(from.owner) == caller && from.subaccount.is_none() && *to == fee_acc && ledger == self.conf.native
                        && &b.amount + &self.conf.lf == self.conf.wd_fee;
                    self.mon.ck(ok, &["C12", "C16", "C04"], "withdrawal fee paid by the caller", || {
                        format!("transfer of {} from {from:?} to {to:?} on {ledger} by {c:?}", b.amount)
                    });
                }
            }
            BlockKind::Burn { from } => {
                let c = self.ctxs.get(&ctx).cloned();
                let Some(c) = c else { return };
                let ok = matches!(c.kind, CtxKind::WithdrawNative { .. } | CtxKind::WithdrawErc20 { .. })
                    && from.owner == c.caller
                    && from.subaccount.is_none();
                self.mon.ck(ok, &["C04", "C16"], "burn from the caller's own account", || format!("burn from {from:?} by {c:?}"));
                let memo = b.memo.as_ref().and_then(|m| decode_memo(m, false));
                let dest = match &c.kind {
                    CtxKind::WithdrawNative { dest, .. } | CtxKind::WithdrawErc20 { dest, .. } => parse_addr(dest),
                    _ => None,
                };
                let good = match (&c.kind, &memo) {
                    (CtxKind::WithdrawNative { .. }, Some(Memo::BurnConvert { to })) => dest == Some(*to) && ledger == self.conf.native,
                    (CtxKind::WithdrawErc20 { amount, ledger: tl, .. }, Some(Memo::BurnGasFee { symbol, amount: a, to })) => {
                        dest == Some(*to) && ledger == self.conf.native && a == amount && self.token_by_ledger(tl).map(|t| t.symbol == *symbol).unwrap_or(false)
                    }
                    (CtxKind::WithdrawErc20 { ledger: tl, .. }, Some(Memo::BurnErc20 { to, .. })) => dest == Some(*to) && ledger == *tl,
                    _ => false,
                };
                self.mon.ck(good, &["C04"], "burn memo names the destination", || format!("burn memo {memo:?} by {c:?} on {ledger}"));
            }
            _ => {}
        }
    }
    fn on_reimburse(&mut self, ledger: Principal, idx: u64, to: Account, amount: &N, id: u64, tx: Option<H32>) {
        let native = ledger == self.conf.native;
        let kind = match (native, tx.is_some()) {
            (true, true) => "native failed tx",
            (true, false) => "failed token burn",
            (false, true) => "erc20 failed tx",
            _ => "odd",
        };
        let Some(d) = self.due.get_mut(&(ledger, id)) else {
            self.mon.ck(false, &["C08", "C18", "C11"], "reimbursement is due", || {
                format!("reimbursement of {amount} to {to:?} on {ledger} for {id} which is not due")
            });
            return;
        };
        d.minted.push(idx);
        let d = d.clone();
        self.mon.ck(d.minted.len() == 1, &["C08"], &format!("reimbursed once: {kind}"), || format!("{d:?} reimbursed {} times", d.minted.len()));
        self.mon.ck(d.to == to, &["C08"], &format!("reimbursed to the burner: {kind}"), || format!("to {to:?}, due {d:?}"));
        self.mon.ck(d.amount == *amount, &["C08", "C11"], &format!("reimbursed amount: {kind}"), || format!("amount {amount}, due {d:?}"));
        self.mon.ck(d.tx == tx, &["C08"], &format!("reimbursement memo: {kind}"), || format!("memo tx {tx:?}, due {d:?}"));
    }
    /// The deposit with this source in the part of the chain that cannot be reorganised.
    pub fn chain_deposit(&self, w: &World, s: &Src) -> Option<(u64, Deposit)> {
        let bound = w.chain.finalized();
        for (b, l) in w.chain.logs(0, bound) {
            if l.tx == s.0 && l.log_index == s.1 && self.helpers.contains(&l.addr) {
                if let Decoded::Ok(d) = decode_deposit(l) {
                    return Some((b, d));
                }
            }
        }
        None
    }

    // ------------------------------------------------------------ events
    pub fn on_event(&mut self, w: &World, idx: usize, e: &Event, m: &Msg) {
        let last = self.events.last().map(|x| x.timestamp).unwrap_or(0);
        self.mon.ck(e.timestamp >= last, &["C24"], "timestamps do not decrease", || format!("event {idx} at {} after {last}", e.timestamp));
        self.mon.ck(e.timestamp == w.now, &["C24"], "timestamp is the time of the act", || format!("event {idx} at {} but it is {}", e.timestamp, w.now));
        self.events.push(e.clone());
        self.msg_events.push(idx);
        let name = format!("{:?}", e.payload);
        let name = name.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
        self.mon.stat(&format!("event {name}"));
        self.mon.note(|| format!("event {idx} ctx {} {:?}", m.ctx, e.payload));
        let c = self.ctxs.get(&m.ctx).cloned();
        if let Some(c) = self.ctxs.get_mut(&m.ctx) {
            c.events += 1;
        }
        match &e.payload {
            EP::Init(_) => {
                self.mon.ck(idx == 0, &["C24", "C10"], "init event first", || format!("init at {idx}"));
            }
            EP::Upgrade(a) => {
                let ok = matches!(&m.upgrade, Some(Some(u)) if u == a);
                self.mon.ck(ok, &["C24", "C22"], "upgrade event matches the argument", || format!("{a:?} in {m:?}"));
            }
            EP::SyncedToBlock { block_number } => {
                let s = self.scraped;
                self.mon.ck(m.pre_upgrade && bu(block_number) == s, &["C24", "C10", "C03"], "synced event at upgrade", || {
                    format!("synced to {block_number}, scraped {s}, {m:?}")
                });
            }
            EP::AcceptedDeposit { transaction_hash, block_number, log_index, from_address, value, principal, subaccount } => {
                let from = self.addr(from_address, "deposit event");
                let d = Deposit {
                    token: None,
                    value: bn(value),
                    principal: *principal,
                    subaccount: *subaccount,
                    from,
                    tx: parse_h32(transaction_hash).unwrap_or([0xee; 32]),
                    log_index: bu(log_index),
                };
                self.on_accepted(w, d, bu(block_number), m);
            }
            EP::AcceptedErc20Deposit { transaction_hash, block_number, log_index, from_address, value, principal, erc20_contract_address, subaccount } => {
                let from = self.addr(from_address, "deposit event");
                let tok = self.addr(erc20_contract_address, "deposit event");
                let d = Deposit {
                    token: Some(tok),
                    value: bn(value),
                    principal: *principal,
                    subaccount: *subaccount,
                    from,
                    tx: parse_h32(transaction_hash).unwrap_or([0xee; 32]),
                    log_index: bu(log_index),
                };
                let known = self.token_by_addr(&tok).is_some();
                self.mon.ck(known, &["C02", "C15"], "accepted token is supported", || format!("{d:?}"));
                self.on_accepted(w, d, bu(block_number), m);
            }
            EP::InvalidDeposit { event_source, .. } => {
                let s = self.src(event_source);
                let log = w.chain.logs(0, w.chain.head).find(|(_, l)| (l.tx, l.log_index) == s).map(|(b, l)| (b, l.clone()));
                let ok = log.as_ref().map(|(_, l)| decode_deposit(l) == Decoded::Invalid).unwrap_or(false);
                self.mon.ck(ok, &["C15", "C03", "C24"], "invalid deposit blamed on a malformed log", || format!("{s:?} blamed, log is {log:?}"));
                let fresh = !self.acc.contains_key(&s);
                self.mon.ck(fresh, &["C15", "C01"], "invalid source was not accepted", || format!("{s:?}"));
                self.invalid.insert(s);
            }
            EP::MintedNative { event_source, mint_block_index } => self.on_minted(w, event_source, bu(mint_block_index), None),
            EP::MintedErc20 { event_source, mint_block_index, erc20_token_symbol, erc20_contract_address } => {
                let a = self.addr(erc20_contract_address, "mint event");
                self.on_minted(w, event_source, bu(mint_block_index), Some((a, erc20_token_symbol.clone())))
            }
            EP::AcceptedNativeWithdrawalRequest { withdrawal_amount, destination, ledger_burn_index, from, from_subaccount, created_at } => {
                let dest = self.addr(destination, "withdrawal event");
                let wd = Wd {
                    id: bu(ledger_burn_index),
                    amount: bn(withdrawal_amount),
                    dest,
                    from: *from,
                    sub: *from_subaccount,
                    erc20: None,
                    created_at: created_at.unwrap_or(0),
                    txs: vec![],
                    signed: vec![],
                    fin: None,
                    reimbursed: None,
                };
                self.on_withdrawal(w, wd, c, m);
            }
            EP::AcceptedErc20WithdrawalRequest {
                max_transaction_fee,
                withdrawal_amount,
                erc20_contract_address,
                destination,
                native_ledger_burn_index,
                erc20_ledger_id,
                erc20_ledger_burn_index,
                from,
                from_subaccount,
                created_at,
            } => {
                let dest = self.addr(destination, "withdrawal event");
                let contract = self.addr(erc20_contract_address, "withdrawal event");
                let sym = self.token_by_ledger(erc20_ledger_id).map(|t| t.symbol.clone()).unwrap_or_default();
                let wd = Wd {
                    id: bu(native_ledger_burn_index),
                    amount: bn(withdrawal_amount),
                    dest,
                    from: *from,
                    sub: *from_subaccount,
                    erc20: Some((contract, *erc20_ledger_id, bu(erc20_ledger_burn_index), bn(max_transaction_fee), sym)),
                    created_at: *created_at,
                    txs: vec![],
                    signed: vec![],
                    fin: None,
                    reimbursed: None,
                };
                self.on_withdrawal(w, wd, c, m);
            }
            EP::FailedErc20WithdrawalRequest { withdrawal_id, reimbursed_amount, to, to_subaccount } => {
                let id = bu(withdrawal_id);
                let amount = bn(reimbursed_amount);
                let burn = w.nat().block(id).cloned();
                let ok = match (&burn, &c) {
                    (Some(b), Some(c)) => {
                        b.ctx == m.ctx
                            && matches!(&b.kind, BlockKind::Burn { from } if from.owner == c.caller)
                            && *to == c.caller
                            && to_subaccount.is_none()
                            && matches!(c.kind, CtxKind::WithdrawErc20 { .. })
                            && amount <= b.amount
                            && &amount + &self.conf.lf >= b.amount
                    }
                    _ => false,
                };
                self.mon.ck(ok, &["C08", "C12", "C24"], "failed token burn is reimbursed to its caller", || {
                    format!("{:?} in {c:?}, burn {burn:?}", e.payload)
                });
                let fresh = self.burned.insert((self.conf.native, id));
                self.mon.ck(fresh, &["C04", "C08"], "burn used once", || format!("burn {id} used twice"));
                if let Some(c) = self.ctxs.get_mut(&m.ctx) {
                    c.failed = Some(id);
                }
                let native = self.conf.native;
                self.due.insert(
                    (native, id),
                    Due { to: Account { owner: *to, subaccount: *to_subaccount }, amount, tx: None, wid: id, minted: vec![], event: None, quarantined: false },
                );
            }
            EP::CreatedTransaction { withdrawal_id, transaction } => {
                let tx = self.utx(transaction);
                self.on_created(w, bu(withdrawal_id), tx, c);
            }
            EP::ReplacedTransaction { withdrawal_id, transaction } => {
                let tx = self.utx(transaction);
                self.on_replaced(w, bu(withdrawal_id), tx, c);
            }
            EP::SignedTransaction { withdrawal_id, raw_transaction } => self.on_signed(bu(withdrawal_id), raw_transaction),
            EP::FinalizedTransaction { withdrawal_id, transaction_receipt: r } => {
                let id = bu(withdrawal_id);
                let hash = parse_h32(&r.transaction_hash).unwrap_or([0xee; 32]);
                let ok = r.status == TransactionStatus::Success;
                let fee = bn(&r.gas_used) * bn(&r.effective_gas_price);
                let st = if ok { "success" } else { "failure" };
                let mined = w.chain.mined_by_hash(&hash).cloned();
                let real = mined.as_ref().map(|x| {
                    x.ok == ok
                        && n(x.gas_used) == bn(&r.gas_used)
                        && x.price == bn(&r.effective_gas_price)
                        && n(x.block) == bn(&r.block_number)
                        && h0x(&w.chain.block_hash(x.block)) == r.block_hash
                });
                self.mon.ck(real == Some(true), &["C11", "C14", "C23", "C06"], &format!("finalized receipt is the chain's: {st}"), || {
                    format!("receipt {r:?} but the chain has {mined:?}")
                });
                let finc = w.chain.finalized_count();
                let Some(wd) = self.wds.get_mut(&id) else {
                    self.mon.ck(false, &["C06", "C23", "C24"], "finalized a known withdrawal", || format!("{id}"));
                    return;
                };
                let pos = wd.signed.iter().position(|s| s.hash == hash);
                let again = wd.fin.is_some();
                let nonce = wd.txs.first().map(|t| t.nonce.clone()).unwrap_or_default();
                let nrep = wd.txs.len();
                if let Some(p) = pos {
                    wd.fin = Some(Fin { hash, ok, fee: fee.clone(), tx: p });
                }
                let wd = wd.clone();
                self.mon.ck(pos.is_some(), &["C23", "C06", "C07"], &format!("finalized one of its own transactions (of {nrep})"), || format!("{r:?} not among {:?}", wd.signed));
                self.mon.ck(!again, &["C06", "C08", "C24"], "finalized once", || format!("withdrawal {id} finalized again"));
                self.mon.ck(n(finc) > nonce, &["C23"], &format!("nonce below the finalized count: {st}"), || format!("nonce {nonce}, finalized count {finc}"));
                let Some(p) = pos else { return };
                if again {
                    return;
                }
                let sub = |b: &mut N, v: &N, mon: &mut Mon| {
                    if *b >= *v {
                        *b -= v
                    } else {
                        mon.ck(false, &["C11"], "balance covers the withdrawal", || format!("{b} < {v}"));
                        *b = n(0)
                    }
                };
                let mut spent = fee.clone();
                if ok {
                    spent += &wd.signed[p].value;
                }
                sub(&mut self.native_bal, &spent, &mut self.mon);
                match &wd.erc20 {
                    Some((contract, ledger, bidx, _, _)) => {
                        if ok {
                            let b = self.erc20_bal.entry(*contract).or_default();
                            sub(b, &wd.amount, &mut self.mon);
                        } else {
                            self.due.insert(
                                (*ledger, *bidx),
                                Due {
                                    to: Account { owner: wd.from, subaccount: wd.sub },
                                    amount: wd.amount.clone(),
                                    tx: Some(hash),
                                    wid: id,
                                    minted: vec![],
                                    event: None,
                                    quarantined: false,
                                },
                            );
                        }
                    }
                    None => {
                        if !ok {
                            let native = self.conf.native;
                            self.due.insert(
                                (native, id),
                                Due {
                                    to: Account { owner: wd.from, subaccount: wd.sub },
                                    amount: wd.signed[p].value.clone(),
                                    tx: Some(hash),
                                    wid: id,
                                    minted: vec![],
                                    event: None,
                                    quarantined: false,
                                },
                            );
                        }
                    }
                }
            }
            EP::ReimbursedNativeWithdrawal { reimbursed_in_block, withdrawal_id, reimbursed_amount, transaction_hash } => {
                let native = self.conf.native;
                self.on_reimbursed((native, bu(withdrawal_id)), None, bu(reimbursed_in_block), bn(reimbursed_amount), transaction_hash.clone());
            }
            EP::ReimbursedErc20Withdrawal { withdrawal_id, burn_in_block, reimbursed_in_block, ledger_id, reimbursed_amount, transaction_hash } => {
                self.on_reimbursed((*ledger_id, bu(burn_in_block)), Some(bu(withdrawal_id)), bu(reimbursed_in_block), bn(reimbursed_amount), transaction_hash.clone());
            }
            EP::SkippedBlock { block_number } => {
                let b = bu(block_number);
                let ok = matches!(&m.logs, Some((f, t, LogsOutcome::TooLarge)) if *f == b && *t == b);
                self.mon.ck(ok, &["C03", "C14"], "a skipped block was too large on its own", || format!("skipped {b} in {m:?}"));
                self.skipped.insert(b);
            }
            EP::AddedErc20Token { chain_id, address, erc20_token_symbol, erc20_ledger_id } => {
                let a = self.addr(address, "token event");
                let ok = matches!(&c, Some(Ctx { kind: CtxKind::AddToken { ok: true, addr, symbol, ledger, chain }, caller, .. })
                    if parse_addr(addr) == Some(a) && symbol == erc20_token_symbol && ledger == erc20_ledger_id && *chain == bn(chain_id) && *caller == self.conf.lsm);
                self.mon.ck(ok, &["C16", "C24"], "token registered by the manager", || format!("{:?} in {c:?}", e.payload));
                let uniq = !self.tokens.iter().any(|t| t.addr == a || t.ledger == *erc20_ledger_id || t.symbol == *erc20_token_symbol);
                self.mon.ck(uniq && bn(chain_id) == n(self.conf.chain_id), &["C16"], "registry stays one-to-one", || format!("{:?}", e.payload));
                self.tokens.push(Token { ledger: *erc20_ledger_id, addr: a, symbol: erc20_token_symbol.clone(), since: w.now, since_block: w.chain.head });
            }
            EP::QuarantinedDeposit { event_source } => {
                let s = self.src(event_source);
                self.mon.ck(m.trapped && m.real.is_none(), &["C03"], "quarantine only after a fault outside the minter", || format!("{s:?} quarantined in {m:?}"));
                match self.acc.get_mut(&s) {
                    Some(a) => {
                        let fresh = a.minted.is_none() && !a.quarantined;
                        a.quarantined = true;
                        self.mon.ck(fresh, &["C03", "C24"], "quarantined deposit was waiting", || format!("{s:?}"));
                    }
                    None => {
                        self.mon.ck(false, &["C24", "C03"], "quarantined deposit is known", || format!("{s:?}"));
                    }
                }
            }
            EP::QuarantinedReimbursement { index } => {
                let key = match index {
                    ReimbursementIndex::Native { ledger_burn_index } => (self.conf.native, bu(ledger_burn_index)),
                    ReimbursementIndex::Erc20 { ledger_id, erc20_ledger_burn_index, .. } => (*ledger_id, bu(erc20_ledger_burn_index)),
                };
                self.mon.ck(m.trapped && m.real.is_none(), &["C08"], "reimbursement quarantined only after a fault outside the minter", || format!("{key:?} in {m:?}"));
                if let Some(d) = self.due.get_mut(&key) {
                    d.quarantined = true;
                } else {
                    self.mon.ck(false, &["C08", "C24"], "quarantined reimbursement is due", || format!("{key:?}"));
                }
            }
        }
    }
    fn on_accepted(&mut self, w: &World, d: Deposit, block: u64, m: &Msg) {
        let s = (d.tx, d.log_index);
        let tok = if d.token.is_some() { "erc20" } else { "native" };
        let real = self.chain_deposit(w, &s);
        let ok = real.as_ref().map(|(b, r)| *b == block && *r == d).unwrap_or(false);
        let sub = if d.subaccount.is_some() { " with subaccount" } else { "" };
        self.mon.ck(ok, &["C02", "C14", "C15", "C23"], &format!("accepted {tok} deposit{sub} is in the final chain"), || {
            format!("accepted {d:?} in block {block}; final chain has {real:?}")
        });
        let fresh = !self.acc.contains_key(&s) && !self.invalid.contains(&s);
        self.mon.ck(fresh, &["C01", "C24"], "accepted once", || format!("{s:?} accepted again"));
        let within = matches!(&m.logs, Some((f, t, LogsOutcome::Accept)) if *f <= block && block <= *t);
        self.mon.ck(within, &["C14", "C03", "C24"], "accepted from an agreed answer", || format!("{d:?} accepted in {m:?}"));
        match &d.token {
            None => self.native_bal += &d.value,
            Some(t) => *self.erc20_bal.entry(*t).or_default() += &d.value,
        }
        self.acc.insert(s, Acc { d, block, minted: None, quarantined: false });
    }
    fn on_minted(&mut self, w: &World, s: &EventSource, idx: u64, tok: Option<(Addr, String)>) {
        let src = self.src(s);
        let execs = self.mints.get(&src).cloned().unwrap_or_default();
        let Some(a) = self.acc.get_mut(&src) else {
            self.mon.ck(false, &["C24", "C01"], "minted event of an accepted deposit", || format!("{src:?}"));
            return;
        };
        let fresh = a.minted.is_none() && !a.quarantined;
        a.minted = Some(idx);
        let a = a.clone();
        self.mon.ck(fresh, &["C01", "C24"], "minted event once", || format!("{src:?} minted again or quarantined before"));
        let ledger = match &a.d.token {
            None => Some(w.native),
            Some(t) => self.token_by_addr(t).map(|t| t.ledger),
        };
        let ok = ledger.map(|l| execs.contains(&(l, idx))).unwrap_or(false);
        self.mon.ck(ok, &["C24", "C02", "C03"], "minted event names the ledger block", || format!("event says block {idx} on {ledger:?}, executed {execs:?}"));
        let tok_ok = match (&tok, &a.d.token) {
            (None, None) => true,
            (Some((x, sym)), Some(y)) => x == y && self.token_by_addr(y).map(|t| t.symbol == *sym).unwrap_or(false),
            _ => false,
        };
        self.mon.ck(tok_ok, &["C24", "C02"], "minted event names the token", || format!("{tok:?} vs {:?}", a.d));
    }
    fn on_withdrawal(&mut self, w: &World, wd: Wd, c: Option<Ctx>, m: &Msg) {
        let kind = if wd.erc20.is_some() { "erc20" } else { "native" };
        let native_burn = w.nat().block(wd.id).cloned();
        let (want_from, want_amount, want_dest) = match &c {
            Some(c) => match &c.kind {
                CtxKind::WithdrawNative { amount, dest } if wd.erc20.is_none() => {
                    let f = &self.conf.wd_fee;
                    (Some(c.caller), if amount >= f { Some(amount - f) } else { None }, parse_addr(dest))
                }
                CtxKind::WithdrawErc20 { amount, dest, .. } if wd.erc20.is_some() => (Some(c.caller), Some(amount.clone()), parse_addr(dest)),
                _ => (None, None, None),
            },
            None => (None, None, None),
        };
        self.mon.ck(want_from == Some(wd.from) && wd.sub.is_none(), &["C04", "C16", "C24"], &format!("{kind} request records the caller"), || format!("{wd:?} by {c:?}"));
        self.mon.ck(want_dest == Some(wd.dest) && wd.dest != [0; 20], &["C04", "C21"], &format!("{kind} request records the destination"), || format!("{wd:?} by {c:?}"));
        self.mon.ck(want_amount == Some(wd.amount.clone()), &["C04"], &format!("{kind} request records the amount"), || format!("{wd:?} by {c:?}"));
        let nb = native_burn.as_ref();
        let burn_ok = nb.map(|b| {
            let from_ok = matches!(&b.kind, BlockKind::Burn { from } if from.owner == wd.from && from.subaccount.is_none());
            let amount = match &wd.erc20 {
                None => &wd.amount,
                Some(e) => &e.3,
            };
            from_ok && b.amount == *amount && b.ctx == m.ctx
        });
        self.mon.ck(burn_ok == Some(true), &["C04", "C12"], &format!("{kind} request is backed by a native burn"), || format!("{wd:?} burn {nb:?}"));
        let fresh = self.burned.insert((w.native, wd.id));
        self.mon.ck(fresh, &["C04"], "native burn backs one request", || format!("burn {} used twice", wd.id));
        self.mon.ck(!self.wds.contains_key(&wd.id), &["C04", "C24"], "request recorded once", || format!("{}", wd.id));
        if let Some(c) = &c {
            if let CtxKind::WithdrawNative { amount, .. } = &c.kind {
                self.mon.ck(*amount >= self.conf.min_w, &["C04", "C22"], "native amount at least the minimum", || format!("{amount} < {}", self.conf.min_w));
            }
            self.mon.ck(c.caller != Principal::anonymous(), &["C04"], "caller not anonymous", || String::new());
            if let Some(cc) = self.ctxs.get_mut(&c.id) {
                self.mon.ck(cc.accepted.is_none(), &["C04", "C24"], "one request per call", || format!("{c:?}"));
                cc.accepted = Some(wd.id);
            }
        }
        if let Some((contract, ledger, bidx, fee, _)) = &wd.erc20 {
            let t = self.token_by_ledger(ledger).cloned();
            let tok_ok = t.map(|t| t.addr == *contract).unwrap_or(false) && matches!(&c, Some(Ctx{kind: CtxKind::WithdrawErc20{ledger: l, ..}, ..}) if l == ledger);
            self.mon.ck(tok_ok, &["C04", "C16"], "erc20 request names a supported token", || format!("{wd:?}"));
            let eb = w.ledgers.get(ledger).and_then(|l| l.block(*bidx)).cloned();
            let ok = eb.as_ref().map(|b| {
                matches!(&b.kind, BlockKind::Burn { from } if from.owner == wd.from && from.subaccount.is_none())
                    && b.amount == wd.amount
                    && b.ctx == m.ctx
                    && matches!(b.memo.as_ref().and_then(|m| decode_memo(m, false)), Some(Memo::BurnErc20 { id, to }) if id == wd.id && to == wd.dest)
            });
            self.mon.ck(ok == Some(true), &["C04"], "erc20 request is backed by a token burn", || format!("{wd:?} burn {eb:?}"));
            let fresh = self.burned.insert((*ledger, *bidx));
            self.mon.ck(fresh, &["C04"], "token burn backs one request", || format!("burn {bidx} on {ledger} used twice"));
            let start = c.as_ref().map(|c| c.start).unwrap_or(0);
            let ests = self.est_between(start, w.now);
            let ok = ests.iter().any(|e| e.max() * ERC20_GAS == *fee && e.ts + 30 * SEC > start);
            self.mon.ck(ok, &["C17", "C04", "C12"], "erc20 fee is the current estimate", || format!("fee {fee}, estimates {ests:?}"));
        }
        self.wds.insert(wd.id, wd);
    }
    fn price_window(&self, c: &Option<Ctx>, now: u64) -> Vec<Est> {
        let a = c.as_ref().map(|c| c.start).unwrap_or(now);
        self.est_between(a, now)
    }
    fn tx_common(&mut self, wd: &Wd, tx: &UTx, what: &str) {
        let kind = if wd.erc20.is_some() { "erc20" } else { "native" };
        let k = |s: &str| format!("{what} {kind}: {s}");
        self.mon.ck(tx.chain_id == n(self.conf.chain_id), &["C05"], &k("chain id"), || format!("{tx:?}"));
        self.mon.ck(tx.prio <= tx.max_fee, &["C05", "C17"], &k("priority fee within maximum fee"), || format!("{tx:?}"));
        self.mon.ck(tx.gas == n(wd.gas()), &["C05"], &k("gas limit"), || format!("{tx:?}"));
        let max = &tx.max_fee * &tx.gas;
        match &wd.erc20 {
            None => {
                self.mon.ck(tx.to == wd.dest, &["C05", "C21"], &k("destination"), || format!("{tx:?} {wd:?}"));
                self.mon.ck(tx.data.is_empty(), &["C05"], &k("empty data"), || format!("{tx:?}"));
                self.mon.ck(&max + &tx.value == wd.amount, &["C05", "C11"], &k("value plus fee is the burned amount"), || format!("{tx:?} {wd:?}"));
            }
            Some((contract, _, _, fee, _)) => {
                self.mon.ck(tx.to == *contract && tx.value == n(0), &["C05"], &k("goes to the token contract"), || format!("{tx:?} {wd:?}"));
                let mut want = hex::decode("a9059cbb").unwrap();
                want.extend(word_of_addr(&wd.dest));
                want.extend(word_of(&wd.amount));
                self.mon.ck(tx.data == want, &["C05", "C21"], &k("transfer call"), || format!("{} {wd:?}", hex::encode(&tx.data)));
                self.mon.ck(max <= *fee, &["C05", "C11"], &k("fee within what was burned"), || format!("{tx:?} {wd:?}"));
            }
        }
    }
    fn on_created(&mut self, w: &World, id: u64, tx: UTx, c: Option<Ctx>) {
        let Some(wd) = self.wds.get(&id).cloned() else {
            self.mon.ck(false, &["C05", "C06", "C04"], "created for a known request", || format!("{id}"));
            return;
        };
        let next = self.next_nonce.clone();
        let up = if self.upgrades > 0 { " after upgrade" } else { "" };
        self.mon.ck(tx.nonce == next, &["C06"], &format!("next nonce{up}"), || format!("nonce {} but {next} is next", tx.nonce));
        let used = self.nonce_used.insert(tx.nonce.clone(), id);
        self.mon.ck(used.is_none(), &["C06"], "nonce unused", || format!("nonce {} was used for {used:?}", tx.nonce));
        self.mon.ck(wd.txs.is_empty(), &["C06", "C24"], "one created transaction per withdrawal", || format!("{wd:?}"));
        self.next_nonce = &tx.nonce + 1u8;
        self.tx_common(&wd, &tx, "created");
        let ests = self.price_window(&c, w.now);
        let kind = if wd.erc20.is_some() { "erc20" } else { "native" };
        let ok = ests.iter().any(|e| match &wd.erc20 {
            None => tx.max_fee == e.max() && tx.prio == e.prio,
            Some(x) => tx.prio == e.prio && tx.max_fee == &x.3 / ERC20_GAS && &e.base + &e.prio <= tx.max_fee,
        });
        self.mon.ck(ok, &["C17"], &format!("created {kind} at the estimated price"), || format!("{tx:?} estimates {ests:?}"));
        self.wds.get_mut(&id).unwrap().txs.push(tx);
    }
    fn on_replaced(&mut self, w: &World, id: u64, tx: UTx, c: Option<Ctx>) {
        let Some(wd) = self.wds.get(&id).cloned() else {
            self.mon.ck(false, &["C06"], "replaced for a known request", || format!("{id}"));
            return;
        };
        // a replacement that was never signed is dropped in favour of a new one
        let mut wd = wd;
        if wd.txs.len() > wd.signed.len() && !wd.signed.is_empty() {
            self.mon.stat("replacements dropped before signing");
            wd.txs.truncate(wd.signed.len());
            self.wds.get_mut(&id).unwrap().txs.truncate(wd.signed.len());
        }
        let Some(old) = wd.txs.last().cloned() else {
            self.mon.ck(false, &["C06"], "replaced has a predecessor", || format!("{id}"));
            return;
        };
        let kind = if wd.erc20.is_some() { "erc20" } else { "native" };
        self.mon.ck(
            tx.nonce == old.nonce && tx.to == old.to && tx.data == old.data && tx.gas == old.gas,
            &["C06"],
            &format!("{kind} replacement keeps nonce, destination, data, gas"),
            || format!("{old:?} -> {tx:?}"),
        );
        self.mon.ck(wd.fin.is_none(), &["C06"], "replaced before it is final", || format!("{wd:?}"));
        let signed = wd.signed.len() == wd.txs.len();
        self.mon.ck(signed, &["C06", "C24"], "replaced after it was signed", || format!("{wd:?}"));
        self.tx_common(&wd, &tx, "replaced");
        let bump = &tx.prio * 10u8 >= &old.prio * 11u8;
        self.mon.ck(bump, &["C17"], &format!("{kind} replacement raises the priority fee by ten percent"), || format!("{} -> {}", old.prio, tx.prio));
        self.mon.ck(tx.max_fee >= old.max_fee, &["C17"], &format!("{kind} replacement never lowers the maximum fee"), || format!("{} -> {}", old.max_fee, tx.max_fee));
        let ests = self.price_window(&c, w.now);
        let ten = |o: &N| (o + 9u8) / 10u8;
        let ok = ests.iter().any(|e| {
            let need = &e.base + &e.prio;
            let covered = old.max_fee >= need && old.prio >= e.prio;
            let bumped = &old.prio + ten(&old.prio);
            let prio = if bumped > e.prio { bumped } else { e.prio.clone() };
            let least = &e.base + &prio;
            let max = if least > old.max_fee { least } else { old.max_fee.clone() };
            // native replacements spend what the maximum fee says; either way the fee is the least sufficient one
            !covered && tx.prio == prio && tx.max_fee == max
        });
        self.mon.ck(ok, &["C17"], &format!("{kind} replacement only when outpriced, at the current price"), || format!("{old:?} -> {tx:?}, estimates {ests:?}"));
        self.mon.stat("replacements");
        self.wds.get_mut(&id).unwrap().txs.push(tx);
    }
    fn on_signed(&mut self, id: u64, raw: &str) {
        let bytes = raw.strip_prefix("0x").and_then(|h| hex::decode(h).ok());
        let dec = bytes.ok_or("not hex".to_string()).and_then(|b| decode_raw_tx(&b));
        let raw_tx = match dec {
            Ok(r) => {
                self.mon.ck(true, &["C07"], "raw transaction decodes strictly", String::new);
                r
            }
            Err(e) => {
                self.mon.ck(false, &["C07"], "raw transaction decodes strictly", || format!("{e}: {raw}"));
                return;
            }
        };
        let Some(wd) = self.wds.get_mut(&id) else {
            self.mon.ck(false, &["C07", "C06"], "signed for a known request", || format!("{id}"));
            return;
        };
        let rep = if wd.txs.len() > 1 { "replacement" } else { "first" };
        let kind = if wd.erc20.is_some() { "erc20" } else { "native" };
        let want = wd.txs.last().cloned();
        let unsigned = wd.txs.len() == wd.signed.len() + 1;
        wd.signed.push(raw_tx.clone());
        let got = UTx {
            chain_id: raw_tx.chain_id.clone(),
            nonce: raw_tx.nonce.clone(),
            prio: raw_tx.prio.clone(),
            max_fee: raw_tx.max_fee.clone(),
            gas: raw_tx.gas.clone(),
            to: raw_tx.to,
            value: raw_tx.value.clone(),
            data: raw_tx.data.clone(),
        };
        self.mon.ck(want.as_ref() == Some(&got), &["C07", "C05"], &format!("signed {rep} {kind} transaction is the recorded one"), || format!("signed {got:?}, recorded {want:?}"));
        self.mon.ck(unsigned, &["C24", "C07"], "signed once per transaction", || format!("withdrawal {id}"));
        let a = self.minter_addr;
        self.mon.ck(a == Some(raw_tx.from), &["C07"], &format!("signature recovers to the minter: {rep}"), || format!("{:?} vs {a:?}", raw_tx.from));
    }
    fn on_reimbursed(&mut self, key: (Principal, u64), wid: Option<u64>, block: u64, amount: N, tx: Option<String>) {
        let Some(d) = self.due.get_mut(&key) else {
            self.mon.ck(false, &["C08", "C24"], "reimbursed event of a due reimbursement", || format!("{key:?}"));
            return;
        };
        let again = d.event.is_some() || d.quarantined;
        d.event = Some(block);
        let d = d.clone();
        self.mon.ck(!again, &["C08", "C24"], "reimbursed event once", || format!("{d:?}"));
        let ok = d.minted.contains(&block) && d.amount == amount && d.tx.map(|h| h0x(&h)) == tx && wid.map(|w| w == d.wid).unwrap_or(true);
        self.mon.ck(ok, &["C08", "C24"], "reimbursed event matches the mint", || format!("{d:?} event block {block} amount {amount} tx {tx:?} id {wid:?}"));
        if d.tx.is_some() {
            if let Some(w) = self.wds.get_mut(&d.wid) {
                w.reimbursed = Some((amount, block));
            }
        }
    }

    // ------------------------------------------------------------ status oracle
    pub fn status(&self, id: u64) -> ep::RetrieveWithdrawalStatus {
        use ep::RetrieveWithdrawalStatus as R;
        use ep::TxFinalizedStatus as F;
        let Some(w) = self.wds.get(&id) else { return R::NotFound };
        let t = |h: &H32| ep::Transaction { transaction_hash: h0x(h) };
        if let Some(f) = &w.fin {
            return R::TxFinalized(if f.ok {
                F::Success { transaction_hash: h0x(&f.hash), effective_transaction_fee: Some(nat(&f.fee)) }
            } else if let Some((a, b)) = &w.reimbursed {
                F::Reimbursed { transaction_hash: h0x(&f.hash), reimbursed_amount: nat(a), reimbursed_in_block: Nat::from(*b) }
            } else {
                F::PendingReimbursement(t(&f.hash))
            });
        }
        if w.txs.is_empty() {
            R::Pending
        } else if w.txs.len() > w.signed.len() {
            R::TxCreated
        } else {
            R::TxSent(t(&w.signed.last().unwrap().hash))
        }
    }
    pub fn detail(&self, w: &Wd) -> ep::WithdrawalDetail {
        use ep::RetrieveWithdrawalStatus as R;
        let tx = match &w.fin {
            Some(f) => Some(UTx { value: w.signed[f.tx].value.clone(), ..w.txs[0].clone() }),
            None => w.txs.last().cloned(),
        };
        ep::WithdrawalDetail {
            withdrawal_id: w.id,
            recipient_address: eip55(&w.dest),
            from: w.from,
            from_subaccount: w.sub,
            token_symbol: w.erc20.as_ref().map(|e| e.4.clone()).unwrap_or(self.conf.symbol.clone()),
            withdrawal_amount: nat(&w.amount),
            max_transaction_fee: match &w.erc20 {
                Some(e) => Some(nat(&e.3)),
                None => tx.map(|t| nat(&(&w.amount - &t.value))),
            },
            status: match self.status(w.id) {
                R::Pending | R::NotFound => ep::WithdrawalStatus::Pending,
                R::TxCreated => ep::WithdrawalStatus::TxCreated,
                R::TxSent(t) => ep::WithdrawalStatus::TxSent(t),
                R::TxFinalized(f) => ep::WithdrawalStatus::TxFinalized(f),
            },
        }
    }
}
