//! C10, C27: events with every kind of value in every part: stored and read back, and read from what the pinned version
//! wrote (corpus/events.txt: seed of the generator, bytes).
use super::U;
use crate::util::*;
use candid::{Nat, Principal};
use evm_minter::deposit_logs::{EventSource, LedgerSubaccount, ReceivedErc20Event, ReceivedNativeEvent};
use evm_minter::endpoints::CandidBlockTag;
use evm_minter::erc20::{ERC20Token, ERC20TokenSymbol};
use evm_minter::eth_types::Address;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::lifecycle::{InitArg, UpgradeArg};
use evm_minter::numeric::*;
use evm_minter::rpc_declrations::{Hash, TransactionReceipt, TransactionStatus};
use evm_minter::state::audit::EventType;
use evm_minter::state::event::Event;
use evm_minter::state::transactions::*;
use evm_minter::tx::*;

struct G(Rng);
impl G {
    fn u256(&mut self) -> [u8; 32] {
        let b = *self.0.pick(&[0u64, 1, 8, 16, 32, 33, 63, 64, 65, 128, 160, 255, 256, 256]);
        word_of(&self.0.big(b))
    }
    fn u64(&mut self) -> u64 {
        let s = self.0.below(65);
        if s == 64 {
            return u64::MAX;
        }
        self.0.next() >> s
    }
    fn nat(&mut self) -> Nat {
        nat(&N::from_bytes_be(&self.u256()))
    }
    fn opt<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> Option<T> {
        self.0.pm(700).then(|| f(self))
    }
    fn hash(&mut self) -> Hash {
        Hash(self.0.bytes())
    }
    fn addr(&mut self) -> Address {
        Address::new(self.0.bytes())
    }
    fn who(&mut self) -> Principal {
        let l = self.0.below(30) as usize;
        Principal::from_slice(&self.0.vec(l))
    }
    fn text(&mut self) -> String {
        let l = *self.0.pick(&[0u64, 1, 5, 20, 23, 24, 100, 255, 256, 300]);
        (0..l).map(|_| *self.0.pick(&['a', 'Z', '0', ' ', '"', '\\', 'é', '中', '🦀', '\u{0}'])).collect()
    }
    fn sub(&mut self) -> Option<Subaccount> {
        self.opt(|g| Subaccount(if g.0.pm(100) { [0; 32] } else { g.0.bytes() }))
    }
    fn lsub(&mut self) -> Option<LedgerSubaccount> {
        self.opt(|g| LedgerSubaccount::from_bytes(g.u256())).flatten()
    }
    fn network(&mut self) -> EvmNetwork {
        use EvmNetwork::*;
        *self.0.pick(&[Ethereum, Sepolia, ArbitrumOne, BSC, BSCTestnet, Polygon, Optimism, Base])
    }
    fn tag(&mut self) -> CandidBlockTag {
        self.0.pick(&[CandidBlockTag::Latest, CandidBlockTag::Safe, CandidBlockTag::Finalized]).clone()
    }
    fn tx(&mut self) -> Eip1559TransactionRequest {
        let len = *self.0.pick(&[0usize, 1, 23, 24, 68, 255, 256, 300]);
        Eip1559TransactionRequest {
            chain_id: self.u64(),
            nonce: TransactionNonce::from_be_bytes(self.u256()),
            max_priority_fee_per_gas: WeiPerGas::from_be_bytes(self.u256()),
            max_fee_per_gas: WeiPerGas::from_be_bytes(self.u256()),
            gas_limit: GasAmount::from_be_bytes(self.u256()),
            destination: self.addr(),
            amount: Wei::from_be_bytes(self.u256()),
            data: self.0.vec(len),
            access_list: AccessList(
                (0..self.0.below(3)).map(|_| AccessListItem { address: self.addr(), storage_keys: (0..self.0.below(3)).map(|_| StorageKey(self.0.bytes())).collect() }).collect(),
            ),
        }
    }
    fn signed(&mut self) -> SignedEip1559TransactionRequest {
        let t = self.tx();
        let w = |b: [u8; 32]| ethnum::u256::from_be_bytes(b);
        let s = Eip1559Signature { signature_y_parity: self.0.pm(500), r: w(self.u256()), s: w(self.u256()) };
        SignedEip1559TransactionRequest::new(t, s)
    }
    fn source(&mut self) -> EventSource {
        EventSource { transaction_hash: self.hash(), log_index: LogIndex::from_be_bytes(self.u256()) }
    }
    fn burn(&mut self) -> LedgerBurnIndex {
        LedgerBurnIndex::new(self.u64())
    }
    fn mint(&mut self) -> LedgerMintIndex {
        LedgerMintIndex::new(self.u64())
    }
    fn reimbursed(&mut self) -> Reimbursed {
        Reimbursed {
            reimbursed_in_block: self.mint(),
            burn_in_block: self.burn(),
            reimbursed_amount: Erc20TokenAmount::from_be_bytes(self.u256()),
            transaction_hash: self.opt(|g| g.hash()),
        }
    }
    fn event(&mut self, kind: u64) -> EventType {
        use EventType as E;
        match kind {
            0 => E::Init(InitArg {
                evm_network: self.network(),
                ecdsa_key_name: self.text(),
                helper_contract_address: self.opt(|g| g.text()),
                native_ledger_id: self.who(),
                native_index_id: self.who(),
                native_symbol: self.text(),
                block_height: self.tag(),
                native_minimum_withdrawal_amount: self.nat(),
                native_ledger_transfer_fee: self.nat(),
                next_transaction_nonce: self.nat(),
                last_scraped_block_number: self.nat(),
                min_max_priority_fee_per_gas: self.nat(),
                ledger_suite_manager_id: self.who(),
                deposit_native_fee: self.nat(),
                withdrawal_native_fee: self.nat(),
            }),
            1 => E::Upgrade(UpgradeArg {
                next_transaction_nonce: self.opt(|g| g.nat()),
                native_minimum_withdrawal_amount: self.opt(|g| g.nat()),
                helper_contract_address: self.opt(|g| g.text()),
                block_height: self.opt(|g| g.tag()),
                last_scraped_block_number: self.opt(|g| g.nat()),
                evm_rpc_id: self.opt(|g| g.who()),
                native_ledger_transfer_fee: self.opt(|g| g.nat()),
                min_max_priority_fee_per_gas: self.opt(|g| g.nat()),
                deposit_native_fee: self.opt(|g| g.nat()),
                withdrawal_native_fee: self.opt(|g| g.nat()),
            }),
            2 => E::AcceptedDeposit(ReceivedNativeEvent {
                transaction_hash: self.hash(),
                block_number: BlockNumber::from_be_bytes(self.u256()),
                log_index: LogIndex::from_be_bytes(self.u256()),
                from_address: self.addr(),
                value: Wei::from_be_bytes(self.u256()),
                principal: self.who(),
                subaccount: self.lsub(),
            }),
            3 => E::AcceptedErc20Deposit(ReceivedErc20Event {
                transaction_hash: self.hash(),
                block_number: BlockNumber::from_be_bytes(self.u256()),
                log_index: LogIndex::from_be_bytes(self.u256()),
                from_address: self.addr(),
                value: Erc20Value::from_be_bytes(self.u256()),
                principal: self.who(),
                erc20_contract_address: self.addr(),
                subaccount: self.lsub(),
            }),
            4 => E::InvalidDeposit { event_source: self.source(), reason: self.text() },
            5 => E::MintedNative { event_source: self.source(), mint_block_index: self.mint() },
            6 => E::MintedErc20 { event_source: self.source(), mint_block_index: self.mint(), erc20_token_symbol: self.text(), erc20_contract_address: self.addr() },
            7 => E::SyncedToBlock { block_number: BlockNumber::from_be_bytes(self.u256()) },
            8 => E::AcceptedNativeWithdrawalRequest(NativeWithdrawalRequest {
                withdrawal_amount: Wei::from_be_bytes(self.u256()),
                destination: self.addr(),
                ledger_burn_index: self.burn(),
                from: self.who(),
                from_subaccount: self.sub(),
                created_at: self.opt(|g| g.u64()),
            }),
            9 => E::AcceptedErc20WithdrawalRequest(Erc20WithdrawalRequest {
                max_transaction_fee: Wei::from_be_bytes(self.u256()),
                withdrawal_amount: Erc20Value::from_be_bytes(self.u256()),
                destination: self.addr(),
                native_ledger_burn_index: self.burn(),
                erc20_contract_address: self.addr(),
                erc20_ledger_id: self.who(),
                erc20_ledger_burn_index: self.burn(),
                from: self.who(),
                from_subaccount: self.sub(),
                created_at: self.u64(),
            }),
            10 => E::CreatedTransaction { withdrawal_id: self.burn(), transaction: self.tx() },
            11 => E::SignedTransaction { withdrawal_id: self.burn(), transaction: self.signed() },
            12 => E::ReplacedTransaction { withdrawal_id: self.burn(), transaction: self.tx() },
            13 => E::FinalizedTransaction {
                withdrawal_id: self.burn(),
                transaction_receipt: TransactionReceipt {
                    block_hash: self.hash(),
                    block_number: BlockNumber::from_be_bytes(self.u256()),
                    effective_gas_price: WeiPerGas::from_be_bytes(self.u256()),
                    gas_used: GasAmount::from_be_bytes(self.u256()),
                    status: if self.0.pm(500) { TransactionStatus::Success } else { TransactionStatus::Failure },
                    transaction_hash: self.hash(),
                },
            },
            14 => E::ReimbursedNativeWithdrawal(self.reimbursed()),
            15 => E::ReimbursedErc20Withdrawal { native_ledger_burn_index: self.burn(), erc20_ledger_id: self.who(), reimbursed: self.reimbursed() },
            16 => E::AddedErc20Token(ERC20Token {
                chain_id: self.network(),
                erc20_contract_address: self.addr(),
                erc20_token_symbol: ERC20TokenSymbol::new(self.text()),
                erc20_ledger_id: self.who(),
            }),
            17 => E::FailedErc20WithdrawalRequest(ReimbursementRequest {
                ledger_burn_index: self.burn(),
                reimbursed_amount: Erc20TokenAmount::from_be_bytes(self.u256()),
                to: self.who(),
                to_subaccount: self.sub(),
                transaction_hash: self.opt(|g| g.hash()),
            }),
            18 => E::QuarantinedDeposit { event_source: self.source() },
            19 => E::QuarantinedReimbursement {
                index: if self.0.pm(500) {
                    ReimbursementIndex::Native { ledger_burn_index: self.burn() }
                } else {
                    ReimbursementIndex::Erc20 { native_ledger_burn_index: self.burn(), ledger_id: self.who(), erc20_ledger_burn_index: self.burn() }
                },
            },
            _ => E::SkippedBlock { block_number: BlockNumber::from_be_bytes(self.u256()) },
        }
    }
}
const KINDS: u64 = 21;

fn any(seed: u64) -> Event {
    let mut g = G(Rng::new(seed));
    let timestamp = g.u64();
    Event { timestamp, payload: g.event(seed % KINDS) }
}

pub fn record(dir: &str) {
    let mut s = String::new();
    for seed in 0..30 * KINDS {
        s += &format!("{seed} {}\n", hex::encode(minicbor::to_vec(any(seed)).unwrap()));
    }
    std::fs::write(format!("{dir}/events.txt"), s).unwrap();
}

fn name(e: &Event) -> String {
    format!("{:?}", e.payload).split([' ', '(', '{']).next().unwrap_or("").to_string()
}

/// C27: what the pinned version wrote is read as what was written.
pub fn old(u: &mut U) {
    let text = std::fs::read_to_string("/verif/corpus/events.txt").expect("corpus");
    for l in text.lines() {
        let (seed, bytes) = l.split_once(' ').unwrap();
        let (want, bytes) = (any(seed.parse().unwrap()), hex::decode(bytes).unwrap());
        u.case();
        let kind = name(&want);
        u.mon.stat(&format!("{kind} written before, read now"));
        let got: Result<Event, _> = minicbor::decode(&bytes);
        u.ck(got.as_ref().ok() == Some(&want), "an event written before is read as what was written", || format!("{}: wrote {want:?}, read {got:?}", hex::encode(&bytes)));
    }
}

/// C10: an event appended to the log is read back from it unchanged, whatever is in it.
pub fn stored(u: &mut U) {
    let start = evm_minter::storage::total_event_count();
    let mut want = vec![];
    for _ in 0..u.rounds(2000) {
        u.case();
        let e = any(u.rng.next());
        u.mon.stat(&format!("{} stored", name(&e)));
        ic_host::with(|h| h.time = e.timestamp);
        evm_minter::storage::record_event(e.payload.clone());
        want.push(e);
        if want.len() == 500 {
            check(u, start, &want);
        }
    }
    check(u, start, &want);
}
fn check(u: &mut U, start: u64, want: &[Event]) {
    let got = std::panic::catch_unwind(|| evm_minter::storage::with_event_iter(|it| it.skip(start as usize).collect::<Vec<_>>()));
    u.ck(got.is_ok(), "every stored event can be read", || format!("{} events", want.len()));
    let Ok(got) = got else { return };
    u.ck(got.len() == want.len(), "every stored event is read", || format!("{} of {}", got.len(), want.len()));
    let bad = got.iter().zip(want).find(|(g, w)| g != w);
    u.ck(bad.is_none(), "every stored event is read back as it was", || format!("{bad:?}").chars().take(1500).collect());
}
