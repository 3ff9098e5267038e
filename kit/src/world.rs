//! A small honest world around the real canister: one EVM chain, its RPC providers, ICRC ledgers and the signer.
//! Calls are answered in order unless a hook says otherwise.
use crate::canister::*;
use crate::chain::*;
use crate::ledger::*;
use crate::rpc::*;
use crate::util::*;
use candid::utils::ArgumentEncoder;
use candid::{CandidType, Nat, Principal};
use crate::wire::{AddErc20Token, CandidBlockTag};
use crate::wire::EvmNetwork;
use crate::wire::{InitArg, MinterArg, UpgradeArg};
use evm_rpc_types as t;
use ic_host::{with, OutCall, Response};
use icrc_ledger_types::icrc1::account::Account;
use serde::Deserialize;
use std::collections::{BTreeMap, VecDeque};

pub const GWEI: u64 = 1_000_000_000;
pub const ETHER: u64 = 1_000_000_000_000_000_000;
pub const SEC: u64 = 1_000_000_000;

pub enum Ans {
    Honest,
    With(Response),
    /// The callee does what was asked, and the minter traps when it hears of it.
    ThenTrap,
}
type Hook = Box<dyn FnMut(&mut W, u64, &Req) -> Ans>;

pub struct W {
    pub chain: Chain,
    pub ledgers: BTreeMap<Principal, Ledger>,
    pub native: Principal,
    pub me: Principal,
    pub lsm: Principal,
    pub now: u64,
    pub rng: Rng,
    pub init: InitArg,
    pub pend: VecDeque<OutCall>,
    pub hook: Option<Hook>,
    pub replies: BTreeMap<u64, Response>,
    pub next_ctx: u64,
    pub seen: Vec<Req>,
    /// Cycles attached to each of them.
    pub cycles: Vec<u128>,
    pub traps: Vec<String>,
    pub fee_history: Option<(Vec<u64>, Vec<u64>)>,
    /// Whom the call being answered was made to.
    pub callee: Principal,
    tx: u64,
}
// SAFETY: moved between threads only by `upgrade`, with no calls pending and no hook.
unsafe impl Send for W {}

#[derive(CandidType, Deserialize)]
struct KeyId {
    name: String,
}
#[derive(CandidType, Deserialize)]
struct KeyArg {
    key_id: KeyId,
}
#[derive(CandidType, Deserialize)]
struct SignArg {
    message_hash: serde_bytes::ByteBuf,
    key_id: KeyId,
}
#[derive(CandidType, Deserialize)]
struct PubkeyReply {
    public_key: serde_bytes::ByteBuf,
    chain_code: serde_bytes::ByteBuf,
}
#[derive(CandidType, Deserialize)]
struct SigReply {
    signature: serde_bytes::ByteBuf,
}

pub fn user(i: u8) -> Principal {
    Principal::from_slice(&[10 + i, 2, 3, 4, 5, 6, 7, 8, 1])
}
pub fn acct(p: Principal) -> Account {
    Account { owner: p, subaccount: None }
}
pub fn token(i: u8) -> (Principal, Addr, String) {
    (Principal::from_slice(&[0, 0, 0, 0, 4, 0, 0, i, 1]), [0x40 + i; 20], format!("icTK{i}"))
}
pub fn reject() -> Ans {
    Ans::With(Response::Reject(2, "unavailable".into()))
}

impl W {
    pub fn new() -> W {
        let me = Principal::from_slice(&[0, 0, 0, 0, 1, 0, 0, 1, 1]);
        let native = Principal::from_slice(&[0, 0, 0, 0, 2, 0, 0, 1, 1]);
        let lsm = Principal::from_slice(&[0, 0, 0, 0, 3, 0, 0, 1, 1]);
        let helper = [0x77u8; 20];
        let init = InitArg {
            evm_network: EvmNetwork::Ethereum,
            ecdsa_key_name: "key_1".into(),
            helper_contract_address: Some(h0x(&helper)),
            native_ledger_id: native,
            native_index_id: Principal::from_slice(&[0, 0, 0, 0, 2, 0, 0, 2, 1]),
            native_symbol: "icETH".into(),
            block_height: CandidBlockTag::Finalized,
            native_minimum_withdrawal_amount: Nat::from(ETHER / 100),
            native_ledger_transfer_fee: Nat::from(2000u64 * GWEI),
            next_transaction_nonce: Nat::from(0u8),
            last_scraped_block_number: Nat::from(1000u64),
            min_max_priority_fee_per_gas: Nat::from(GWEI),
            ledger_suite_manager_id: lsm,
            deposit_native_fee: Nat::from(0u8),
            withdrawal_native_fee: Nat::from(0u8),
        };
        let chain = Chain {
            chain_id: 1,
            head: 1100,
            fdepth: 64,
            sdepth: 32,
            blocks: BTreeMap::new(),
            fees: vec![n(20 * GWEI); 6],
            rewards: vec![n(2 * GWEI); 6],
            min_tip: n(0),
            queue: vec![],
            mempool: BTreeMap::new(),
            minter: [0; 20],
            first_nonce: 0,
            endow: n(0),
            fail_pm: 0,
            tx_seen: Default::default(),
            reorgs: 0,
            deepest: 0,
            fork: 0,
            native_gas: 21_000,
            helpers: vec![helper],
        };
        let mut ledgers = BTreeMap::new();
        ledgers.insert(native, Ledger::new(native, me, n(2000 * GWEI), 5));
        for i in 0..4 {
            let l = token(i).0;
            ledgers.insert(l, Ledger::new(l, me, n(10), 30 + 7 * i as u64));
        }
        W {
            chain,
            ledgers,
            native,
            me,
            lsm,
            now: 1_700_000_000 * SEC,
            rng: Rng::new(7),
            init,
            pend: VecDeque::new(),
            hook: None,
            replies: BTreeMap::new(),
            next_ctx: 1,
            seen: vec![],
            cycles: vec![],
            traps: vec![],
            fee_history: None,
            callee: Principal::anonymous(),
            tx: 1,
        }
    }
    fn clock(&self) {
        let (now, me) = (self.now, self.me);
        with(|h| {
            h.time = now;
            h.self_id = me.as_slice().to_vec();
            h.controllers = vec![user(99).as_slice().to_vec()];
            h.balance = 1_000_000_000_000_000_000;
            h.replicated = true;
        })
    }
    /// Installs the canister and lets its first timers run.
    pub fn install(&mut self) {
        self.clock();
        let a = candid::encode_args((MinterArg::InitArg(self.init.clone()),)).unwrap();
        let r = message("canister_init", "", 0, &user(99), a);
        assert!(r.trap.is_none(), "installation: {:?}", r.trap);
        self.tick(0);
    }
    /// Upgrades at a quiet moment; the rest of the demonstration runs on the new instance.
    pub fn upgrade(self, arg: Option<UpgradeArg>, rest: impl FnOnce(W) + Send + 'static) {
        self.upgrade_quietly(arg, move |mut w| {
            w.tick(0);
            rest(w)
        })
    }
    /// The same; no timer has run yet.
    pub fn upgrade_quietly(mut self, arg: Option<UpgradeArg>, rest: impl FnOnce(W) + Send + 'static) {
        assert!(self.pend.is_empty());
        self.hook = None;
        self.clock();
        let r = message("canister_pre_upgrade", "", 0, &user(99), vec![]);
        assert!(r.trap.is_none(), "pre_upgrade: {:?}", r.trap);
        let mut host = with(std::mem::take);
        host.global_timer = 0;
        let a = candid::encode_args((arg.map(MinterArg::UpgradeArg),)).unwrap();
        let s = self;
        let ok = std::thread::spawn(move || {
            with(|h| *h = host);
            let r = message("canister_post_upgrade", "", 0, &user(99), a);
            assert!(r.trap.is_none(), "post_upgrade: {:?}", r.trap);
            rest(s)
        })
        .join();
        if let Err(e) = ok {
            std::panic::resume_unwind(e)
        }
    }
    /// Starts an update call.
    pub fn start<A: ArgumentEncoder>(&mut self, who: Principal, name: &str, a: A) -> u64 {
        self.start_raw(who, name, candid::encode_args(a).unwrap())
    }
    pub fn start_raw(&mut self, who: Principal, name: &str, a: Vec<u8>) -> u64 {
        let ctx = self.next_ctx;
        self.next_ctx += 1;
        self.clock();
        let r = message("canister_update", name, ctx, &who, a);
        self.after(ctx, r);
        ctx
    }
    /// Runs `f` as a message of the canister; its calls are served as usual.
    #[allow(dead_code)]
    pub fn in_message(&mut self, f: impl FnOnce()) -> Option<String> {
        let ctx = self.next_ctx;
        self.next_ctx += 1;
        self.clock();
        setup(ctx, &self.me, "", vec![]);
        let r = run(f);
        let t = r.trap.clone();
        self.after(ctx, r);
        t
    }
    fn after(&mut self, ctx: u64, r: Run) {
        if let Some(t) = r.trap {
            self.traps.push(t.clone());
            ic_host::undo_stable();
            self.replies.insert(ctx, Response::Reject(5, t));
            return;
        }
        if let Some(x) = r.resp {
            self.replies.insert(ctx, x);
        }
        self.pend.extend(r.out);
    }
    pub fn answer<R: for<'a> Deserialize<'a> + CandidType>(&self, ctx: u64) -> Result<R, String> {
        match self.replies.get(&ctx) {
            Some(Response::Reply(b)) => Ok(candid::decode_args::<(R,)>(b).unwrap().0),
            Some(Response::Reject(_, m)) => Err(m.clone()),
            None => Err("no answer".into()),
        }
    }
    /// An update call to its end.
    pub fn call<A: ArgumentEncoder, R: for<'a> Deserialize<'a> + CandidType>(&mut self, who: Principal, name: &str, a: A) -> Result<R, String> {
        let c = self.start(who, name, a);
        self.settle();
        self.answer(c)
    }
    /// Serves and delivers one call; false if there is none.
    pub fn one(&mut self) -> bool {
        let Some(c) = self.pend.pop_front() else { return false };
        let (req, svc) = decode(&c);
        self.seen.push(req.clone());
        self.cycles.push(c.cycles);
        self.callee = Principal::from_slice(&c.callee);
        let mut ans = Ans::Honest;
        if let Some(mut h) = self.hook.take() {
            ans = h(self, c.ctx, &req);
            self.hook.get_or_insert(h);
        }
        let (resp, trap) = match ans {
            Ans::With(r) => (r, false),
            Ans::Honest => (self.serve(&c, &req, svc), false),
            Ans::ThenTrap => (self.serve(&c, &req, svc), true),
        };
        self.clock();
        setup(c.ctx, &self.me, "", vec![]);
        with(|h| match &resp {
            Response::Reply(b) => h.arg = b.clone(),
            Response::Reject(k, m) => {
                h.reject_code = *k;
                h.reject_msg = m.clone();
            }
        });
        let f = if trap { c.cleanup_fun } else { c.reply_fun };
        // SAFETY: the call was made on this thread and is answered once.
        let r = run(|| unsafe { ic_host::invoke(f, c.env) });
        if trap {
            self.replies.insert(c.ctx, Response::Reject(5, "trap".into()));
        }
        self.after(c.ctx, r);
        true
    }
    pub fn settle(&mut self) {
        let mut k = 0;
        while self.one() {
            k += 1;
            assert!(k < 100_000, "calls without end");
        }
    }
    pub fn fire(&mut self) -> bool {
        let t = with(|h| h.global_timer);
        if t == 0 || t > self.now {
            return false;
        }
        with(|h| h.global_timer = 0);
        let ctx = self.next_ctx;
        self.next_ctx += 1;
        self.clock();
        setup(ctx, &self.me, "", vec![]);
        let r = run(ic_cdk_timers::global_timer);
        self.after(ctx, r);
        true
    }
    /// Lets time pass (in steps of at most ten seconds) and the timers run.
    pub fn tick(&mut self, secs: u64) {
        let end = self.now + secs * SEC;
        loop {
            while self.fire() {
                self.settle();
            }
            if self.now >= end {
                return;
            }
            self.now = (self.now + 10 * SEC).min(end);
        }
    }
    /// Runs what is due now; the calls made, with whom they were made to.
    #[allow(dead_code)]
    pub fn tick_seen(&mut self) -> Vec<(Principal, Req)> {
        let mut v = vec![];
        while self.fire() {
            while let Some(c) = self.pend.front() {
                v.push((Principal::from_slice(&c.callee), decode(c).0));
                self.one();
            }
        }
        v
    }
    pub fn mine(&mut self, k: u64) {
        self.chain.mine(k, &mut self.rng);
    }
    /// Mines everything to finality and gives all timers time.
    pub fn round(&mut self) {
        self.mine(70);
        self.tick(660);
    }
    pub fn deposit_log(&mut self, token: Addr, value: u64, to: Principal, sub: H32) -> Log {
        self.tx += 1;
        let mut data = word_of_addr(&[0x31; 20]).to_vec();
        data.extend(sub);
        Log {
            addr: self.chain.helpers[0],
            topics: vec![deposit_topic(), word_of_addr(&token), word_of(&n(value)), principal_word(to.as_slice())],
            data,
            tx: keccak(&self.tx.to_be_bytes()),
            tx_index: 0,
            log_index: 0,
            removed: false,
            absent: 0,
        }
    }
    /// Emits a deposit; it is mined in one of the next blocks.
    pub fn deposit(&mut self, token: Addr, value: u64, to: Principal) {
        let l = self.deposit_log(token, value, to, [0; 32]);
        self.chain.queue.push(l);
    }
    pub fn add_token(&mut self, i: u8) {
        let (ledger, a, sym) = token(i);
        let arg = AddErc20Token { chain_id: Nat::from(1u8), address: h0x(&a), erc20_token_symbol: sym, erc20_ledger_id: ledger };
        let c = self.start(self.lsm, "add_erc20_token", (arg,));
        self.settle();
        assert!(matches!(self.replies.get(&c), Some(Response::Reply(_))), "token {i} is not accepted: {:?}", self.replies.get(&c));
    }
    /// The user approves the minter for everything.
    pub fn approve(&mut self, ledger: Principal, who: Principal) {
        let me = self.me;
        self.ledgers.get_mut(&ledger).unwrap().approve(acct(who), acct(me), n(1) << 200u32);
    }
    pub fn balance(&self, ledger: Principal, who: Principal) -> N {
        self.ledgers[&ledger].balance(&acct(who))
    }
    pub fn mints(&self, ledger: Principal) -> Vec<(Account, N)> {
        self.ledgers[&ledger]
            .blocks
            .iter()
            .filter_map(|b| match &b.kind {
                BlockKind::Mint { to } => Some((*to, b.amount.clone())),
                _ => None,
            })
            .collect()
    }
    fn key(&self, name: &str) -> k256::ecdsa::SigningKey {
        k256::ecdsa::SigningKey::from_slice(&keccak(format!("key {name}").as_bytes())).unwrap()
    }
    fn serve(&mut self, c: &OutCall, req: &Req, svc: Option<t::RpcServices>) -> Response {
        let callee = Principal::from_slice(&c.callee);
        let k = svc.as_ref().map(|s| services(s).1.len()).unwrap_or(0);
        fn same<T: CandidType + Clone + PartialEq>(_k: usize, v: Result<T, t::RpcError>) -> Response {
            reply(t::MultiRpcResult::Consistent(v))
        }
        match req {
            Req::Transfer(a) => match self.ledgers.get_mut(&callee) {
                Some(l) => reply(l.transfer(self.me, a, c.ctx).map(Nat::from)),
                None => Response::Reject(3, "no such canister".into()),
            },
            Req::TransferFrom(a) => match self.ledgers.get_mut(&callee) {
                Some(l) => reply(l.transfer_from(self.me, a, c.ctx).map(Nat::from)),
                None => Response::Reject(3, "no such canister".into()),
            },
            Req::Pubkey => {
                let (a,): (KeyArg,) = candid::decode_args(&c.arg).unwrap();
                let key = self.key(&a.key_id.name);
                self.chain.minter = addr_of_key(key.verifying_key());
                reply(PubkeyReply {
                    public_key: key.verifying_key().to_encoded_point(true).as_bytes().to_vec().into(),
                    chain_code: vec![1u8; 32].into(),
                })
            }
            Req::Sign => {
                use k256::ecdsa::signature::hazmat::PrehashSigner;
                let (a,): (SignArg,) = candid::decode_args(&c.arg).unwrap();
                let s: k256::ecdsa::Signature = self.key(&a.key_id.name).sign_prehash(&a.message_hash).unwrap();
                reply(SigReply { signature: s.normalize_s().unwrap_or(s).to_bytes().to_vec().into() })
            }
            Req::Lsm => reply(Ok::<(), ()>(())),
            Req::Timer => {
                let ctx = self.next_ctx;
                self.next_ctx += 1;
                self.clock();
                setup(ctx, &self.me, "<ic-cdk internal> timer_executor", c.arg.clone());
                let r = run(ic_cdk_timers::timer_executor);
                self.after(ctx, r);
                self.replies.remove(&ctx).unwrap_or(Response::Reject(5, "no answer".into()))
            }
            Req::Block(tag) => {
                let nr = match tag {
                    t::BlockTag::Safe => self.chain.safe(),
                    t::BlockTag::Finalized => self.chain.finalized(),
                    t::BlockTag::Number(x) => u64_of(x).unwrap_or(0),
                    _ => self.chain.head,
                };
                same(k, Ok(block_of(&self.chain, nr)))
            }
            Req::FeeHist(_) => {
                let (base, rew) = match &self.fee_history {
                    Some((b, r)) => (b.iter().map(|x| n(*x)).collect(), r.iter().map(|x| n(*x)).collect()),
                    None => (self.chain.fees.clone(), self.chain.rewards.clone()),
                };
                same(
                    k,
                    Ok(Some(t::FeeHistory {
                        oldest_block: t::Nat256::from(self.chain.head - 5),
                        base_fee_per_gas: base.iter().map(n256).collect(),
                        gas_used_ratio: vec![],
                        reward: rew.iter().map(|r| vec![n256(r)]).collect(),
                    })),
                )
            }
            Req::Logs(a) => {
                let (f, to) = (tag_number(&a.from_block).unwrap_or(0), tag_number(&a.to_block).unwrap_or(0));
                let v: Vec<t::LogEntry> =
                    self.chain.logs(f, to).filter(|(_, l)| matches_filter(a, l)).map(|(b, l)| log_entry(&self.chain, b, l)).collect();
                same(k, Ok(v))
            }
            Req::Receipt(h) => same(k, Ok(receipt_of(&self.chain, &parse_h32(h).unwrap(), self.chain.head))),
            Req::Count(a) => {
                let v = match a.block {
                    t::BlockTag::Latest | t::BlockTag::Pending => self.chain.latest_count(),
                    _ => self.chain.finalized_count(),
                };
                same(k, Ok(t::Nat256::from(v)))
            }
            Req::SendRaw(raw) => {
                use t::SendRawTransactionStatus as S;
                let tx = decode_raw_tx(&hex::decode(raw.trim_start_matches("0x")).unwrap()).expect("raw transaction");
                let h = tx.hash;
                same(
                    k,
                    match self.chain.submit(tx) {
                        Ok(()) => Ok(S::Ok(Some(t::Hex32::from(h)))),
                        Err("nonce too low") => Ok(S::NonceTooLow),
                        Err("nonce too high") => Ok(S::NonceTooHigh),
                        Err("insufficient funds") => Ok(S::InsufficientFunds),
                        Err(e) => Err(t::RpcError::JsonRpcError(t::JsonRpcError { code: -32000, message: e.into() })),
                    },
                )
            }
            Req::Status => reply(crate::rpc::any_status(&mut self.rng)),
            Req::Bad(_) => Response::Reject(3, "no such method".into()),
        }
    }
}
