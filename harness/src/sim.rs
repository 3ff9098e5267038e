//! One scenario: the world, the scheduler and the faults.
use crate::calls::*;
use crate::canister::*;
use crate::chain::*;
use crate::ledger::Ledger;
use crate::model::*;
use crate::rpc::*;
use crate::util::*;
use candid::{CandidType, Nat, Principal};
use crate::wire as ep;
use crate::wire::CandidBlockTag;
use crate::wire::EvmNetwork;
use crate::wire::{InitArg, MinterArg};
use evm_rpc_types as t;
use evm_rpc_types::{ProviderError, RpcError, RpcServices};
use ic_host::{with, OutCall, Response};
use icrc_ledger_types::icrc1::account::Account;
use icrc_ledger_types::icrc1::transfer::TransferError;
use icrc_ledger_types::icrc2::transfer_from::TransferFromError;
use serde::Deserialize;
use std::collections::BTreeMap;

pub const MAX_CONCURRENT: usize = 100;

/// Rates are per mille.
#[derive(Clone, Debug, Default)]
pub struct Profile {
    pub name: &'static str,
    pub steps: u64,
    pub users: u64,
    pub tokens: u64,
    pub err: u64,
    pub dev: u64,
    pub rej: u64,
    pub few: u64,
    pub trap: u64,
    pub perf: u64,
    pub led: u64,
    pub sig: u64,
    pub hostile: u64,
    pub up: u64,
    pub gas: u64,
    pub reorg: u64,
    pub fail: u64,
    pub evict: u64,
    pub limit: u64,
    pub crowd: bool,
    pub far: bool,
}

pub const PROFILES: [&str; 13] =
    ["calm", "rpc", "ledger", "trap", "hostile", "gas", "chain", "upgrade", "crowd", "cycles", "far", "sign", "storm"];

pub fn profile(name: &'static str, rng: &mut Rng) -> Profile {
    let mut p = Profile { name, steps: rng.range(500, 900), users: rng.range(2, 6), tokens: rng.range(0, 3), limit: 1_000_000, ..Default::default() };
    match name {
        "calm" => {
            p.gas = 20;
            p.up = 2;
            p.fail = 100;
        }
        "rpc" => {
            p.err = 120;
            p.dev = 150;
            p.rej = 60;
            p.limit = rng.range(1, 6);
            p.fail = 100;
        }
        "ledger" => {
            p.led = 180;
            p.rej = 60;
            p.fail = 300;
        }
        "trap" => {
            p.trap = 45;
            p.perf = 30;
            p.fail = 250;
            p.up = 2;
        }
        "hostile" => {
            p.hostile = 450;
            p.dev = 60;
            p.limit = rng.range(3, 12);
        }
        "gas" => {
            p.gas = 300;
            p.evict = 20;
            p.fail = 100;
        }
        "chain" => {
            p.reorg = 120;
            p.fail = 400;
            p.evict = 60;
            p.gas = 60;
            p.dev = 40;
        }
        "upgrade" => {
            p.up = 12;
            p.fail = 250;
            p.led = 60;
            p.gas = 60;
            p.trap = 10;
        }
        "crowd" => {
            p.crowd = true;
            p.users = rng.range(115, 130);
            p.tokens = 1;
            p.steps = rng.range(900, 1300);
            p.fail = 50;
        }
        "cycles" => {
            p.few = 400;
            p.err = 40;
            p.perf = 30;
            p.rej = 40;
        }
        "far" => {
            p.far = true;
            p.limit = rng.range(2, 9);
            p.err = 60;
            p.up = 3;
            p.hostile = 60;
        }
        "sign" => {
            p.sig = 120;
            p.err = 40;
            p.gas = 120;
            p.evict = 40;
            p.fail = 150;
            p.up = 2;
        }
        _ => {
            p.err = 60;
            p.dev = 50;
            p.rej = 30;
            p.few = 40;
            p.trap = 12;
            p.perf = 10;
            p.led = 60;
            p.sig = 30;
            p.hostile = 80;
            p.up = 4;
            p.gas = 80;
            p.reorg = 40;
            p.fail = 200;
            p.evict = 20;
            p.limit = rng.range(2, 40);
        }
    }
    p
}

pub struct Pend {
    pub ctx: u64,
    pub callee: Principal,
    pub call: OutCall,
    pub req: Req,
    pub svc: Option<RpcServices>,
    pub resp: Option<Response>,
    pub info: Info,
    pub retries: u32,
    /// Refused for too few cycles whatever is attached.
    pub stubborn: bool,
    pub served: Vec<(u64, Log)>,
    /// Callbacks of calls under way when a trap killed their context do nothing.
    pub faulty: bool,
}

pub struct Sim {
    pub seed: u64,
    pub w: World,
    pub m: Model,
    pub rng: Rng,
    pub p: Profile,
    pub queue: Vec<Pend>,
    pub ready: Vec<Pend>,
    pub next_ctx: u64,
    pub msgno: u64,
    pub users: Vec<Principal>,
    /// Tokens that can be registered: (ledger, contract, symbol).
    pub plan: Vec<(Principal, Addr, String)>,
    pub keys: u64,
    pub trap_at: BTreeMap<u64, String>,
    pub restart: Option<(u64, String)>,
    pub faults: bool,
    /// Scraping position when the current helper contract was configured.
    pub helper_since: u64,
    pub deposits: u64,
    pub finished: bool,
    pub dest_pool: Vec<Addr>,
    pub states_seen: std::collections::BTreeSet<u64>,
    pub first: InitArg,
    pub upgrades_left: u64,
    pub quiet_withdraws: u64,
}

pub fn make(seed: u64, name: &'static str) -> Sim {
    let mut rng = Rng::new(seed);
    let p = profile(name, &mut rng);
    let nets = [
        (EvmNetwork::Ethereum, 1u64),
        (EvmNetwork::Sepolia, 11155111),
        (EvmNetwork::ArbitrumOne, 42161),
        (EvmNetwork::BSC, 56),
        (EvmNetwork::BSCTestnet, 97),
        (EvmNetwork::Polygon, 137),
        (EvmNetwork::Optimism, 10),
        (EvmNetwork::Base, 8453),
        (EvmNetwork::Avalanche, 43114),
        (EvmNetwork::Fantom, 250),
    ];
    let (net, chain_id) = rng.pick(&nets).clone();
    let depth = depth_of(chain_id);
    let fdepth = if depth > 0 { rng.range(1, depth) } else { rng.range(2, 40) };
    let tag = if depth > 0 {
        CandidBlockTag::Latest
    } else if rng.pm(300) {
        CandidBlockTag::Safe
    } else {
        CandidBlockTag::Finalized
    };
    let minter_id = Principal::from_slice(&[0, 0, 0, 0, 1, 1, seed as u8, 1, 1]);
    let native = Principal::from_slice(&[0, 0, 0, 0, 2, 0, 0, 1, 1]);
    let lf = n(*rng.pick(&[1_000_000_000_000u64, 10_000_000_000_000, 2_000_000_000]));
    let min_w = n(rng.range(10, 30)) * n(1_000_000_000_000_000);
    let fee = |rng: &mut Rng, lf: &N, min_w: &N| -> N {
        match rng.below(8) {
            0..=2 => n(0),
            3 => lf.clone(),
            4 => lf * 2u8,
            5 => lf * 2u8 + 1u8,
            6 => lf * 3u8 / 2u8,
            _ => min_w / 20u8 + n(rng.below(1000)),
        }
    };
    let wd_fee = if rng.pm(60) { &min_w + n(rng.below(5)) } else { fee(&mut rng, &lf, &min_w) };
    let dep_fee = match rng.below(4) {
        0 | 1 => n(0),
        2 => n(rng.range(1, 1_000_000)),
        _ => n(rng.range(1, 9)) * n(1_000_000_000_000_000),
    };
    let start = if p.far { rng.range(10_000, 20_000_000) } else { rng.range(100, 20_000_000) };
    let lag = if p.far { rng.range(900, 5200) } else { *rng.pick(&[0u64, 1, 5, 37, 400, 999, 1000, 1001]) };
    let scraped = start.saturating_sub(lag + fdepth.max(depth)).max(3);
    let helper: Addr = rng.bytes();
    let first_nonce = *rng.pick(&[0u64, 0, 1, 7, 127, 128, 255, 256, 70_000]);
    let conf = Conf {
        net,
        chain_id,
        symbol: "icNAT".into(),
        native,
        index: Principal::from_slice(&[0, 0, 0, 0, 2, 0, 0, 2, 1]),
        helper: Some(helper),
        min_w: min_w.clone(),
        lf: lf.clone(),
        dep_fee,
        wd_fee,
        tag: tag.clone(),
        min_prio: n(*rng.pick(&[0u64, 1, 100_000_000, 1_500_000_000])),
        lsm: Principal::from_slice(&[0, 0, 0, 0, 3, 0, 0, 1, 1]),
        evm: Principal::from_text("sosge-5iaaa-aaaag-alcla-cai").unwrap(),
        key_name: rng.pick(&["key_1", "test_key_1", "dfx_test_key"]).to_string(),
    };
    let first = InitArg {
        evm_network: net,
        ecdsa_key_name: conf.key_name.clone(),
        helper_contract_address: Some(if rng.pm(500) { eip55(&helper) } else { h0x(&helper) }),
        native_ledger_id: native,
        native_index_id: conf.index,
        native_symbol: conf.symbol.clone(),
        block_height: tag,
        native_minimum_withdrawal_amount: nat(&min_w),
        native_ledger_transfer_fee: nat(&lf),
        next_transaction_nonce: Nat::from(first_nonce),
        last_scraped_block_number: Nat::from(scraped),
        min_max_priority_fee_per_gas: nat(&conf.min_prio),
        ledger_suite_manager_id: conf.lsm,
        deposit_native_fee: nat(&conf.dep_fee),
        withdrawal_native_fee: nat(&conf.wd_fee),
    };
    let chain = Chain {
        chain_id,
        head: start,
        fdepth,
        sdepth: fdepth,
        blocks: BTreeMap::new(),
        fees: vec![n(rng.range(2, 60)) * n(1_000_000_000); 4],
        rewards: vec![n(rng.range(0, 30)) * n(100_000_000); 4],
        min_tip: n(0),
        queue: vec![],
        mempool: BTreeMap::new(),
        minter: [0; 20],
        first_nonce,
        endow: n(0),
        fail_pm: p.fail,
        tx_seen: Default::default(),
        reorgs: 0,
        deepest: 0,
        fork: 0,
        native_gas: *rng.pick(&[21_000u64, 20_500]),
        helpers: vec![helper],
    };
    let mut ledgers = BTreeMap::new();
    ledgers.insert(native, Ledger::new(native, minter_id, lf.clone(), height(&mut rng, 50)));
    let mut plan: Vec<(Principal, Addr, String)> = vec![];
    for i in 0..6u8 {
        let l = Principal::from_slice(&[0, 0, 0, 0, 4, 0, 0, i, 1]);
        ledgers.insert(l, Ledger::new(l, minter_id, n(*rng.pick(&[0u64, 10, 1000])), height(&mut rng, 90)));
        // contracts at any address, at one next to another's, and at one next to the native token's
        let a: Addr = match (rng.below(8), plan.last()) {
            (0..=3, Some((_, b, _))) => twin(&mut rng, b),
            (4, _) => twin(&mut rng, &[0; 20]),
            _ => rng.bytes(),
        };
        let a = if a == [0; 20] || plan.iter().any(|(_, b, _)| *b == a) { rng.bytes() } else { a };
        plan.push((l, a, format!("icTK{i}")));
    }
    let users: Vec<Principal> = (0..p.users)
        .map(|i| {
            let len = *rng.pick(&[29usize, 29, 10, 8, 1, 5]);
            let mut b = rng.vec(len);
            b[0] = i as u8;
            if len == 29 {
                b[28] = 2;
            } else if len > 1 {
                b[len - 1] = 1;
            } else {
                b[0] = 100 + (i % 100) as u8;
            }
            Principal::from_slice(&b)
        })
        .collect();
    let mut uniq = users.clone();
    if p.users < 20 && rng.pm(500) {
        // a principal that differs from another in one byte
        let mut b = rng.pick(&users).as_slice().to_vec();
        if b.len() > 5 {
            let k = rng.below(b.len() as u64 - 2) as usize;
            b[k] ^= 1 << rng.below(8);
            uniq.push(Principal::from_slice(&b));
        }
    }
    uniq.sort();
    uniq.dedup();
    let now = 1_700_000_000 * SEC + rng.below(1_000_000) * 1000;
    let mut m = Model::new(conf, first_nonce, scraped);
    m.life_start = now;
    let mut dest_pool: Vec<Addr> = (0..3).map(|_| rng.bytes()).collect();
    dest_pool.push(twin(&mut rng, &dest_pool[0].clone()));
    let upgrades_left = 3;
    Sim {
        seed,
        w: World { chain, ledgers, native, minter_id, now },
        m,
        rng,
        p,
        queue: vec![],
        ready: vec![],
        next_ctx: 1,
        msgno: 0,
        users: uniq,
        plan,
        keys: seed,
        trap_at: Default::default(),
        restart: None,
        faults: true,
        helper_since: scraped,
        deposits: 0,
        finished: false,
        dest_pool,
        states_seen: Default::default(),
        first,
        upgrades_left,
        quiet_withdraws: 0,
    }
}

#[derive(CandidType, Deserialize)]
struct KeyId {
    curve: Curve,
    name: String,
}
#[derive(CandidType, Deserialize)]
enum Curve {
    #[serde(rename = "secp256k1")]
    Secp256k1,
}
#[derive(CandidType, Deserialize)]
struct KeyArg {
    derivation_path: Vec<serde_bytes::ByteBuf>,
    key_id: KeyId,
}
#[derive(CandidType, Deserialize)]
struct PubkeyReply {
    public_key: serde_bytes::ByteBuf,
    chain_code: serde_bytes::ByteBuf,
}
#[derive(CandidType, Deserialize)]
struct SigReply {
    signature: serde_bytes::ByteBuf,
}
#[derive(CandidType, Deserialize, Clone)]
enum LsmErr {
    WasmHashError,
    TokenAlreadyManaged,
    AlreadyManagedPrincipals,
}

impl Sim {
    pub fn now_set(&self) {
        let (now, id) = (self.w.now, self.w.minter_id);
        with(|h| {
            h.time = now;
            h.self_id = id.as_slice().to_vec();
            h.controllers = vec![crate::drive::owner().as_slice().to_vec()];
            h.balance = 1_000_000_000_000_000_000;
            h.replicated = true;
            h.fail_perform = None;
        })
    }
    pub fn new_ctx(&mut self, caller: Principal, kind: CtxKind) -> u64 {
        let id = self.next_ctx;
        self.next_ctx += 1;
        let withdraw = matches!(kind, CtxKind::WithdrawNative { .. } | CtxKind::WithdrawErc20 { .. });
        let live: Vec<&Ctx> =
            self.m.ctxs.values().filter(|c| matches!(c.kind, CtxKind::WithdrawNative { .. } | CtxKind::WithdrawErc20 { .. })).collect();
        let waiting = self.m.wds.values().filter(|w| w.txs.is_empty()).count();
        let must_refuse = if !withdraw {
            None
        } else if caller == Principal::anonymous() {
            Some("anonymous")
        } else if live.iter().any(|c| c.caller == caller) {
            Some("same principal")
        } else if live.len() >= MAX_CONCURRENT {
            Some("too many principals")
        } else if waiting >= MAX_CONCURRENT {
            Some("too many requests")
        } else {
            None
        };
        let c = Ctx {
            id,
            caller,
            kind,
            start: self.w.now,
            outstanding: 0,
            calls: 0,
            replied: false,
            task: None,
            trapped: false,
            real_trap: None,
            refund_fault: false,
            perform_fault: false,
            tokens_at_start: self.m.tokens.len(),
            accepted: None,
            failed: None,
            events: 0,
            must_refuse,
        };
        self.m.ctxs.insert(id, c);
        id
    }

    /// An entry message (update call of a user, timer). Returns the response if there is one already.
    pub fn enter(&mut self, caller: Principal, kind: CtxKind, method: &str, arg: Vec<u8>) -> (u64, Option<Response>) {
        self.msgno += 1;
        let ctx = self.new_ctx(caller, kind.clone());
        self.m.mon.note(|| format!("enter {method} ctx {ctx} {kind:?} by {caller}"));
        self.now_set();
        let saved = crate::wb::save();
        let r = match kind {
            CtxKind::GlobalTimer => {
                setup(ctx, &self.w.minter_id, "", vec![]);
                run(ic_cdk_timers::global_timer)
            }
            CtxKind::Timer => {
                setup(ctx, &self.w.minter_id, method, arg);
                run(ic_cdk_timers::timer_executor)
            }
            _ => message("canister_update", method, ctx, &caller, arg),
        };
        let mut r = r;
        let msg = Msg { ctx, ..Default::default() };
        if let Some(text) = r.trap.take() {
            self.m.mon.stat("entry traps");
            self.m.mon.note(|| format!("entry trap: {text}"));
            ic_host::undo_stable();
            crate::wb::restore(saved);
            let c = self.m.ctxs.get_mut(&ctx).unwrap();
            c.real_trap = Some(text.clone());
            r.out.clear();
            r.wrote = false;
            r.resp = Some(Response::Reject(5, text));
        }
        self.after(msg, r, None, true)
    }

    /// Everything that has to be looked at after a message of the minter was executed.
    fn after(&mut self, msg: Msg, r: Run, pend: Option<Pend>, entry: bool) -> (u64, Option<Response>) {
        let ctx = msg.ctx;
        self.m.mon.stat("messages");
        let already = self.m.ctxs.get(&ctx).map(|c| c.trapped).unwrap_or(false);
        let mut batch = None;
        if let Some(p) = &pend {
            if !already && !msg.trapped {
                self.transition(p, &msg);
                if let (Some((_, _, LogsOutcome::Accept)), Req::Logs(_)) = (&msg.logs, &p.req) {
                    batch = Some(p.served.clone());
                }
            }
        }
        if msg.trapped {
            if let Some(c) = self.m.ctxs.get_mut(&ctx) {
                c.trapped = true;
                c.real_trap = msg.real.clone().or(c.real_trap.take());
            }
        }
        if r.failed_performs > 0 {
            self.m.mon.statn("failed sends", r.failed_performs);
            if let Some(c) = self.m.ctxs.get_mut(&ctx) {
                c.perform_fault = true;
            }
        }
        self.m.msg_events.clear();
        if r.wrote {
            self.poll(&msg);
        }
        if let Some(b) = batch {
            self.m.check_batch(&b);
        }
        // calls
        let few = match &pend {
            Some(p) if !already && !msg.trapped => match p.info {
                Info::Few(x) => Some((p.call.clone(), p.retries, x, p.stubborn)),
                _ => None,
            },
            _ => None,
        };
        if let Some((c, k, x, _)) = &few {
            if r.failed_performs == 0 {
                self.m.on_few(c, *k, *x, &r.out);
            }
        }
        for c in r.out {
            let (req, svc) = decode(&c);
            let again = matches!(&few, Some((p, _, _, _)) if p.method == c.method && p.arg == c.arg);
            let fee_out = self.queue.iter().chain(&self.ready).filter(|p| matches!(p.req, Req::FeeHist(_))).count();
            self.m.mon.note(|| format!("call {} ctx {} {}", req.name(), c.ctx, brief(&req)));
            self.m.on_call(&self.w, &c, &req, &svc, fee_out, again);
            if let Some(x) = self.m.ctxs.get_mut(&ctx) {
                x.outstanding += 1;
                x.calls += 1;
            }
            let (retries, stubborn) = match (&few, again) {
                (Some((_, k, _, s)), true) => (k + 1, *s),
                _ => (0, false),
            };
            self.queue.push(Pend {
                ctx,
                callee: Principal::from_slice(&c.callee),
                call: c,
                req,
                svc,
                resp: None,
                info: Info::None,
                retries,
                stubborn,
                served: vec![],
                faulty: false,
            });
        }
        // answer
        let mut resp = r.resp;
        let mut done = None;
        let live = self.m.ctxs.get(&ctx).cloned();
        if let Some(c) = live {
            if resp.is_none() && c.outstanding == 0 && !c.replied {
                if c.trapped || c.kind == CtxKind::GlobalTimer {
                    resp = Some(Response::Reject(5, c.real_trap.clone().unwrap_or("trapped".into())));
                } else {
                    self.m.mon.ck(false, &["C13"], "every call is answered", || format!("{c:?}"));
                    resp = Some(Response::Reject(5, "no answer".into()));
                }
            }
            if let Some(rs) = &resp {
                self.m.ctxs.get_mut(&ctx).unwrap().replied = true;
                self.on_reply(ctx, rs, entry);
                done = Some(rs.clone());
            }
            if c.outstanding == 0 {
                self.m.ctxs.remove(&ctx);
            }
        }
        self.m.check_info(&self.w);
        if self.rng.pm(if entry { 25 } else { 40 }) {
            self.state_checks();
        }
        (ctx, done)
    }

    fn transition(&mut self, p: &Pend, _msg: &Msg) {
        let now = self.w.now;
        match (&p.req, &p.info) {
            (Req::Block(_), Info::Block(Some(b))) => {
                let d = depth_of(self.m.conf.chain_id);
                self.m.observed = b.checked_sub(d);
                if let Some(o) = self.m.observed {
                    self.m.served_max = Some(self.m.served_max.unwrap_or(0).max(o));
                }
            }
            (Req::FeeHist(_), Info::Fee(Some((base, prio)))) => {
                if let Some(e) = self.m.est.last_mut() {
                    e.until = e.until.min(now);
                }
                self.m.est.push(Est { base: base.clone(), prio: prio.clone(), ts: now, until: u64::MAX });
            }
            (Req::Logs(a), Info::Logs(o)) => {
                let (Some(f), Some(to)) = (tag_number(&a.from_block), tag_number(&a.to_block)) else { return };
                match o {
                    LogsOutcome::Accept => self.m.scraped = to,
                    LogsOutcome::TooLarge if f == to => self.m.scraped = to,
                    _ => {}
                }
            }
            _ => {}
        }
    }

    /// Reads new events through the public endpoint.
    pub fn poll(&mut self, msg: &Msg) {
        loop {
            let have = self.m.events.len() as u64;
            let r = query::<_, (ep::events::GetEventsResult,)>("get_events", (ep::events::GetEventsArg { start: have, length: 100 },));
            match r {
                Ok((r,)) => {
                    let total = r.total_event_count;
                    let got = r.events.len() as u64;
                    let want = 100.min(total.saturating_sub(have));
                    self.m.mon.ck(got == want && total >= have, &["C24"], "event page", || format!("start {have}: {got} events of {total}"));
                    for e in r.events {
                        let i = self.m.events.len();
                        self.m.on_event(&self.w, i, &e, msg);
                    }
                    if got == 0 || self.m.events.len() as u64 >= total {
                        break;
                    }
                }
                Err(e) => {
                    self.m.mon.ck(false, &["C24"], "event page", || e);
                    break;
                }
            }
        }
    }

    fn on_reply(&mut self, ctx: u64, r: &Response, entry: bool) {
        let Some(c) = self.m.ctxs.get(&ctx).cloned() else { return };
        self.m.mon.note(|| match r {
            Response::Reply(b) => format!("reply ctx {ctx}: {} bytes", b.len()),
            Response::Reject(a, m) => format!("reject ctx {ctx}: {a} {m}"),
        });
        match &c.kind {
            CtxKind::WithdrawNative { .. } | CtxKind::WithdrawErc20 { .. } => self.m.on_withdraw_reply(&self.w, &c, r, entry),
            CtxKind::AddToken { ok, .. } => {
                let good = matches!(r, Response::Reply(_));
                let why = if *ok { "valid" } else { "invalid or unauthorised" };
                self.m.mon.ck(good == *ok && (c.events == 1) == *ok && c.events <= 1, &["C16"], &format!("registration answered: {why}"), || {
                    format!("{c:?} answered {r:?} with {} events", c.events)
                });
            }
            CtxKind::Other("minter_address") => {
                if let Response::Reply(b) = r {
                    let got = candid::decode_args::<(String,)>(b).map(|x| x.0).unwrap_or_default();
                    let want = self.m.minter_addr.map(|a| eip55(&a)).unwrap_or_default();
                    self.m.mon.ck(got == want, &["C07", "C21", "C28"], "minter_address answers the signing address", || format!("{got}, signing key has {want}"));
                }
            }
            CtxKind::Other("check_new_deposits") => {
                let ok = matches!(r, Response::Reject(..)) && c.calls == 0;
                self.m.mon.ck(ok, &["C16"], "deposit check refused", || format!("{c:?} {r:?}"));
            }
            _ => {}
        }
    }

    // ---------------------------------------------------------------- outside world
    fn key_for(&self, arg: &[u8]) -> Option<k256::ecdsa::SigningKey> {
        let (a,): (KeyArg,) = candid::decode_args(arg).ok()?;
        let mut b = format!("key {} {}", self.keys, a.key_id.name).into_bytes();
        for p in &a.derivation_path {
            b.push(b'/');
            b.extend(p.iter());
        }
        k256::ecdsa::SigningKey::from_slice(&keccak(&b)).ok()
    }
    fn fault(&mut self, rate: u64) -> bool {
        self.faults && rate > 0 && self.rng.pm(rate)
    }
    fn rejection(&mut self) -> Response {
        let c = *self.rng.pick(&[1i32, 2, 2, 4, 5]);
        Response::Reject(c, "simulated rejection".into())
    }

    /// The callee executes the call.
    pub fn serve(&mut self, mut p: Pend) {
        self.m.mon.stat("served");
        let rpc = p.req.is_rpc();
        if rpc && p.req_ok() {
            self.serve_rpc(&mut p);
            self.ready.push(p);
            return;
        }
        let resp = match &p.req {
            Req::Transfer(a) => {
                let refund = a.from_subaccount.is_some();
                if self.fault(self.p.rej) {
                    self.mark_refund(p.ctx, refund);
                    self.rejection()
                } else if self.fault(self.p.led) {
                    self.mark_refund(p.ctx, refund);
                    let e = if self.rng.pm(500) {
                        TransferError::TemporarilyUnavailable
                    } else {
                        TransferError::GenericError { error_code: Nat::from(7u8), message: "simulated".into() }
                    };
                    reply(Err::<Nat, _>(e))
                } else {
                    match self.w.ledgers.get_mut(&p.callee) {
                        None => Response::Reject(3, "no such canister".into()),
                        Some(l) => {
                            let r = l.transfer(self.w.minter_id, a, p.ctx);
                            if let Ok(i) = r {
                                self.m.mon.note(|| format!("ledger {} block {i} {a:?}", p.callee));
                                self.m.on_transfer(&self.w, p.callee, i, p.ctx);
                            }
                            reply(r.map(Nat::from))
                        }
                    }
                }
            }
            Req::TransferFrom(a) => {
                let refund = a.from.owner == self.w.minter_id;
                if self.fault(self.p.rej) {
                    self.mark_refund(p.ctx, refund);
                    self.rejection()
                } else if self.fault(self.p.led) {
                    self.mark_refund(p.ctx, refund);
                    let e = if self.rng.pm(500) {
                        TransferFromError::TemporarilyUnavailable
                    } else {
                        TransferFromError::GenericError { error_code: Nat::from(7u8), message: "simulated".into() }
                    };
                    reply(Err::<Nat, _>(e))
                } else {
                    match self.w.ledgers.get_mut(&p.callee) {
                        None => Response::Reject(3, "no such canister".into()),
                        Some(l) => {
                            let r = l.transfer_from(self.w.minter_id, a, p.ctx);
                            if let Ok(i) = r {
                                self.m.mon.note(|| format!("ledger {} block {i} {a:?}", p.callee));
                                self.m.on_transfer(&self.w, p.callee, i, p.ctx);
                            }
                            reply(r.map(Nat::from))
                        }
                    }
                }
            }
            Req::Pubkey => {
                if self.fault(self.p.sig / 4) {
                    self.rejection()
                } else {
                    match self.key_for(&p.call.arg) {
                        None => Response::Reject(4, "bad argument".into()),
                        Some(k) => {
                            let a = addr_of_key(k.verifying_key());
                            let first = *self.m.minter_addr.get_or_insert(a);
                            self.m.mon.ck(first == a, &["C07"], "one key for ever", || format!("{a:?} after {first:?}"));
                            self.w.chain.minter = a;
                            reply(PubkeyReply {
                                public_key: k.verifying_key().to_encoded_point(true).as_bytes().to_vec().into(),
                                chain_code: vec![1u8; 32].into(),
                            })
                        }
                    }
                }
            }
            Req::Sign => {
                if self.fault(self.p.sig) {
                    self.rejection()
                } else {
                    match (self.key_for(&p.call.arg), sign_hash(&p.call.arg)) {
                        (Some(k), Some(h)) => {
                            let kind = self.rng.below(12);
                            let s = sign_with(&k, &h, kind);
                            reply(SigReply { signature: s.to_bytes().to_vec().into() })
                        }
                        _ => Response::Reject(4, "bad argument".into()),
                    }
                }
            }
            Req::Status => reply(crate::rpc::any_status(&mut self.rng)),
            Req::Lsm => match self.rng.below(10) {
                0 if self.p.rej > 0 => self.rejection(),
                1 => reply(Err::<(), _>(LsmErr::WasmHashError)),
                2 => reply(Err::<(), _>(LsmErr::TokenAlreadyManaged)),
                3 => reply(Err::<(), _>(LsmErr::AlreadyManagedPrincipals)),
                _ => reply(Ok::<(), LsmErr>(())),
            },
            Req::Timer => {
                let arg = p.call.arg.clone();
                let (_, r) = self.enter(self.w.minter_id, CtxKind::Timer, "<ic-cdk internal> timer_executor", arg);
                r.unwrap_or(Response::Reject(5, "timer did not answer".into()))
            }
            _ => Response::Reject(3, "unknown method".into()),
        };
        p.resp = Some(resp);
        self.ready.push(p);
    }
    fn mark_refund(&mut self, ctx: u64, refund: bool) {
        self.m.mon.stat("ledger faults");
        if refund {
            if let Some(c) = self.m.ctxs.get_mut(&ctx) {
                c.refund_fault = true;
            }
        }
    }

    fn serve_rpc(&mut self, p: &mut Pend) {
        let (_, apis) = services(p.svc.as_ref().unwrap());
        if self.fault(self.p.rej) {
            self.m.mon.stat("rpc rejects");
            p.resp = Some(self.rejection());
            p.info = match &p.req {
                Req::Block(_) => Info::Block(None),
                Req::FeeHist(_) => Info::Fee(None),
                Req::Logs(_) => Info::Logs(LogsOutcome::Error),
                _ => Info::None,
            };
            return;
        }
        if p.stubborn || self.fault(self.p.few) {
            if p.retries == 0 && self.rng.pm(40) {
                p.stubborn = true;
            }
            self.m.mon.stat("rpc too few cycles");
            let recv = p.call.cycles;
            let expected = match self.rng.below(3) {
                0 => recv + 1,
                1 => recv * 2 + self.rng.below(1000) as u128,
                _ => recv * 5 + 17,
            }
            .min(1u128 << 57);
            p.info = Info::Few(expected);
            let e = |x: u128| RpcError::ProviderError(ProviderError::TooFewCycles { expected: x, received: recv });
            let inconsistent = apis.len() > 1 && self.rng.pm(300);
            // once retries are exhausted the refusal itself is the answer
            if p.retries >= 10 {
                p.info = Info::Few(expected);
            }
            macro_rules! few {
                ($ty:ty) => {{
                    let rs: Vec<Result<$ty, RpcError>> =
                        apis.iter().enumerate().map(|(i, _)| Err(if inconsistent { e(expected - (i as u128 % 2)) } else { e(expected) })).collect();
                    reply(combine(&apis, rs, &mut self.rng))
                }};
            }
            if inconsistent {
                self.m.mon.stat("rpc too few cycles, per provider");
            }
            p.resp = Some(match &p.req {
                Req::Block(_) => few!(t::Block),
                Req::Logs(_) => few!(Vec<t::LogEntry>),
                Req::FeeHist(_) => few!(Option<t::FeeHistory>),
                Req::Receipt(_) => few!(Option<t::TransactionReceipt>),
                Req::Count(_) => few!(t::Nat256),
                _ => few!(t::SendRawTransactionStatus),
            });
            return;
        }
        let bad = if self.fault(self.p.dev) { Some(self.rng.below(apis.len() as u64) as usize) } else { None };
        let all_err = self.fault(self.p.err);
        if all_err {
            self.m.mon.stat("rpc errors");
        }
        let k = apis.len();
        match p.req.clone() {
            Req::Block(tag) => {
                let c = &self.w.chain;
                let nr = match tag {
                    t::BlockTag::Latest => c.head,
                    t::BlockTag::Safe => c.safe(),
                    t::BlockTag::Finalized => c.finalized(),
                    t::BlockTag::Number(x) => u64_of(&x).unwrap_or(0),
                    _ => c.head,
                };
                let lag = if self.faults && self.rng.pm(150) { self.rng.below(6) } else { 0 };
                let nr = nr.saturating_sub(lag);
                if all_err || bad.is_some() {
                    p.info = Info::Block(None);
                    let rs = vec![Err::<t::Block, _>(some_error(&mut self.rng)); k];
                    p.resp = Some(reply(combine(&apis, rs, &mut self.rng)));
                } else {
                    p.info = Info::Block(Some(nr));
                    let rs = vec![Ok(block_of(&self.w.chain, nr)); k];
                    p.resp = Some(reply(combine(&apis, rs, &mut self.rng)));
                }
            }
            Req::FeeHist(_) => {
                if all_err || bad.is_some() {
                    p.info = Info::Fee(None);
                    let rs = match self.rng.below(3) {
                        0 => vec![Ok(None); k],
                        _ => vec![Err::<Option<t::FeeHistory>, _>(some_error(&mut self.rng)); k],
                    };
                    p.resp = Some(reply(combine(&apis, rs, &mut self.rng)));
                    return;
                }
                let c = &self.w.chain;
                let cnt = c.fees.len().min(6);
                let mut base: Vec<N> = c.fees[c.fees.len() - cnt..].to_vec();
                let mut rew: Vec<Vec<N>> = c.rewards.iter().rev().take(cnt.saturating_sub(1)).rev().map(|r| vec![r.clone()]).collect();
                let odd = self.faults && self.p.gas > 0;
                if odd && self.rng.pm(40) {
                    base.clear();
                }
                if odd && self.rng.pm(40) {
                    rew.clear();
                }
                if odd && self.rng.pm(30) {
                    if let Some(b) = base.last_mut() {
                        *b = (n(1) << 256u32) - 1u8;
                    }
                }
                if self.faults && self.rng.pm(200) {
                    // several percentiles, unordered, even and odd numbers of samples
                    let x = self.rng.range(1, 3);
                    rew = rew.into_iter().map(|r| (0..x).map(|_| &r[0] + n(self.rng.below(3_000_000_000))).collect()).collect();
                }
                let mut flat: Vec<N> = rew.iter().flatten().cloned().collect();
                flat.sort();
                p.info = Info::Fee(match (base.last(), flat.is_empty()) {
                    (Some(b), false) => {
                        let med = flat[flat.len() / 2].clone();
                        let prio = med.max(self.m.conf.min_prio.clone());
                        if (b * 2u8 + &prio).bits() <= 256 {
                            Some((b.clone(), prio))
                        } else {
                            None
                        }
                    }
                    _ => None,
                });
                let h = t::FeeHistory {
                    oldest_block: t::Nat256::from(self.w.chain.head.saturating_sub(cnt as u64)),
                    base_fee_per_gas: base.iter().map(n256).collect(),
                    gas_used_ratio: vec![],
                    reward: rew.iter().map(|r| r.iter().map(n256).collect()).collect(),
                };
                let rs = vec![Ok(Some(h)); k];
                p.resp = Some(reply(combine(&apis, rs, &mut self.rng)));
            }
            Req::Logs(a) => {
                let (f, to) = (tag_number(&a.from_block).unwrap_or(0), tag_number(&a.to_block).unwrap_or(0));
                let logs: Vec<(u64, Log)> =
                    self.w.chain.logs(f, to).filter(|(_, l)| matches_filter(&a, l)).map(|(b, l)| (b, l.clone())).collect();
                let good: Vec<t::LogEntry> = logs.iter().map(|(b, l)| log_entry(&self.w.chain, *b, l)).collect();
                p.served = logs.clone();
                let mut rs: Vec<Result<Vec<t::LogEntry>, RpcError>> = vec![Ok(good.clone()); k];
                let mut large = vec![false; k];
                if logs.len() as u64 > self.p.limit {
                    for i in 0..k {
                        rs[i] = Err(too_large());
                        large[i] = true;
                    }
                } else if all_err {
                    let e = some_error(&mut self.rng);
                    let same = self.rng.pm(500);
                    for r in rs.iter_mut() {
                        *r = Err(if same { e.clone() } else { some_error(&mut self.rng) });
                    }
                } else if let Some(b) = bad {
                    self.m.mon.stat("deviating provider");
                    rs[b] = match self.rng.below(5) {
                        0 => Err(some_error(&mut self.rng)),
                        1 => {
                            large[b] = true;
                            Err(too_large())
                        }
                        2 if !good.is_empty() => {
                            let mut g = good.clone();
                            let i = self.rng.below(g.len() as u64) as usize;
                            g.remove(i);
                            Ok(g)
                        }
                        3 if !good.is_empty() => {
                            // a forged value
                            let mut g = good.clone();
                            let i = self.rng.below(g.len() as u64) as usize;
                            if g[i].topics.len() > 2 {
                                g[i].topics[2] = t::Hex32::from(word_of(&n(1u64 << 60)));
                            }
                            Ok(g)
                        }
                        _ => {
                            // a deposit that never happened
                            let mut g = good.clone();
                            let l = Log { tx: self.rng.bytes(), ..sample_log(a.addresses.first().map(h20).unwrap_or([1; 20]), [0; 20]) };
                            g.push(log_entry(&self.w.chain, to, &l));
                            Ok(g)
                        }
                    };
                }
                let consistent = rs.iter().all(|r| *r == rs[0]);
                let oks: Vec<_> = rs.iter().filter_map(|r| r.as_ref().ok()).collect();
                let out = if consistent {
                    match &rs[0] {
                        Ok(_) => LogsOutcome::Accept,
                        Err(_) if large[0] => LogsOutcome::TooLarge,
                        Err(_) => LogsOutcome::Error,
                    }
                } else if oks.len() >= 2 && oks.iter().all(|o| *o == oks[0]) {
                    LogsOutcome::Accept
                } else if large.iter().any(|x| *x) {
                    LogsOutcome::TooLarge
                } else {
                    LogsOutcome::Error
                };
                self.m.mon.stat(&format!("getLogs answer {out:?}"));
                p.info = Info::Logs(out);
                p.resp = Some(reply(combine(&apis, rs, &mut self.rng)));
            }
            Req::Receipt(h) => {
                let hash = parse_h32(&h).unwrap_or([0; 32]);
                let head = self.w.chain.head;
                let good = receipt_of(&self.w.chain, &hash, head);
                let mut rs: Vec<Result<Option<t::TransactionReceipt>, RpcError>> = vec![Ok(good.clone()); k];
                if all_err {
                    let same = self.rng.pm(500);
                    let e = some_error(&mut self.rng);
                    for r in rs.iter_mut() {
                        *r = Err(if same { e.clone() } else { some_error(&mut self.rng) });
                    }
                } else if let Some(b) = bad {
                    self.m.mon.stat("deviating provider");
                    rs[b] = match self.rng.below(4) {
                        0 => Err(some_error(&mut self.rng)),
                        1 => Ok(None),
                        2 => {
                            let mut g = good.clone();
                            if let Some(g) = &mut g {
                                g.status = Some(t::Nat256::from(if g.status == Some(t::Nat256::from(1u8)) { 0u8 } else { 1u8 }));
                            }
                            Ok(g)
                        }
                        _ => {
                            let mut g = good.clone();
                            if let Some(g) = &mut g {
                                g.gas_used = t::Nat256::from(1u8);
                            }
                            Ok(g)
                        }
                    };
                }
                p.resp = Some(reply(combine(&apis, rs, &mut self.rng)));
            }
            Req::Count(a) => {
                let c = &self.w.chain;
                let v = match a.block {
                    t::BlockTag::Latest | t::BlockTag::Pending => c.latest_count(),
                    t::BlockTag::Safe => c.count_at(c.safe()),
                    _ => c.finalized_count(),
                };
                let lag = if self.faults && self.rng.pm(80) { 1 } else { 0 };
                let v = v.saturating_sub(lag).max(c.first_nonce);
                let rs = if all_err || bad.is_some() {
                    vec![Err(some_error(&mut self.rng)); k]
                } else {
                    vec![Ok(t::Nat256::from(v)); k]
                };
                p.resp = Some(reply(combine(&apis, rs, &mut self.rng)));
            }
            Req::SendRaw(raw) => {
                let tx = raw.strip_prefix("0x").and_then(|h| hex::decode(h).ok()).and_then(|b| decode_raw_tx(&b).ok());
                let lost = all_err && self.rng.pm(500);
                let status: Result<t::SendRawTransactionStatus, RpcError> = if all_err && !lost {
                    Err(some_error(&mut self.rng))
                } else {
                    use t::SendRawTransactionStatus as S;
                    match tx {
                        None => Err(some_error(&mut self.rng)),
                        Some(tx) => {
                            let h = tx.hash;
                            match self.w.chain.submit(tx) {
                                Ok(()) => {
                                    self.m.mon.stat("transactions broadcast");
                                    Ok(S::Ok(Some(t::Hex32::from(h))))
                                }
                                Err("nonce too low") => Ok(S::NonceTooLow),
                                Err("nonce too high") => Ok(S::NonceTooHigh),
                                Err("insufficient funds") => Ok(S::InsufficientFunds),
                                Err(e) => {
                                    self.m.mon.stat(&format!("node: {e}"));
                                    Err(RpcError::JsonRpcError(t::JsonRpcError { code: -32000, message: e.into() }))
                                }
                            }
                        }
                    }
                };
                let mut rs = vec![status; k];
                if lost {
                    for r in rs.iter_mut() {
                        *r = Err(some_error(&mut self.rng));
                    }
                } else if let Some(b) = bad {
                    rs[b] = match self.rng.below(3) {
                        0 => Ok(t::SendRawTransactionStatus::NonceTooLow),
                        1 => Ok(t::SendRawTransactionStatus::InsufficientFunds),
                        _ => Err(some_error(&mut self.rng)),
                    };
                }
                p.resp = Some(reply(combine(&apis, rs, &mut self.rng)));
            }
            _ => {}
        }
    }

    /// The answer to a call reaches the minter.
    pub fn deliver(&mut self, mut p: Pend) {
        self.msgno += 1;
        self.now_set();
        let ctx = p.ctx;
        let resp = p.resp.take().unwrap();
        let kind = self.m.ctxs.get(&ctx).map(|c| c.kind.clone());
        if let Some(c) = self.m.ctxs.get_mut(&ctx) {
            c.outstanding -= 1;
        }
        let dead = self.m.ctxs.get(&ctx).map(|c| c.trapped).unwrap_or(false);
        setup(ctx, &self.w.minter_id, "", vec![]);
        let caller = self.m.ctxs.get(&ctx).map(|c| c.caller).unwrap_or(self.w.minter_id);
        with(|h| {
            h.caller = caller.as_slice().to_vec();
            match &resp {
                Response::Reply(b) => h.arg = b.clone(),
                Response::Reject(c, m) => {
                    h.reject_code = *c;
                    h.reject_msg = m.clone();
                }
            }
        });
        let mut msg = Msg { ctx, ..Default::default() };
        if let (Req::Logs(a), Info::Logs(o)) = (&p.req, &p.info) {
            msg.logs = Some((tag_number(&a.from_block).unwrap_or(0), tag_number(&a.to_block).unwrap_or(0), o.clone()));
        }
        let own = self.trap_at.get(&self.msgno).cloned();
        let injectable = kind.is_some() && kind != Some(CtxKind::GlobalTimer) && !dead && p.call.cleanup_fun != -1;
        let inject = own.is_none() && injectable && self.fault(self.p.trap);
        self.m.mon.note(|| {
            let r = match &resp {
                Response::Reply(b) => format!("{} bytes", b.len()),
                Response::Reject(c, m) => format!("reject {c} {m}"),
            };
            format!("deliver {} ctx {ctx}: {r} {:?}{}", p.req.name(), p.info, if inject { " TRAP" } else { "" })
        });
        let c = p.call.clone();
        if inject || own.is_some() {
            msg.trapped = true;
            msg.real = own.clone();
            if inject {
                self.m.mon.stat("injected traps");
            } else {
                let t: String = own.as_deref().unwrap_or("").chars().take(70).map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
                self.m.mon.stat(&format!("own trap on {}: {t}", p.req.name()));
                self.m.mon.stat("own traps");
            }
            // SAFETY: the call belongs to this thread and its callback is not run.
            let r = run(|| unsafe { ic_host::invoke(c.cleanup_fun, c.env) });
            if let Some(text) = &r.trap {
                let text = text.clone();
                self.m.mon.ck(false, &["C13", "C01", "C08"], "cleanup after a trap completes", || text);
            }
            if let Some(text) = &own {
                self.judge_trap(&p, &msg, text.clone());
            }
            self.after(msg, r, Some(p), false);
            return;
        }
        let starve = injectable && self.fault(self.p.perf);
        if starve {
            with(|h| h.fail_perform = Some(2));
        }
        // SAFETY: as above; each callback runs once.
        let r = run(|| unsafe { ic_host::invoke(c.reply_fun, c.env) });
        with(|h| h.fail_perform = None);
        if let Some(text) = r.trap {
            self.m.mon.note(|| format!("own trap: {text}"));
            self.restart = Some((self.msgno, text));
            return;
        }
        self.after(msg, r, Some(p), false);
    }

    /// The minter's own code panicked in a callback.
    fn judge_trap(&mut self, p: &Pend, msg: &Msg, text: String) {
        let rejected = text.contains("failed to get minter's public key") || text.contains("simulated rejection");
        match &p.req {
            Req::Logs(_) => {
                let m = format!("{:?}", msg.logs);
                self.m.mon.ck(false, &["C15", "C03"], "logs are processed without trapping", || format!("{text} on {m}: {:?}", p.served));
            }
            Req::Receipt(_) | Req::SendRaw(_) | Req::Count(_) | Req::Sign if !rejected => {
                self.m.mon.ck(false, &["C09"], "withdrawals are processed without trapping", || format!("{text} on {:?}", p.req));
            }
            _ => {}
        }
    }

    pub fn due_timer(&self) -> Option<u64> {
        let t = with(|h| h.global_timer);
        if t == 0 {
            None
        } else {
            Some(t)
        }
    }
    pub fn fire(&mut self) -> bool {
        match self.due_timer() {
            Some(t) if t <= self.w.now => {
                with(|h| h.global_timer = 0);
                self.enter(self.w.minter_id, CtxKind::GlobalTimer, "", vec![]);
                true
            }
            _ => false,
        }
    }
    pub fn pump(&mut self) -> bool {
        if self.restart.is_some() || (self.queue.is_empty() && self.ready.is_empty()) {
            return false;
        }
        let (q, r) = (self.queue.len() as u64, self.ready.len() as u64);
        if self.rng.below(q + r) < q {
            let i = self.rng.below(q) as usize;
            let callee = self.queue[i].callee;
            let i = self.queue.iter().position(|p| p.callee == callee).unwrap();
            let p = self.queue.remove(i);
            self.serve(p);
        } else {
            let i = self.rng.below(r) as usize;
            let p = self.ready.remove(i);
            self.deliver(p);
        }
        true
    }
    /// Finishes everything under way (without firing timers).
    pub fn drain(&mut self) {
        let mut k = 0u64;
        while self.pump() {
            k += 1;
            if self.rng.pm(30) {
                self.w.now += self.rng.below(200) * 1_000_000;
            }
            if k > 200_000 {
                self.m.mon.ck(false, &["C03", "C09"], "work under way comes to an end", || "calls without end".into());
                self.queue.clear();
                self.ready.clear();
                self.finished = true;
                return;
            }
        }
    }
}

impl Pend {
    fn req_ok(&self) -> bool {
        self.svc.is_some()
    }
}

pub fn brief(r: &Req) -> String {
    match r {
        Req::Logs(a) => format!("{:?}..{:?}", tag_number(&a.from_block), tag_number(&a.to_block)),
        Req::Block(t) => format!("{t:?}"),
        Req::Count(a) => format!("{:?}", a.block),
        Req::Receipt(h) => h.clone(),
        Req::Transfer(a) => format!("{} to {:?}", a.amount, a.to),
        Req::TransferFrom(a) => format!("{} from {:?} to {:?}", a.amount, a.from, a.to),
        _ => String::new(),
    }
}

pub fn acct(p: Principal) -> Account {
    Account { owner: p, subaccount: None }
}

pub fn init_arg(a: &InitArg) -> Vec<u8> {
    candid::encode_args((MinterArg::InitArg(a.clone()),)).unwrap()
}

/// How many blocks a ledger has when the minter starts using it: few, or more than fit in 32 bits.
fn height(rng: &mut Rng, few: u64) -> u64 {
    match rng.below(5) {
        0 => (1 << 32) - rng.below(12),
        1 => (1 << 32) + rng.big(62).iter_u64_digits().next().unwrap_or(0),
        _ => rng.range(0, few),
    }
}
/// `b` with one byte changed.
pub fn twin<const K: usize>(rng: &mut Rng, b: &[u8; K]) -> [u8; K] {
    let mut a = *b;
    let any = rng.below(K as u64) as usize;
    let k = *rng.pick(&[0, K - 1, any]);
    a[k] ^= rng.range(1, 255) as u8;
    a
}

/// A valid low-s signature. With `kind` 1, one whose r has eleven leading zero bytes (the ephemeral key is one half);
/// with 2, one whose s has a leading zero byte.
fn sign_with(k: &k256::ecdsa::SigningKey, h: &[u8], kind: u64) -> k256::ecdsa::Signature {
    use k256::ecdsa::signature::hazmat::PrehashSigner;
    use k256::elliptic_curve::{ops::Reduce, point::AffineCoordinates, PrimeField};
    if kind == 1 || kind == 2 {
        let z = <k256::Scalar as Reduce<k256::U256>>::reduce_bytes(k256::FieldBytes::from_slice(h));
        for i in 0..if kind == 1 { 1u64 } else { 1000 } {
            let inv = k256::Scalar::from(2 + i);
            let eph = inv.invert().unwrap();
            let x = (k256::ProjectivePoint::GENERATOR * eph).to_affine().x();
            let r = <k256::Scalar as Reduce<k256::U256>>::reduce_bytes(&x);
            let s = inv * (z + r * *k.as_nonzero_scalar().as_ref());
            let Ok(sig) = k256::ecdsa::Signature::from_scalars(r.to_repr(), s.to_repr()) else { continue };
            let sig = sig.normalize_s().unwrap_or(sig);
            if kind == 1 || sig.s().to_repr()[0] == 0 {
                return sig;
            }
        }
    }
    let s: k256::ecdsa::Signature = k.sign_prehash(h).unwrap();
    s.normalize_s().unwrap_or(s)
}
