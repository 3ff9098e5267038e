//! Checks on what the minter sends, and on what it answers.
use crate::chain::*;
use crate::ledger::BlockKind;
use crate::model::*;
use crate::rpc::*;
use crate::util::*;
use candid::{CandidType, Nat, Principal};
use crate::wire as ep;
use crate::wire::CandidBlockTag;
use evm_rpc_types as t;
use evm_rpc_types::RpcServices;
use ic_host::{OutCall, Response};
use serde::Deserialize;

/// What an answer of the outside world means.
#[derive(Clone, Debug, Default)]
pub enum Info {
    #[default]
    None,
    Block(Option<u64>),
    Fee(Option<(N, N)>),
    Logs(LogsOutcome),
    /// Refused for too few cycles; this many were asked for.
    Few(u128),
}

#[derive(CandidType, Deserialize, Debug, Clone, PartialEq)]
pub struct Suite {
    pub symbol: String,
    pub ledger: Principal,
    pub ledger_wasm_hash: String,
    pub index: Principal,
    pub index_wasm_hash: String,
    pub archives: Vec<Principal>,
    pub chain_id: Nat,
}

pub fn sighash(u: &UTx) -> H32 {
    let l = Rlp::List(vec![
        rlp_uint(&u.chain_id),
        rlp_uint(&u.nonce),
        rlp_uint(&u.prio),
        rlp_uint(&u.max_fee),
        rlp_uint(&u.gas),
        Rlp::Str(u.to.to_vec()),
        rlp_uint(&u.value),
        Rlp::Str(u.data.clone()),
        Rlp::List(vec![]),
    ]);
    let mut b = vec![2u8];
    b.extend(rlp_encode(&l));
    keccak(&b)
}

pub fn same_tag(c: &CandidBlockTag, t: &t::BlockTag) -> bool {
    matches!(
        (c, t),
        (CandidBlockTag::Latest, t::BlockTag::Latest) | (CandidBlockTag::Safe, t::BlockTag::Safe) | (CandidBlockTag::Finalized, t::BlockTag::Finalized)
    )
}

/// A deposit log as the helper contract would emit it.
pub fn sample_log(helper: Addr, token: Addr) -> Log {
    Log {
        addr: helper,
        topics: vec![deposit_topic(), word_of_addr(&token), word_of(&n(7)), principal_word(&[1, 2, 3])],
        data: vec![0; 64],
        tx: [7; 32],
        tx_index: 0,
        log_index: 0,
        removed: false,
        absent: 0,
    }
}

impl Model {
    fn set_task(&mut self, ctx: u64, task: Task) {
        let others: Vec<u64> = self.ctxs.values().filter(|c| c.id != ctx && c.task == Some(task) && c.outstanding > 0).map(|c| c.id).collect();
        self.mon.ck(others.is_empty(), &["C13"], &format!("one {task:?} at a time"), || format!("{task:?} in ctx {ctx} while running in {others:?}"));
        if let Some(c) = self.ctxs.get_mut(&ctx) {
            c.task = Some(task);
        }
    }

    /// The canister sent a call. `fee_out` is the number of fee history calls already under way.
    pub fn on_call(&mut self, w: &World, c: &OutCall, req: &Req, svc: &Option<RpcServices>, fee_out: usize, retry: bool) {
        let callee = Principal::from_slice(&c.callee);
        let ctx = c.ctx;
        let kind = self.ctxs.get(&ctx).map(|c| c.kind.clone());
        let timer = kind == Some(CtxKind::Timer);
        self.mon.stat(&format!("call {}", req.name()));
        if let Req::Bad(e) = req {
            self.mon.ck(false, &["C20", "C16"], "call is understood", || format!("{}: {e}", c.method));
            return;
        }
        if req.is_rpc() {
            let evm = self.conf.evm;
            self.mon.ck(callee == evm, &["C20", "C22"], "rpc call to the configured canister", || format!("{} to {callee}, configured {evm}", c.method));
            if let Some(s) = svc {
                let (chain, apis) = services(s);
                let want = self.conf.chain_id;
                self.mon.ck(chain == want, &["C20"], "rpc call for the configured chain", || format!("{} for chain {chain}, configured {want}", c.method));
                let (all, ankr, public) = provider_table(want);
                let mut urls: Vec<String> = apis.iter().map(|a| a.url.clone()).collect();
                urls.sort();
                let mut exp = match req {
                    Req::Block(_) | Req::FeeHist(_) => vec![public],
                    Req::Count(a) if matches!(a.block, t::BlockTag::Latest) => vec![ankr],
                    Req::Count(_) => vec![public],
                    _ => all,
                };
                exp.sort();
                let what = match req {
                    Req::Count(a) => format!("count {:?}", a.block),
                    r => r.name().to_string(),
                };
                self.mon.ck(urls == exp, &["C20", "C14"], &format!("providers of {what}"), || format!("{urls:?}, expected {exp:?}"));
            }
            self.mon.ck(c.cycles > 0, &["C20"], "rpc call carries cycles", || c.method.clone());
        }
        match req {
            Req::Block(tag) => {
                let want = self.conf.tag.clone();
                self.mon.ck(same_tag(&want, tag), &["C23", "C22"], "block asked with the configured tag", || format!("{tag:?}, configured {want:?}"));
                self.mon.ck(timer, &["C16", "C25"], "scraping starts from a timer", || format!("{kind:?}"));
                if self.ctxs.get(&ctx).map(|c| c.task.is_none()).unwrap_or(false) {
                    self.set_task(ctx, Task::Scrape);
                    self.scrape_start = Some(w.now);
                    self.want_scrape = None;
                    self.scrapes += 1;
                    let life = (w.now - self.life_start) / (600 * SEC);
                    let (s, b) = (self.scrapes, self.scrape_budget + life);
                    self.mon.ck(s <= b, &["C25"], "scrapes are periodic or requested", || format!("{s} scrapes started, {b} accounted for"));
                }
            }
            Req::Logs(a) => {
                let (f, to) = (tag_number(&a.from_block), tag_number(&a.to_block));
                let (Some(f), Some(to)) = (f, to) else {
                    self.mon.ck(false, &["C03", "C23"], "logs asked by number", || format!("{a:?}"));
                    return;
                };
                let s = self.scraped;
                let up = if self.upgrades > 0 { " after upgrade" } else { "" };
                self.mon.ck(f <= s + 1 && f <= to, &["C03"], &format!("ranges are contiguous{up}"), || format!("asked [{f}, {to}], processed up to {s}"));
                self.mon.ck(to.saturating_sub(f) < 1000, &["C03", "C19"], "range within the limit", || format!("asked [{f}, {to}]"));
                let b = self.served_max;
                self.mon.ck(b.map(|b| to <= b).unwrap_or(false), &["C23"], "range within the finality boundary", || format!("asked up to {to}, boundary {b:?}"));
                let task = self.ctxs.get(&ctx).and_then(|c| c.task);
                self.mon.ck(task == Some(Task::Scrape), &["C13", "C25"], "logs asked by the scraping task", || format!("{task:?} {kind:?}"));
                let k = self.ctxs.get(&ctx).map(|c| c.tokens_at_start).unwrap_or(0);
                if let Some(h) = self.conf.helper {
                    let nk = if self.tokens.is_empty() { "no tokens" } else { "tokens registered" };
                    let ok = matches_filter(a, &sample_log(h, [0; 20]));
                    self.mon.ck(ok, &["C03", "C22"], &format!("filter admits native deposits ({nk})"), || format!("{a:?}"));
                    for tk in self.tokens[..k.min(self.tokens.len())].to_vec() {
                        let ok = matches_filter(a, &sample_log(h, tk.addr));
                        self.mon.ck(ok, &["C03"], "filter admits token deposits", || format!("{} not in {a:?}", h0x(&tk.addr)));
                    }
                }
            }
            Req::FeeHist(a) => {
                self.mon.ck(fee_out == 0, &["C17", "C13"], "one fee history at a time", || format!("{fee_out} outstanding"));
                if !retry {
                    let e = self.cur_est().cloned();
                    let old = e.as_ref().map(|e| w.now >= e.ts + 30 * SEC).unwrap_or(true);
                    let nk = if e.is_some() { "stale" } else { "none" };
                    self.mon.ck(old, &["C17"], &format!("fee history only without a young estimate ({nk})"), || format!("{e:?} at {}", w.now));
                }
                let ok = matches!(a.newest_block, t::BlockTag::Latest) && from256(&a.block_count) == n(5) && a.reward_percentiles.as_deref() == Some(&[20]);
                self.mon.ck(ok, &["C17"], "the fee history of the last five blocks at the 20th percentile", || format!("{a:?}"));
            }
            Req::Receipt(h) => {
                self.set_task(ctx, Task::Retrieve);
                let h = parse_h32(h).unwrap_or([0xee; 32]);
                let ok = self.wds.values().any(|w| w.fin.is_none() && w.signed.iter().any(|s| s.hash == h));
                self.mon.ck(ok, &["C07", "C23"], "receipt asked for a signed transaction", || h0x(&h));
            }
            Req::Count(a) => {
                self.set_task(ctx, Task::Retrieve);
                let ad = h20(&a.address);
                let me = self.minter_addr;
                self.mon.ck(Some(ad) == me, &["C07", "C06", "C23"], "count of the minter's own address", || format!("{ad:?} {me:?}"));
                let ok = matches!(a.block, t::BlockTag::Latest | t::BlockTag::Finalized);
                self.mon.ck(ok, &["C23"], "count at latest or finalized", || format!("{a:?}"));
            }
            Req::SendRaw(raw) => {
                self.set_task(ctx, Task::Retrieve);
                let d = raw.strip_prefix("0x").and_then(|h| hex::decode(h).ok()).ok_or("not hex".to_string()).and_then(|b| decode_raw_tx(&b));
                match d {
                    Err(e) => {
                        self.mon.ck(false, &["C07"], "broadcast bytes decode", || format!("{e}: {raw}"));
                    }
                    Ok(d) => {
                        let hit = self.wds.values().find(|w| w.fin.is_none() && w.signed.iter().any(|s| s.hash == d.hash)).cloned();
                        self.mon.ck(hit.is_some(), &["C07", "C06"], "broadcast transaction is a recorded one", || format!("{d:?}"));
                        if let Some(wd) = hit {
                            let rep = if wd.signed.len() > 1 { "replacement" } else { "first" };
                            let last = wd.signed.last().unwrap().hash == d.hash;
                            self.mon.ck(last, &["C09", "C17", "C06"], &format!("the latest signed transaction is broadcast: {rep}"), || format!("{d:?} of {wd:?}"));
                        }
                    }
                }
            }
            Req::Transfer(a) => {
                let known = callee == self.conf.native || self.tokens.iter().any(|t| t.ledger == callee);
                self.mon.ck(known, &["C02", "C08", "C16"], "transfer on a known ledger", || format!("{callee}"));
                if timer {
                    let memo = a.memo.as_ref().and_then(|m| decode_memo(&m.0, true));
                    match memo {
                        Some(Memo::Reimburse { .. } | Memo::ReimburseTx { .. }) => self.set_task(ctx, Task::Reimburse),
                        _ => self.set_task(ctx, Task::Mint),
                    }
                }
            }
            Req::TransferFrom(a) => {
                let known = callee == self.conf.native || self.tokens.iter().any(|t| t.ledger == callee);
                self.mon.ck(known, &["C04", "C16"], "burn on a known ledger", || format!("{callee}"));
                let wd = matches!(kind, Some(CtxKind::WithdrawNative { .. } | CtxKind::WithdrawErc20 { .. }));
                let caller = self.ctxs.get(&ctx).map(|c| c.caller);
                let fees = self.fee_account(w);
                let ok = wd && (Some(a.from.owner) == caller || a.from == fees);
                self.mon.ck(ok, &["C04", "C16"], "only the caller's tokens are taken", || format!("{a:?} by {caller:?} in {kind:?}"));
            }
            Req::Sign => {
                self.set_task(ctx, Task::Retrieve);
                let h = sign_hash(&c.arg);
                let ok = h.map(|h| self.wds.values().any(|w| w.txs.len() > w.signed.len() && sighash(w.txs.last().unwrap()) == h));
                self.mon.ck(ok == Some(true), &["C05", "C07", "C06"], "signature asked for a recorded transaction", || format!("{h:?}"));
                self.mon.ck(callee == management(), &["C07"], "signature asked of the management canister", || format!("{callee}"));
            }
            Req::Lsm => {
                self.lsm_calls += 1;
                let k = self.lsm_calls;
                let up = self.upgrades;
                self.mon.ck(k == 1 && up == 0, &["C26"], "announced once, at installation", || format!("announcement {k} after {up} upgrades"));
                let l = self.conf.lsm;
                self.mon.ck(callee == l, &["C26"], "announced to the manager", || format!("{callee}, configured {l}"));
                let hash = |name: &str| hex::encode(sha2(format!("stand-in for {name}").as_bytes()));
                let want = Suite {
                    symbol: self.conf.symbol.clone(),
                    ledger: self.conf.native,
                    // (the names of the two bundled modules are swapped in the source; the pair of hashes is what is checked)
                    ledger_wasm_hash: hash("index_ng_canister_u256.wasm.gz"),
                    index: self.conf.index,
                    index_wasm_hash: hash("ledger_canister_u256.wasm.gz"),
                    archives: vec![],
                    chain_id: Nat::from(self.conf.chain_id),
                };
                let got = candid::decode_args::<(Suite,)>(&c.arg);
                let ok = match &got {
                    Ok((s,)) => {
                        let mut swapped = want.clone();
                        std::mem::swap(&mut swapped.ledger_wasm_hash, &mut swapped.index_wasm_hash);
                        *s == want || *s == swapped
                    }
                    Err(_) => false,
                };
                self.mon.ck(ok, &["C26"], "announced suite", || format!("{got:?}, expected {want:?}"));
            }
            Req::Timer => {
                self.mon.ck(callee == w.minter_id && kind == Some(CtxKind::GlobalTimer), &["C16"], "timer calls go to the minter itself", || format!("{callee} in {kind:?}"));
            }
            Req::Pubkey | Req::Status | Req::Bad(_) => {}
        }
        // Calls on behalf of users come from timers or from their own withdrawal only.
        let ok = match (&kind, req) {
            (Some(CtxKind::Timer), Req::TransferFrom(_)) => false,
            (Some(CtxKind::Timer), _) => true,
            (Some(CtxKind::GlobalTimer), Req::Timer) => true,
            (Some(CtxKind::WithdrawNative { .. }), Req::Transfer(_) | Req::TransferFrom(_)) => true,
            (Some(CtxKind::WithdrawErc20 { .. }), Req::Transfer(_) | Req::TransferFrom(_) | Req::FeeHist(_)) => true,
            (Some(CtxKind::Other("minter_address")), Req::Pubkey) => true,
            (Some(CtxKind::Other("get_canister_status")), Req::Status) => true,
            _ => false,
        };
        self.mon.ck(ok, &["C16", "C25"], "endpoints make only their own calls", || format!("{} from {kind:?}", req.name()));
    }

    /// A call was refused for too few cycles and its callback ran to the end.
    pub fn on_few(&mut self, prev: &OutCall, retries: u32, expected: u128, out: &[OutCall]) {
        let again: Vec<_> = out.iter().filter(|c| c.method == prev.method && c.arg == prev.arg && c.callee == prev.callee).collect();
        if retries < 10 {
            let min = (prev.cycles * 2).max(expected);
            let ok = again.len() == 1 && again[0].cycles >= min;
            let k = if expected > prev.cycles * 2 { "asked amount" } else { "doubled" };
            self.mon.ck(ok, &["C20"], &format!("retried with enough cycles ({k})"), || {
                format!("{} with {} cycles refused (expected {expected}); then {:?}", prev.method, prev.cycles, again.iter().map(|c| c.cycles).collect::<Vec<_>>())
            });
        } else {
            self.mon.stat("retries exhausted");
            let ok = again.iter().all(|c| c.cycles < prev.cycles);
            self.mon.ck(ok, &["C20"], "retries are bounded", || format!("{} retried {} times and again with {:?}", prev.method, retries, again.iter().map(|c| c.cycles).collect::<Vec<_>>()));
        }
    }

    /// Ledger effects of a call on its caller: (native spent, native credited, token spent).
    pub fn cost(&self, w: &World, ctx: &Ctx) -> (N, N, N) {
        let (mut spent, mut back, mut tok) = (n(0), n(0), n(0));
        for l in w.ledgers.values() {
            for b in l.blocks.iter().filter(|b| b.ctx == ctx.id) {
                let native = l.id == w.native;
                match &b.kind {
                    BlockKind::Transfer { from, to } => {
                        if from.owner == ctx.caller {
                            if native {
                                spent += &b.amount + &l.fee
                            } else {
                                tok += &b.amount + &l.fee
                            }
                        }
                        if to.owner == ctx.caller && native {
                            back += &b.amount
                        }
                    }
                    BlockKind::Burn { from } if from.owner == ctx.caller => {
                        if native {
                            spent += &b.amount
                        } else {
                            tok += &b.amount
                        }
                    }
                    _ => {}
                }
            }
        }
        (spent, back, tok)
    }

    /// A withdrawal call answered (or was rejected).
    pub fn on_withdraw_reply(&mut self, w: &World, ctx: &Ctx, r: &Response, entry: bool) {
        #[derive(Debug)]
        enum A {
            Ok(u64, Option<u64>),
            TooLow,
            BadDest,
            NoToken(usize),
            OwnFault,
            Other,
            Reject(String),
        }
        let (kind, native) = match &ctx.kind {
            CtxKind::WithdrawNative { .. } => ("native", true),
            _ => ("erc20", false),
        };
        let a = match r {
            Response::Reject(_, m) => A::Reject(m.clone()),
            Response::Reply(b) => {
                let u = |n: &Nat| u64::try_from(&n.0).unwrap_or(u64::MAX);
                if native {
                    match candid::decode_args::<(Result<ep::RetrieveNativeRequest, ep::WithdrawalError>,)>(b) {
                        Ok((Ok(x),)) => A::Ok(u(&x.block_index), None),
                        Ok((Err(ep::WithdrawalError::AmountTooLow { .. }),)) => A::TooLow,
                        Ok((Err(ep::WithdrawalError::InvalidDestination(_)),)) => A::BadDest,
                        Ok((Err(_),)) => A::Other,
                        Err(e) => A::Reject(format!("undecodable {e}")),
                    }
                } else {
                    match candid::decode_args::<(Result<ep::RetrieveErc20Request, ep::WithdrawErc20Error>,)>(b) {
                        Ok((Ok(x),)) => A::Ok(u(&x.native_block_index), Some(u(&x.erc20_block_index))),
                        Ok((Err(ep::WithdrawErc20Error::InvalidDestination(_)),)) => A::BadDest,
                        Ok((Err(ep::WithdrawErc20Error::TokenNotSupported { supported_tokens }),)) => A::NoToken(supported_tokens.len()),
                        Ok((Err(ep::WithdrawErc20Error::Erc20LedgerError { error: e, .. }),)) => match e {
                            ep::LedgerError::TemporarilyUnavailable(_) => A::Other,
                            _ => A::OwnFault,
                        },
                        Ok((Err(_),)) => A::Other,
                        Err(e) => A::Reject(format!("undecodable {e}")),
                    }
                }
            }
        };
        let label = match &a {
            A::Ok(..) => "ok",
            A::TooLow => "amount too low",
            A::BadDest => "invalid destination",
            A::NoToken(_) => "token not supported",
            A::OwnFault => "token burn refused",
            A::Other => "error",
            A::Reject(_) if entry => "refused at entry",
            A::Reject(_) => "trapped",
        };
        self.mon.stat(&format!("withdraw {kind}: {label}"));
        let (amount, dest) = match &ctx.kind {
            CtxKind::WithdrawNative { amount, dest } => (amount.clone(), dest.clone()),
            CtxKind::WithdrawErc20 { amount, dest, .. } => (amount.clone(), dest.clone()),
            _ => return,
        };
        // ---- who may enter
        if entry {
            let refused = matches!(a, A::Reject(_));
            let good_dest = parse_addr(&dest).map(|d| d != [0; 20]).unwrap_or(false);
            let huge = amount.bits() > 256;
            match ctx.must_refuse {
                Some(why) => {
                    let p: &[&'static str] = if why == "anonymous" { &["C04"] } else { &["C13"] };
                    self.mon.ck(refused, p, &format!("entry refused: {why}"), || format!("{ctx:?} answered {a:?}"));
                }
                None => {
                    let may = huge && good_dest;
                    self.mon.ck(!refused || may, &["C13", "C12"], "entry not refused without reason", || format!("{ctx:?} answered {a:?}"));
                    if !good_dest && !refused {
                        self.mon.ck(matches!(a, A::BadDest), &["C21", "C04"], "bad destination refused at once", || format!("{dest:?} answered {a:?}"));
                    }
                }
            }
        } else if let Some(why) = ctx.must_refuse {
            let p: &[&'static str] = if why == "anonymous" { &["C04"] } else { &["C13"] };
            self.mon.ck(false, p, &format!("entry refused: {why}"), || format!("{ctx:?} answered {a:?}"));
        }
        // ---- the answer agrees with what was accepted
        match &a {
            A::Ok(id, e) => {
                let acc = ctx.accepted;
                let want_e = acc.and_then(|i| self.wds.get(&i)).and_then(|w| w.erc20.as_ref()).map(|e| e.2);
                self.mon.ck(acc == Some(*id) && *e == want_e, &["C04", "C18"], &format!("{kind} success names the accepted request"), || format!("answered {a:?}, accepted {acc:?} {want_e:?}"));
            }
            _ => {
                if ctx.real_trap.is_some() || !ctx.trapped {
                    self.mon.ck(ctx.accepted.is_none(), &["C04", "C12"], &format!("{kind} error means nothing was accepted"), || format!("{a:?} but accepted {:?}", ctx.accepted));
                }
            }
        }
        match &a {
            A::BadDest => {
                let bad = parse_addr(&dest).map(|d| d == [0; 20]).unwrap_or(true);
                self.mon.ck(bad, &["C21"], "a good destination is accepted", || format!("{dest:?} refused"));
            }
            A::TooLow => {
                let ok = amount < self.conf.min_w || amount < &self.conf.wd_fee + &self.conf.lf;
                self.mon.ck(ok, &["C04", "C22"], "amount too low means below the minimum", || format!("{amount} refused, minimum {}", self.conf.min_w));
            }
            A::NoToken(k) => {
                let ok = !matches!(&ctx.kind, CtxKind::WithdrawErc20{ledger, ..} if self.token_by_ledger(ledger).is_some());
                let have = self.tokens.len();
                self.mon.ck(ok && *k == have, &["C16"], "unsupported token reported", || format!("{ctx:?}, {k} of {have} tokens listed"));
            }
            _ => {}
        }
        if matches!(a, A::BadDest | A::TooLow | A::NoToken(_)) {
            self.mon.ck(ctx.calls == 0, &["C12", "C04"], &format!("{label} before any ledger call"), || format!("{ctx:?}"));
        }
        // ---- costs
        let (spent, back, tok) = self.cost(w, ctx);
        let (f, lf) = (self.conf.wd_fee.clone(), self.conf.lf.clone());
        let fk = if f == n(0) { "no fee" } else { "with fee" };
        match &a {
            A::Ok(id, _) => {
                let want = if native {
                    (amount.clone(), n(0))
                } else {
                    let fee = self.wds.get(id).and_then(|w| w.erc20.as_ref()).map(|e| e.3.clone()).unwrap_or_default();
                    (fee + &f, amount.clone())
                };
                self.mon.ck(spent == want.0 && tok == want.1 && back == n(0), &["C12", "C04"], &format!("{kind} success costs the amounts ({fk})"), || {
                    format!("spent {spent} native, {tok} token, got back {back}; expected {want:?}")
                });
            }
            _ if ctx.trapped && ctx.real_trap.is_none() => {}
            _ => {
                let due = ctx.failed.and_then(|id| self.due.get(&(self.conf.native, id))).map(|d| d.amount.clone()).unwrap_or_default();
                let two = &lf * 2u8;
                let mut limit = if f < two { f.clone() } else { two };
                if ctx.refund_fault || ctx.perform_fault {
                    limit = f.clone();
                }
                if matches!(a, A::OwnFault) {
                    limit += &lf;
                }
                let got = &back + &due;
                let loss = if spent > got { &spent - &got } else { n(0) };
                let stage = match (spent == n(0), back == n(0)) {
                    (true, _) => "nothing spent",
                    (_, true) => "no refund",
                    _ => "refunded",
                };
                self.mon.ck(loss <= limit && tok == n(0), &["C12"], &format!("{kind} {label} costs at most the ledger fees ({fk}, {stage})"), || {
                    format!("{ctx:?} answered {a:?}: lost {loss} native and {tok} token, limit {limit}")
                });
                self.mon.ck(got <= spent, &["C12", "C08", "C11"], "nobody gains from a failed withdrawal", || format!("spent {spent}, got {got}"));
            }
        }
    }

    /// Compares the minter's own summary with the model.
    pub fn check_info(&mut self, w: &World) {
        let r = crate::canister::query::<_, (ep::MinterInfo,)>("get_minter_info", ());
        let i = match r {
            Ok((i,)) => i,
            Err(e) => {
                self.mon.ck(false, &["C22", "C18", "C28"], "info answers", || e);
                return;
            }
        };
        let conf = self.conf.clone();
        let opt = |x: &N| if *x == n(0) { None } else { Some(nat(x)) };
        let m = &mut self.mon;
        let nb = nat(&self.native_bal);
        m.ck(i.native_balance == Some(nb.clone()), &["C11", "C28"], "native balance", || format!("{:?}, expected {nb}", i.native_balance));
        let mut bal: Vec<_> = i.erc20_balances.clone().unwrap_or_default().into_iter().map(|b| (b.erc20_contract_address, b.balance)).collect();
        bal.sort();
        let mut want: Vec<_> = self.tokens.iter().map(|t| (eip55(&t.addr), nat(&self.erc20_bal.get(&t.addr).cloned().unwrap_or_default()))).collect();
        want.sort();
        m.ck(bal == want, &["C11", "C28"], "token balances", || format!("{bal:?}, expected {want:?}"));
        let mut tk: Vec<_> = i.supported_erc20_tokens.clone().unwrap_or_default().into_iter().map(|t| (t.ledger_canister_id, t.erc20_contract_address, t.erc20_token_symbol)).collect();
        tk.sort();
        let mut want: Vec<_> = self.tokens.iter().map(|t| (t.ledger, eip55(&t.addr), t.symbol.clone())).collect();
        want.sort();
        m.ck(tk == want, &["C16", "C28"], &format!("{} tokens listed", want.len().min(9)), || format!("{tk:?}, expected {want:?}"));
        m.ck(i.minimum_withdrawal_amount == Some(nat(&conf.min_w)), &["C22", "C28"], "minimum in force", || format!("{:?}, expected {}", i.minimum_withdrawal_amount, conf.min_w));
        m.ck(i.deposit_native_fee == opt(&conf.dep_fee), &["C22", "C28"], "deposit fee in force", || format!("{:?}, expected {}", i.deposit_native_fee, conf.dep_fee));
        m.ck(i.withdrawal_native_fee == opt(&conf.wd_fee), &["C22", "C28"], "withdrawal fee in force", || format!("{:?}, expected {}", i.withdrawal_native_fee, conf.wd_fee));
        m.ck(i.block_height == Some(conf.tag.clone()), &["C22", "C28"], "tag in force", || format!("{:?}, expected {:?}", i.block_height, conf.tag));
        m.ck(i.helper_smart_contract_address == conf.helper.map(|h| eip55(&h)), &["C22", "C28"], "helper in force", || format!("{:?}, expected {:?}", i.helper_smart_contract_address, conf.helper));
        m.ck(i.native_twin_token_ledger_id == Some(conf.native) && i.ledger_suite_manager_id == Some(conf.lsm) && i.swap_canister_id.is_none(), &["C22", "C16", "C28"], "canisters in force", || format!("{i:?}"));
        let o = self.observed.map(Nat::from);
        m.ck(i.last_observed_block_number == o, &["C23", "C25", "C28"], "observed block", || format!("{:?}, expected {o:?}", i.last_observed_block_number));
        let s = Nat::from(self.scraped);
        let up = if self.upgrades > 0 { "scraping position after upgrade" } else { "scraping position" };
        m.ck(i.last_scraped_block_number == Some(s.clone()), &["C03", "C10", "C28"], up, || format!("{:?}, expected {s}", i.last_scraped_block_number));
        let e = self.est.last().filter(|e| e.until == u64::MAX).map(|e| ep::GasFeeEstimate { max_fee_per_gas: nat(&e.max()), max_priority_fee_per_gas: nat(&e.prio), timestamp: e.ts });
        m.ck(i.last_gas_fee_estimate == e, &["C17", "C28"], if e.is_some() { "gas estimate" } else { "no gas estimate" }, || format!("{:?}, expected {e:?}", i.last_gas_fee_estimate));
        let a = self.minter_addr.map(|a| eip55(&a));
        m.ck(i.minter_address.is_none() || i.minter_address == a, &["C07", "C21", "C28"], "advertised address", || format!("{:?}, expected {a:?}", i.minter_address));
        let _ = w;
    }

    /// An accepted answer to a log query: everything in it was taken.
    pub fn check_batch(&mut self, logs: &[(u64, Log)]) {
        let k = match logs.len() {
            0 => "empty",
            1 => "one log",
            2..=5 => "few logs",
            _ => "many logs",
        };
        let mixed = logs.iter().any(|(_, l)| decode_deposit(l) == Decoded::Invalid);
        let k = if mixed { format!("{k} with hostile ones") } else { k.to_string() };
        for (b, l) in logs {
            let s = (l.tx, l.log_index);
            match decode_deposit(l) {
                Decoded::Ok(d) => {
                    let known = d.token.map(|t| self.token_by_addr(&t).is_some()).unwrap_or(true);
                    if known {
                        let ok = self.acc.contains_key(&s);
                        self.mon.ck(ok, &["C03", "C15"], &format!("valid deposit in a batch is accepted ({k})"), || format!("block {b}: {l:?} ignored"));
                    }
                }
                Decoded::Pending => {
                    let ok = !self.acc.contains_key(&s);
                    self.mon.ck(ok, &["C15"], "pending log is not accepted", || format!("{l:?}"));
                }
                Decoded::Invalid => {
                    let ok = self.invalid.contains(&s) && !self.acc.contains_key(&s);
                    self.mon.ck(ok, &["C15"], &format!("malformed log is recorded as invalid ({k})"), || format!("block {b}: {l:?}"));
                }
            }
        }
        if logs.is_empty() {
            self.mon.ck(true, &["C03"], "empty batch", String::new);
        }
    }
}

pub fn sha2(b: &[u8]) -> H32 {
    use sha2::Digest;
    sha2::Sha256::digest(b).into()
}

#[derive(CandidType, Deserialize)]
struct SignArg {
    message_hash: serde_bytes::ByteBuf,
}
pub fn sign_hash(arg: &[u8]) -> Option<H32> {
    candid::decode_args::<(SignArg,)>(arg).ok().and_then(|(a,)| a.message_hash.to_vec().try_into().ok())
}
