//! Short scripted histories with generated parameters, for situations the simulation does not bring about.
use super::U;
use crate::canister::query;
use crate::mon::Mon;
use crate::rpc::*;
use crate::util::*;
use crate::world::*;
use candid::{Nat, Principal};
use crate::wire as ep;
use crate::wire::UpgradeArg;
use ic_host::Response;
use std::sync::{Arc, Mutex};

type Shared = Arc<Mutex<Mon>>;
struct S {
    mon: Shared,
    rng: Rng,
    prop: &'static str,
}
impl S {
    fn ck(&self, ok: bool, key: &str, msg: impl FnOnce() -> String) {
        let mut m = self.mon.lock().unwrap_or_else(|e| e.into_inner());
        m.ck(ok, &[self.prop], key, msg);
    }
    fn stat(&self, k: &str) {
        self.mon.lock().unwrap_or_else(|e| e.into_inner()).stat(k);
    }
}

type Script = fn(S);
const SCRIPTS: &[(&str, &str, Script)] = &[
    ("C01", "cursor set back", cursor_back),
    ("C15", "logs repeated", repeated_logs),
    ("C01", "logs repeated", repeated_logs),
    ("C22", "cursor and nonce set", cursor_and_nonce),
    ("C03", "cursor and nonce set", cursor_and_nonce),
    ("C06", "cursor and nonce set", cursor_and_nonce),
    ("C22", "configurations", configurations),
    ("C10", "configurations", configurations),
    ("C09", "a queue that cannot pay", poor_queue),
    ("C09", "rising prices", rising),
    ("C05", "rising prices", rising),
    ("C17", "rising prices", rising),
    ("C09", "versions", versions),
    ("C06", "versions", versions),
    ("C18", "versions", versions),
    ("C11", "versions", versions),
    ("C13", "caps", caps),
    ("C03", "many tokens", many_tokens),
    ("C02", "many tokens", many_tokens),
    ("C05", "many tokens", many_tokens),
    ("C10", "many tokens", many_tokens),
    ("C11", "many tokens", many_tokens),
    ("C16", "many tokens", many_tokens),
    ("C26", "no helper contract", no_helper),
    ("C22", "no helper contract", no_helper),
    ("C03", "no helper contract", no_helper),
    ("C03", "deposits that wait", waiting_mints),
    ("C01", "deposits that wait", waiting_mints),
    ("C08", "a ledger that fails", stuck_ledger),
    ("C03", "a ledger that fails", stuck_ledger),
    ("C08", "reimbursements", reimbursements),
    ("C10", "reimbursements", reimbursements),
    ("C18", "reimbursements", reimbursements),
    ("C24", "reimbursements", reimbursements),
    ("C09", "long history", long_history),
    ("C06", "long history", long_history),
    ("C24", "long history", long_history),
    ("C28", "declared methods", declared),
    ("C16", "swap canister", swap),
    ("C13", "swap canister", swap),
];

pub fn run(u: &mut U, seed: u64) {
    let p = u.prop;
    for (prop, name, f) in SCRIPTS.iter().filter(|s| s.0 == p) {
        let k = if *name == "long history" { 1 + 4 * u.deep as u64 } else { u.rounds(12) };
        for i in 0..k {
            let mon: Shared = Arc::new(Mutex::new(Mon::default()));
            let s = S { mon: mon.clone(), rng: Rng::new(seed.wrapping_mul(1000).wrapping_add(i) ^ name.len() as u64), prop };
            let f = *f;
            let r = std::thread::Builder::new().stack_size(16 << 20).spawn(move || f(s)).unwrap().join();
            let m = mon.lock().unwrap_or_else(|e| e.into_inner()).clone();
            u.mon.merge(&m);
            u.mon.viol.extend(m.viol.iter().cloned());
            u.case();
            u.mon.stat(&format!("script {name}"));
            if let Err(e) = r {
                let e = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                println!("script {name}: {}", e.chars().take(200).collect::<String>());
                // The world around the minter could not go on; what was seen until then counts.
                u.mon.stat(&format!("script {name} cut short"));
                // every upgrade and installation of a script is a possible one
                let refused = e.starts_with("post_upgrade:") || e.starts_with("installation:");
                if matches!(p, "C10" | "C22") {
                    u.mon.ck(!refused, &[p], "a possible upgrade is made", || e.clone());
                }
            }
        }
    }
}

fn info() -> Option<ep::MinterInfo> {
    query::<_, (ep::MinterInfo,)>("get_minter_info", ()).ok().map(|x| x.0)
}
fn to(w: &W, l: Principal, p: Principal) -> Vec<N> {
    w.mints(l).into_iter().filter(|m| m.0.owner == p).map(|m| m.1).collect()
}
fn asked_from(w: &W, k: usize) -> Option<u64> {
    w.seen[k..].iter().find_map(|r| match r {
        Req::Logs(a) => tag_number(&a.from_block),
        _ => None,
    })
}
fn sent(w: &W, k: usize) -> Vec<RawTx> {
    w.seen[k..]
        .iter()
        .filter_map(|r| match r {
            Req::SendRaw(x) => hex::decode(x.trim_start_matches("0x")).ok().and_then(|b| decode_raw_tx(&b).ok()),
            _ => None,
        })
        .collect()
}
fn withdraw(w: &mut W, who: Principal, amount: u64) -> Option<u64> {
    let a = ep::WithdrawalArg { amount: Nat::from(amount), recipient: h0x(&[0x55; 20]) };
    let r: Result<Result<ep::RetrieveNativeRequest, ep::WithdrawalError>, String> = w.call(who, "withdraw_native_token", (a,));
    r.ok()?.ok().and_then(|x| x.block_index.0.try_into().ok())
}
fn withdraw_erc20(w: &mut W, who: Principal, i: u8, amount: u64) -> Option<u64> {
    let a = ep::WithdrawErc20Arg { amount: Nat::from(amount), erc20_ledger_id: token(i).0, recipient: h0x(&[0x56; 20]) };
    let r: Result<Result<ep::RetrieveErc20Request, ep::WithdrawErc20Error>, String> = w.call(who, "withdraw_erc20", (a,));
    r.ok()?.ok().and_then(|x| x.native_block_index.0.try_into().ok())
}

/// An upgrade that sets the scraping position back makes the minter read logs it has already minted.
fn cursor_back(mut s: S) {
    let mut w = W::new();
    if s.rng.pm(500) {
        w.init.deposit_native_fee = Nat::from(ETHER / 1000);
    }
    w.install();
    let back = w.chain.head - s.rng.below(90);
    w.add_token(0);
    let k = 1 + s.rng.below(3);
    for i in 0..k {
        w.deposit([0; 20], ETHER + i, user(i as u8));
        w.deposit(token(0).1, 1000 + i, user(i as u8));
        if s.rng.pm(500) {
            w.mine(3);
        }
    }
    w.round();
    w.round();
    let u = UpgradeArg { last_scraped_block_number: Some(Nat::from(back)), ..Default::default() };
    w.upgrade(Some(u), move |mut w| {
        for _ in 0..3 {
            w.round();
        }
        if !w.traps.is_empty() {
            s.stat("refused with a trap");
        }
        for i in 0..k as u8 {
            let (a, b) = (to(&w, w.native, user(i)), to(&w, token(0).0, user(i)));
            s.ck(a.len() <= 1 && b.len() <= 1, "logs that are read again mint nothing again", || format!("user {i}: {a:?} {b:?}"));
            if a.len() == 1 && b.len() == 1 {
                s.stat("minted before the position was set back");
            }
        }
    });
}

/// All providers agree on an answer with logs of the past, or with the same log twice.
fn repeated_logs(mut s: S) {
    let mut w = W::new();
    w.install();
    let kind = s.rng.below(3);
    let mut old: Vec<evm_rpc_types::LogEntry> = vec![];
    w.deposit([0; 20], ETHER, user(1));
    w.deposit([0; 20], 2 * ETHER, user(2));
    let mut left = 2;
    w.hook = Some(Box::new(move |w, _, r| match r {
        Req::Logs(a) => {
            let (f, t) = (tag_number(&a.from_block).unwrap_or(0), tag_number(&a.to_block).unwrap_or(0));
            let mut v: Vec<_> = w.chain.logs(f, t).filter(|(_, l)| matches_filter(a, l)).map(|(b, l)| log_entry(&w.chain, b, l)).collect();
            if left == 0 {
                return Ans::Honest;
            }
            let mine = v.clone();
            if kind == 0 && !v.is_empty() {
                v.extend(mine.clone());
                left -= 1;
            } else if kind == 1 && !old.is_empty() {
                v.extend(old.clone());
                left -= 1;
            } else if kind == 2 && !old.is_empty() {
                let mut o = old.clone();
                o.extend(v);
                v = o;
                left -= 1;
            }
            old.extend(mine);
            Ans::With(reply(evm_rpc_types::MultiRpcResult::Consistent(Ok::<_, evm_rpc_types::RpcError>(v))))
        }
        _ => Ans::Honest,
    }));
    for i in 0..5 {
        w.round();
        if i < 2 {
            w.deposit([0; 20], 3 * ETHER + i, user(3 + i as u8));
        }
    }
    // A trap cannot be rolled back here, so what follows one says nothing about liveness.
    let trapped = !w.traps.is_empty();
    if trapped {
        s.stat("refused with a trap");
    }
    for i in 1..5 {
        let a = to(&w, w.native, user(i));
        s.ck(a.len() <= 1, "a log reported again mints nothing again", || format!("user {i}, kind {kind}: {a:?}"));
        s.ck(trapped || !a.is_empty(), "deposits arrive once the providers answer correctly", || format!("user {i}, kind {kind}; {:?}", w.traps));
    }
}

/// An upgrade sets the scraping position and the next nonce.
fn cursor_and_nonce(mut s: S) {
    let mut w = W::new();
    let first = s.rng.below(50);
    w.init.next_transaction_nonce = Nat::from(first);
    w.chain.first_nonce = first;
    w.chain.endow = n(ETHER) * n(100);
    w.install();
    w.deposit([0; 20], ETHER, user(1));
    w.round();
    w.round();
    let ahead = s.rng.pm(500);
    let at = if ahead { w.chain.head - 30 + s.rng.below(30) } else { w.chain.head.saturating_sub(64 + s.rng.below(3)) };
    let nonce = if s.rng.pm(500) { first + 1 + s.rng.below(9) } else { first.saturating_sub(1 + s.rng.below(9)) };
    let (sc, sn) = (s.rng.pm(700), s.rng.pm(700));
    let before = info();
    let u = UpgradeArg {
        last_scraped_block_number: sc.then(|| Nat::from(at)),
        next_transaction_nonce: sn.then(|| Nat::from(nonce)),
        ..Default::default()
    };
    // The account on the chain has that nonce too.
    if sn {
        w.chain.first_nonce = nonce;
    }
    let seen = w.seen.len();
    w.hook = None;
    w.upgrade(Some(u), move |mut w| {
        let from = asked_from(&w, seen);
        let cursor = before.as_ref().and_then(|i| i.last_scraped_block_number.clone());
        if let (Some(f), true) = (from, sc) {
            s.ck(f == at + 1, "scraping goes on where the upgrade says", || format!("from {f}, set to {at}"));
        }
        if let (Some(f), false, Some(c)) = (from, sc, &cursor) {
            s.ck(Nat::from(f) == Nat(&c.0 + 1u8), "an upgrade without a position keeps it", || format!("from {f}, was at {c}"));
        }
        w.approve(w.native, user(1));
        let id = withdraw(&mut w, user(1), ETHER / 2);
        w.round();
        let tx = sent(&w, seen);
        if id.is_some() && !tx.is_empty() {
            let want = if sn { nonce } else { first };
            s.ck(tx.iter().all(|t| t.nonce == n(want)), "the next transaction has the nonce in force", || format!("{:?}, not {want}", tx.iter().map(|t| t.nonce.clone()).collect::<Vec<_>>()));
            s.stat("nonce in force seen");
        }
        // a second one follows
        let id = withdraw(&mut w, user(1), ETHER / 4);
        let k = w.seen.len();
        w.round();
        w.round();
        let tx = sent(&w, k);
        if id.is_some() && !tx.is_empty() {
            let want = n(if sn { nonce } else { first } + 1);
            s.ck(tx.iter().all(|t| t.nonce == want || t.nonce.clone() + 1u8 == want) && tx.iter().any(|t| t.nonce == want), "nonces go on without a gap", || format!("{:?}, not {want}", tx.iter().map(|t| t.nonce.clone()).collect::<Vec<_>>()));
        }
    });
}

struct Conf {
    min: N,
    dep: N,
    wd: N,
    lf: N,
    tag: u8,
    helper: Addr,
    prio: N,
    evm: Principal,
    cursor: N,
    /// The next upgrade comes at once and leaves the position alone.
    hold: bool,
}
/// Upgrades with any combination of arguments: each changes what it names, and only that, for ever.
fn configurations(mut s: S) {
    let mut w = W::new();
    let any = |r: &mut Rng, lf: &N| match r.below(8) {
        0 => n(0),
        1 => n(1),
        2 => n(r.below(1 << 30)),
        3 => lf - 1u8,
        4 => lf.clone(),
        5 => lf + 1u8,
        6 => r.big(200),
        _ => n(r.below(1 << 62)),
    };
    let lf = n(1 + s.rng.below(1 << 40));
    w.init.native_ledger_transfer_fee = nat(&lf);
    let min = if s.rng.pm(300) { lf.clone() } else { &lf + s.rng.big(120) };
    w.init.native_minimum_withdrawal_amount = nat(&min);
    let (dep, wd) = (any(&mut s.rng, &lf), any(&mut s.rng, &lf));
    w.init.deposit_native_fee = nat(&dep);
    w.init.withdrawal_native_fee = nat(&wd);
    let prio = any(&mut s.rng, &lf);
    w.init.min_max_priority_fee_per_gas = nat(&prio);
    let base = 1000 + s.rng.below(4000);
    w.init.last_scraped_block_number = Nat::from(base);
    w.chain.head = base + 100;
    w.install();
    w.mine(70);
    let k = s.rng.below(6) + 2;
    let evm = Principal::from_text("sosge-5iaaa-aaaag-alcla-cai").unwrap();
    let c = Conf { min, dep, wd, lf, tag: 2, helper: w.chain.helpers[0], prio, evm, cursor: n(0), hold: false };
    conf_check(&s, &mut w, &c, true);
    conf_step(s, w, c, k);
}
fn conf_check(s: &S, w: &mut W, c: &Conf, fresh: bool) {
    let Some(i) = info() else { return s.stat("no information") };
    let opt = |x: &N| (*x != n(0)).then(|| nat(x));
    let tag = |t: &Option<ep::CandidBlockTag>| match t {
        Some(ep::CandidBlockTag::Latest) => 0u8,
        Some(ep::CandidBlockTag::Safe) => 1,
        Some(ep::CandidBlockTag::Finalized) => 2,
        None => 9,
    };
    s.ck(i.minimum_withdrawal_amount == Some(nat(&c.min)), "the minimum is as configured", || format!("{:?}, not {}", i.minimum_withdrawal_amount, c.min));
    s.ck(i.deposit_native_fee == opt(&c.dep), "the deposit fee is as configured", || format!("{:?}, not {}", i.deposit_native_fee, c.dep));
    s.ck(i.withdrawal_native_fee == opt(&c.wd), "the withdrawal fee is as configured", || format!("{:?}, not {}", i.withdrawal_native_fee, c.wd));
    s.ck(tag(&i.block_height) == c.tag, "the block tag is as configured", || format!("{:?}, not {}", i.block_height, c.tag));
    s.ck(i.helper_smart_contract_address == Some(eip55(&c.helper)), "the helper contract is as configured", || format!("{:?}, not {}", i.helper_smart_contract_address, h0x(&c.helper)));
    s.ck(i.native_twin_token_ledger_id == Some(w.native), "the ledger is as configured", || format!("{:?}", i.native_twin_token_ledger_id));
    if !fresh {
        s.ck(i.last_scraped_block_number == Some(nat(&c.cursor)), "the position is kept", || format!("{:?}, not {}", i.last_scraped_block_number, c.cursor));
    }
    s.stat("configurations compared");
}
/// Perhaps the providers give no logs, or none after the first few requests.
fn failing(s: &mut S, w: &mut W) {
    let fails = s.rng.pm(500);
    let mut served = if s.rng.pm(500) { 0 } else { 1 + s.rng.below(2) };
    w.hook = fails.then(|| {
        Box::new(move |_: &mut W, _: u64, r: &Req| match r {
            Req::Logs(_) if served == 0 => reject(),
            Req::Logs(_) => {
                served -= 1;
                Ans::Honest
            }
            _ => Ans::Honest,
        }) as _
    });
}
fn conf_step(mut s: S, mut w: W, mut c: Conf, left: u64) {
    if left == 0 {
        return;
    }
    // some way on, perhaps with failures
    w.mine(s.rng.below(90));
    failing(&mut s, &mut w);
    // (what an upgrade in the middle of the way back finds is looked at, too)
    if !c.hold && s.rng.pm(600) {
        w.tick(660);
    }
    w.hook = None;
    c.cursor = info().and_then(|i| i.last_scraped_block_number).map(|x| x.0).unwrap_or_default();
    let mut u = UpgradeArg::default();
    let some = s.rng.pm(850);
    if some {
        let r = &mut s.rng;
        let lf = if r.pm(300) { n(1 + r.below(1 << 40)) } else { c.lf.clone() };
        if lf != c.lf {
            u.native_ledger_transfer_fee = Some(nat(&lf));
            c.lf = lf.clone();
        }
        if r.pm(300) || c.min < lf {
            c.min = if r.pm(300) { lf.clone() } else { &lf + r.big(120) };
            u.native_minimum_withdrawal_amount = Some(nat(&c.min));
        }
        let any = |r: &mut Rng| match r.below(8) {
            0 => n(0),
            1 => n(1),
            2 => n(r.below(1 << 30)),
            3 => &lf - 1u8,
            4 => lf.clone(),
            5 => &lf + 1u8,
            6 => r.big(200),
            _ => n(r.below(1 << 62)),
        };
        if r.pm(400) {
            c.dep = any(r);
            u.deposit_native_fee = Some(nat(&c.dep));
        }
        if r.pm(400) {
            c.wd = any(r);
            u.withdrawal_native_fee = Some(nat(&c.wd));
        }
        if r.pm(300) {
            c.prio = any(r);
            u.min_max_priority_fee_per_gas = Some(nat(&c.prio));
        }
        if r.pm(300) {
            c.tag = r.below(3) as u8;
            u.block_height = Some([ep::CandidBlockTag::Latest, ep::CandidBlockTag::Safe, ep::CandidBlockTag::Finalized][c.tag as usize].clone());
        }
        if r.pm(300) {
            c.helper = [r.range(1, 255) as u8; 20];
            u.helper_contract_address = Some(if r.pm(500) { h0x(&c.helper) } else { eip55(&c.helper) });
        }
        if r.pm(300) {
            c.evm = Principal::from_slice(&[0, 0, 0, 0, 9, 0, 0, r.below(200) as u8, 1]);
            u.evm_rpc_id = Some(c.evm);
        }
        if !c.hold && r.pm(300) {
            let top = if r.pm(500) { w.chain.head / 3 } else { w.chain.head + 10 };
            c.cursor = n(r.below(top));
            u.last_scraped_block_number = Some(nat(&c.cursor));
        }
        if r.pm(300) {
            u.next_transaction_nonce = Some(nat(&r.big(64)));
        }
    }
    let k = w.seen.len();
    // nothing is answered until the comparison is done
    let cursor = c.cursor.clone();
    w.upgrade_quietly((some || s.rng.pm(500)).then_some(u), move |mut w| {
        conf_check(&s, &mut w, &c, false);
        failing(&mut s, &mut w);
        c.hold = !c.hold && w.hook.is_some();
        let calls: Vec<(Principal, Req)> = w.tick_seen();
        w.hook = None;
        for (to, r) in &calls {
            match r {
                Req::Block(t) => {
                    let got = match t {
                        evm_rpc_types::BlockTag::Latest => 0,
                        evm_rpc_types::BlockTag::Safe => 1,
                        evm_rpc_types::BlockTag::Finalized => 2,
                        _ => 9,
                    };
                    s.ck(got == c.tag && *to == c.evm, "the configured block is asked of the configured canister", || format!("{t:?} of {to}, not {} of {}", c.tag, c.evm));
                }
                Req::Logs(a) => {
                    s.ck(a.addresses.iter().map(|x| x.as_ref().to_vec()).collect::<Vec<_>>() == vec![c.helper.to_vec()] && *to == c.evm, "logs are asked of the configured contract and canister", || format!("{:?} of {to}", a.addresses));
                }
                _ => {}
            }
        }
        let _ = (k, cursor);
        let e: Result<ep::Eip1559TransactionPrice, String> = query::<_, (ep::Eip1559TransactionPrice,)>("eip_1559_transaction_price", (None::<ep::Eip1559TransactionPriceArg>,)).map(|x| x.0).map_err(|e| format!("{e:?}"));
        if let Ok(e) = e {
            let want = c.prio.clone().max(n(2 * GWEI));
            s.ck(e.max_priority_fee_per_gas.0 == want, "the least priority fee is as configured", || format!("{}, not {want}", e.max_priority_fee_per_gas));
            s.stat("prices compared");
        }
        c.cursor = info().and_then(|i| i.last_scraped_block_number).map(|x| x.0).unwrap_or_default();
        conf_check(&s, &mut w, &c, false);
        conf_step(s, w, c, left - 1)
    });
}

/// More withdrawals than a batch holds cannot pay the current price; one behind them can.
fn poor_queue(mut s: S) {
    let mut w = W::new();
    w.chain.endow = n(ETHER) * n(100);
    w.install();
    let poor = 5 + s.rng.below(16);
    let rich = 200u8;
    for i in 0..poor {
        w.deposit([0; 20], ETHER / 50, user(i as u8));
    }
    w.deposit([0; 20], 40 * (ETHER / 4), user(rich));
    w.round();
    w.round();
    // 21000 gas at 500 Gwei: more than a hundredth of an ether
    w.fee_history = Some((vec![500 * GWEI; 6], vec![2 * GWEI; 6]));
    let mut ids = vec![];
    let mid = s.rng.below(poor + 1);
    let mut rich_id = None;
    for i in 0..=poor {
        if i == mid.max(poor.min(5)) || (i == poor && rich_id.is_none()) {
            w.approve(w.native, user(rich));
            rich_id = withdraw(&mut w, user(rich), ETHER);
        }
        if i < poor {
            w.approve(w.native, user(i as u8));
            ids.push(withdraw(&mut w, user(i as u8), ETHER / 100));
        }
    }
    let k = w.seen.len();
    for _ in 0..30 {
        w.mine(2);
        w.tick(60);
    }
    if ids.iter().filter(|i| i.is_some()).count() as u64 == poor && rich_id.is_some() {
        let tx = sent(&w, 0);
        let _ = k;
        s.ck(tx.iter().any(|t| t.value > n(ETHER / 2)), "a withdrawal that can pay is not held up by those that cannot", || format!("{poor} before it; sent: {:?}", tx.iter().map(|t| (t.nonce.clone(), t.value.clone())).collect::<Vec<_>>()));
        // and the others go out when the price allows
        w.fee_history = Some((vec![20 * GWEI; 6], vec![2 * GWEI; 6]));
        for _ in 0..40 {
            w.mine(2);
            w.tick(60);
        }
        let tx = sent(&w, 0);
        let mut ns: Vec<N> = tx.iter().map(|t| t.nonce.clone()).collect();
        ns.sort();
        ns.dedup();
        s.ck(ns.len() as u64 == poor + 1, "every withdrawal goes out once it can pay", || format!("{} of {}", ns.len(), poor + 1));
    } else {
        s.stat("poor queue not set up");
    }
}

/// The price rises while transactions wait: each is replaced in time and one of its versions is mined.
fn rising(mut s: S) {
    let mut w = W::new();
    w.chain.endow = n(ETHER) * n(100);
    w.install();
    w.add_token(0);
    w.deposit([0; 20], ETHER, user(1));
    w.deposit([0; 20], ETHER, user(2));
    w.deposit(token(0).1, 1_000_000, user(2));
    w.round();
    w.round();
    for i in 1..3 {
        w.approve(w.native, user(i));
    }
    w.approve(token(0).0, user(2));
    w.fee_history = Some((vec![20 * GWEI; 6], vec![2 * GWEI; 6]));
    let a = withdraw(&mut w, user(1), ETHER / 2);
    let b = withdraw_erc20(&mut w, user(2), 0, 1000);
    if a.is_none() || b.is_none() {
        s.stat("rising prices not set up");
        return;
    }
    let reserved = w
        .seen
        .iter()
        .rev()
        .find_map(|r| match r {
            Req::TransferFrom(t) if t.from.owner == user(2) && t.amount.0 > n(1_000_000_000) => Some(t.amount.0.clone()),
            _ => None,
        })
        .unwrap_or_default();
    // nothing is mined: the price is above what is offered
    w.chain.min_tip = n(1000 * GWEI);
    let mut price = 20u64;
    let high = s.rng.pm(500);
    let most = if high { 2000 } else { 44 };
    let mut lost = s.rng.below(3);
    w.hook = Some(Box::new(move |_, _, r| match r {
        Req::SendRaw(_) if lost > 0 => {
            lost -= 1;
            Ans::With(Response::Reject(2, "unavailable".into()))
        }
        _ => Ans::Honest,
    }));
    for _ in 0..6 + s.rng.below(6) {
        price += if high { s.rng.below(price) } else { s.rng.below(9) };
        let p = price.min(most - 5);
        w.fee_history = Some((vec![p * GWEI; 6], vec![(2 + s.rng.below(2)) * GWEI; 6]));
        w.tick(60 + 60 * s.rng.below(3));
    }
    let p = price.min(most - 5);
    let all = sent(&w, 0);
    for nonce in [0u64, 1] {
        let mut v: Vec<&RawTx> = vec![];
        for t in all.iter().filter(|t| t.nonce == n(nonce)) {
            if v.last().map(|l| l.hash) != Some(t.hash) {
                v.push(t);
            }
        }
        s.ck(!v.is_empty(), "a withdrawal is broadcast", || format!("nonce {nonce}"));
        if v.is_empty() {
            return;
        }
        for q in v.windows(2) {
            let raise = &q[0].prio + (&q[0].prio + 9u8) / n(10);
            s.ck(q[1].prio >= raise && q[1].max_fee >= q[0].max_fee, "a replacement outbids", || format!("nonce {nonce}: {:?} then {:?}", (&q[0].prio, &q[0].max_fee), (&q[1].prio, &q[1].max_fee)));
            s.ck(q[0].to == q[1].to && q[0].data == q[1].data && q[0].gas == q[1].gas, "a replacement pays the same", || format!("nonce {nonce}"));
            s.stat("replacements seen");
        }
        let l = v.last().unwrap();
        if nonce == 1 {
            s.ck(l.max_fee.clone() * l.gas.clone() <= reserved, "the fee stays within what was reserved", || format!("{} for {}", l.max_fee, reserved));
        } else {
            for t in &v {
                s.ck(&t.value + &t.max_fee * &t.gas == n(ETHER / 2), "value and fee are what was burned", || format!("{} + {} * {}", t.value, t.max_fee, t.gas));
            }
        }
        s.ck((high && nonce == 1) || l.max_fee >= n((p + 2) * GWEI), "the latest offer covers the current price", || format!("nonce {nonce}: {} for {p}", l.max_fee));
    }
    // now what was offered last is enough, and what was offered before is not
    w.chain.min_tip = n(0);
    w.chain.fees = vec![n(p * GWEI); 6];
    for _ in 0..8 {
        w.round();
    }
    for id in [a.unwrap(), b.unwrap()].into_iter().take(if high { 1 } else { 2 }) {
        let st = w.call::<_, ep::RetrieveWithdrawalStatus>(user(1), "retrieve_witdrawal_status", (id,));
        s.ck(matches!(st, Ok(ep::RetrieveWithdrawalStatus::TxFinalized(ep::TxFinalizedStatus::Success { .. }))), "a withdrawal whose price was raised in time is finalized", || format!("{id}: {st:?}"));
    }
}

/// A transaction is replaced several times; any one of its versions is mined, also while a further one waits for its signature.
fn versions(mut s: S) {
    use std::cell::RefCell;
    use std::rc::Rc;
    let mut w = W::new();
    w.chain.endow = n(ETHER) * n(100);
    w.install();
    w.add_token(0);
    for i in 1..4 {
        w.deposit([0; 20], 2 * ETHER, user(i));
        w.deposit(token(0).1, 1_000_000, user(i));
    }
    w.round();
    w.round();
    for i in 1..4 {
        w.approve(w.native, user(i));
        w.approve(token(0).0, user(i));
    }
    w.fee_history = Some((vec![20 * GWEI; 6], vec![GWEI; 6]));
    let erc20 = s.rng.pm(300);
    let amount = ETHER / 4 + s.rng.below(ETHER);
    let before = info().and_then(|i| i.native_balance);
    let id = if erc20 { withdraw_erc20(&mut w, user(1), 0, 1000) } else { withdraw(&mut w, user(1), amount) };
    let Some(id) = id else { return s.stat("versions not set up") };
    // only one version reaches the mempool
    let want = 1 + s.rng.below(6);
    let more = s.rng.below(3);
    let unsigned = s.rng.pm(600);
    #[derive(Default)]
    struct St {
        hashes: Vec<H32>,
        block: bool,
    }
    let st: Rc<RefCell<St>> = Default::default();
    let st2 = st.clone();
    w.chain.min_tip = n(100_000 * GWEI);
    w.hook = Some(Box::new(move |_, _, r| {
        let mut st = st2.borrow_mut();
        match r {
            Req::Sign if st.block => reject(),
            Req::SendRaw(x) => {
                let t = hex::decode(x.trim_start_matches("0x")).ok().and_then(|b| decode_raw_tx(&b).ok());
                let Some(t) = t else { return Ans::Honest };
                if t.nonce != n(0) {
                    return Ans::Honest;
                }
                if !st.hashes.contains(&t.hash) {
                    st.hashes.push(t.hash);
                }
                if st.hashes.get(want as usize - 1) == Some(&t.hash) {
                    Ans::Honest
                } else {
                    Ans::With(reply(evm_rpc_types::MultiRpcResult::Consistent(Ok::<_, evm_rpc_types::RpcError>(evm_rpc_types::SendRawTransactionStatus::Ok(None)))))
                }
            }
            _ => Ans::Honest,
        }
    }));
    let mut tip = 10u64;
    for _ in 0..30 {
        w.tick(60);
        if st.borrow().hashes.len() as u64 >= want + more {
            break;
        }
        tip += 1 + tip / 5;
        w.fee_history = Some((vec![20 * GWEI; 6], vec![tip * GWEI / 10; 6]));
    }
    let made = st.borrow().hashes.len() as u64;
    if made < want {
        return s.stat("versions not set up");
    }
    if unsigned {
        // one more is created, and cannot be signed
        st.borrow_mut().block = true;
        tip += 1 + tip / 5;
        w.fee_history = Some((vec![20 * GWEI; 6], vec![tip * GWEI / 10; 6]));
        w.tick(60 + 60 * s.rng.below(4));
    }
    let mined = st.borrow().hashes[want as usize - 1];
    w.chain.min_tip = n(0);
    w.mine(1);
    if s.rng.pm(500) {
        w.tick(60 * s.rng.below(4));
    }
    w.mine(70);
    for _ in 0..3 {
        w.tick(180);
    }
    s.stat(if unsigned { "mined while a replacement is unsigned" } else { "mined among versions" });
    st.borrow_mut().block = false;
    let k = w.seen.len();
    let told = |w: &mut W| w.call::<_, ep::RetrieveWithdrawalStatus>(user(1), "retrieve_witdrawal_status", (id,));
    for late in [false, true] {
        let x = told(&mut w);
        let ok = matches!(&x, Ok(ep::RetrieveWithdrawalStatus::TxFinalized(ep::TxFinalizedStatus::Success { transaction_hash, .. })) if parse_h32(transaction_hash) == Some(mined));
        s.ck(ok, "whichever version is mined, the withdrawal is final", || format!("version {want} of {made}, {} unsigned, late {late}: {x:?}", unsigned as u8));
        if !late {
            // those that come later are not held up
            let a = withdraw(&mut w, user(2), ETHER / 3);
            let b = withdraw_erc20(&mut w, user(3), 0, 777);
            for _ in 0..6 {
                w.round();
            }
            for i in [a, b].into_iter().flatten() {
                let y = w.call::<_, ep::RetrieveWithdrawalStatus>(user(1), "retrieve_witdrawal_status", (i,));
                s.ck(matches!(y, Ok(ep::RetrieveWithdrawalStatus::TxFinalized(_))), "a withdrawal after one with many versions is final", || format!("version {want} of {made}, {} unsigned: {y:?}", unsigned as u8));
            }
        }
    }
    let again = sent(&w, k).into_iter().filter(|t| t.nonce == n(0)).count();
    s.ck(again == 0, "a final withdrawal sends nothing more", || format!("{again} sent, version {want} of {made}, {} unsigned", unsigned as u8));
    if let (Some(_), Some(now)) = (before, info().and_then(|i| i.native_balance)) {
        // the minter's deposits were 6 ether; the chain has them and what it was given to begin with
        let real = w.chain.balance(None);
        s.ck(now.0.clone() + n(ETHER) * n(100) == real, "the balance told is the balance held", || format!("{now}, really {real}"));
    }
}

/// More tokens than one would think of, registered bit by bit.
fn many_tokens(mut s: S) {
    let mut w = W::new();
    w.chain.endow = n(ETHER) * n(100);
    w.install();
    for i in 4..150u8 {
        let l = token(i).0;
        w.ledgers.insert(l, crate::ledger::Ledger::new(l, w.me, n(10), 3 * i as u64));
    }
    let most = if s.rng.pm(300) { 140 } else { 24 };
    let all = 3 + s.rng.below(most) as u8;
    many_part(s, w, 0, all);
}
fn many_part(mut s: S, mut w: W, from: u8, all: u8) {
    let step = s.rng.below(all as u64) as u8;
    let upto = (from + 1 + step).min(all);
    for i in from..upto {
        w.add_token(i);
    }
    for i in from..upto {
        w.deposit(token(i).1, 1_000_000 + i as u64, user(i % 3));
    }
    w.deposit([0; 20], ETHER + upto as u64, user(1));
    w.round();
    w.round();
    for i in 0..upto {
        let m = to(&w, token(i).0, user(i % 3));
        let v = n(1_000_000 + i as u64);
        s.ck(m == vec![v.clone()], "each of many tokens is minted", || format!("token {i} of {upto}: {m:?}, not {v}"));
        s.ck(w.mints(token(i).0).len() == 1, "each of many tokens is minted to its depositor only", || format!("token {i} of {upto}: {:?}", w.mints(token(i).0)));
    }
    s.stat("tokens minted");
    if upto < all {
        if s.rng.pm(400) {
            return w.upgrade(None, move |w| many_part(s, w, upto, all));
        }
        return many_part(s, w, upto, all);
    }
    if let Some(i) = info() {
        let mut got: Vec<(String, Principal, String)> = i.supported_erc20_tokens.unwrap_or_default().into_iter().map(|t| (t.erc20_contract_address.to_lowercase(), t.ledger_canister_id, t.erc20_token_symbol)).collect();
        let mut want: Vec<(String, Principal, String)> = (0..all).map(|i| (h0x(&token(i).1), token(i).0, token(i).2)).collect();
        got.sort();
        want.sort();
        s.ck(got == want, "every token is listed", || format!("{} listed, {} registered: {got:?}", got.len(), want.len()));
        let mut got: Vec<(String, N)> = i.erc20_balances.unwrap_or_default().into_iter().map(|b| (b.erc20_contract_address.to_lowercase(), b.balance.0)).collect();
        let mut want: Vec<(String, N)> = (0..all).map(|i| (h0x(&token(i).1), n(1_000_000 + i as u64))).collect();
        got.sort();
        want.sort();
        s.ck(got == want, "every token's balance is listed", || format!("{got:?}"));
    }
    w.approve(w.native, user(1));
    let mine: Vec<u8> = (0..all).filter(|i| i % 3 == 1).collect();
    for _ in 0..1 + s.rng.below(4) {
        let i = *s.rng.pick(&mine);
        w.approve(token(i).0, user(1));
        let k = w.seen.len();
        let v = 100 + s.rng.below(1000);
        let Some(id) = withdraw_erc20(&mut w, user(1), i, v) else {
            s.stat("withdrawal of one of many tokens refused");
            continue;
        };
        for _ in 0..3 {
            w.round();
        }
        let tx = sent(&w, k);
        let ok = !tx.is_empty() && tx.iter().all(|t| t.to == token(i).1 && t.data.len() == 68 && N::from_bytes_be(&t.data[36..68]) == n(v));
        s.ck(ok, "one of many tokens is paid out", || format!("token {i} of {all}, withdrawal {id} of {v}: {:?}", tx.iter().map(|t| (h0x(&t.to), hex::encode(&t.data))).collect::<Vec<_>>()));
        s.stat("one of many tokens withdrawn");
    }
}

/// A minter installed before its helper contract exists.
fn no_helper(mut s: S) {
    let mut w = W::new();
    w.init.helper_contract_address = None;
    w.install();
    let told = |w: &W| w.seen.iter().filter(|r| matches!(r, Req::Lsm)).count();
    s.ck(told(&w) == 1, "announced once without a helper contract", || format!("{} times", told(&w)));
    let Some(i) = info() else { return s.stat("no information") };
    s.ck(i.helper_smart_contract_address.is_none(), "no helper contract is told", || format!("{:?}", i.helper_smart_contract_address));
    let a: Result<String, String> = w.call(user(0), "minter_address", ());
    s.ck(a.as_ref().ok().and_then(|a| parse_addr(a)) == Some(w.chain.minter), "the address is told without a helper contract", || format!("{a:?}"));
    if s.rng.pm(500) {
        w.add_token(0);
    }
    for _ in 0..s.rng.below(3) {
        w.round();
    }
    let logs = w.seen.iter().filter(|r| matches!(r, Req::Logs(_))).count();
    s.ck(logs == 0, "no logs are read without a helper contract", || format!("{logs} requests"));
    let h = [s.rng.range(1, 255) as u8; 20];
    w.chain.helpers = vec![h];
    let u = UpgradeArg { helper_contract_address: Some(eip55(&h)), ..Default::default() };
    w.upgrade(Some(u), move |mut w| {
        let Some(i) = info() else { return s.stat("no information") };
        s.ck(i.helper_smart_contract_address == Some(eip55(&h)), "the helper contract is as configured", || format!("{:?}, not {}", i.helper_smart_contract_address, h0x(&h)));
        let v = ETHER + s.rng.below(1000);
        w.deposit([0; 20], v, user(2));
        w.round();
        w.round();
        let m = to(&w, w.native, user(2));
        s.ck(m == vec![n(v)], "deposits to a helper contract that came later are minted", || format!("{m:?}, not {v}"));
        s.ck(told(&w) == 1, "announced once without a helper contract", || format!("{} times", told(&w)));
        s.stat("helper contract set later");
    });
}

/// As many withdrawals as are allowed wait or run: those turned away can come back once there is room.
fn caps(mut s: S) {
    let mut w = W::new();
    w.chain.endow = n(ETHER) * n(100);
    w.install();
    let all = 104 + s.rng.below(20);
    for i in 0..all {
        w.deposit([0; 20], ETHER / 2, user(i as u8));
    }
    w.round();
    w.round();
    for i in 0..all {
        w.approve(w.native, user(i as u8));
    }
    let arg = || ep::WithdrawalArg { amount: Nat::from(ETHER / 10), recipient: h0x(&[0x55; 20]) };
    type R = Result<ep::RetrieveNativeRequest, ep::WithdrawalError>;
    let queued = s.rng.pm(500);
    let mut away = vec![];
    if queued {
        // no price is known for long: the queue fills
        w.hook = Some(Box::new(|_, _, r| if matches!(r, Req::FeeHist(_)) { reject() } else { Ans::Honest }));
        w.tick(120);
        let mut inside = 0;
        for i in 0..all {
            match w.call::<_, R>(user(i as u8), "withdraw_native_token", (arg(),)) {
                Ok(Ok(_)) => inside += 1,
                _ => away.push(i as u8),
            }
        }
        s.ck(inside <= 100, "no more withdrawals wait than are allowed", || format!("{inside}"));
        if away.is_empty() {
            s.stat("caps not reached");
        }
        w.hook = None;
        for _ in 0..30 {
            w.mine(40);
            w.tick(180);
        }
    } else {
        let cs: Vec<(u8, u64)> = (0..all).map(|i| (i as u8, w.start(user(i as u8), "withdraw_native_token", (arg(),)))).collect();
        let inside = w.pend.len();
        s.ck(inside <= 100, "no more withdrawals run than are allowed", || format!("{inside}"));
        w.settle();
        for (i, c) in cs {
            if !matches!(w.answer::<R>(c), Ok(Ok(_))) {
                away.push(i);
            }
        }
        for _ in 0..30 {
            w.mine(40);
            w.tick(180);
        }
    }
    s.stat(if queued { "queue filled" } else { "calls filled" });
    for u in away {
        let r = w.call::<_, R>(user(u), "withdraw_native_token", (arg(),));
        s.ck(matches!(r, Ok(Ok(_))), "who was turned away can come back", || format!("{u} (queued: {queued}): {r:?}"));
        w.mine(40);
        w.tick(60);
    }
    // and so can all the others
    for u in [0u8, 1, 50] {
        let r = w.call::<_, R>(user(u), "withdraw_native_token", (arg(),));
        s.ck(matches!(r, Ok(Ok(_))), "who was served can come back", || format!("{u} (queued: {queued}): {r:?}"));
    }
}

fn events() -> Vec<ep::events::Event> {
    let mut v = vec![];
    while let Ok((r,)) = query::<_, (ep::events::GetEventsResult,)>("get_events", (ep::events::GetEventsArg { start: v.len() as u64, length: 100 },)) {
        if r.events.is_empty() {
            break;
        }
        v.extend(r.events);
    }
    v
}
fn num(x: &Nat) -> u64 {
    x.0.clone().try_into().unwrap_or(u64::MAX)
}
fn reimbursed_id(memo: &Option<Vec<u8>>) -> Option<u64> {
    match decode_memo(memo.as_ref()?, true)? {
        Memo::ReimburseTx { id, .. } | Memo::Reimburse { id } => Some(id),
        _ => None,
    }
}
fn reimb(w: &W, l: Principal, id: u64) -> Vec<(usize, Principal, N)> {
    let b = &w.ledgers[&l].blocks;
    b.iter()
        .enumerate()
        .filter_map(|(i, b)| match b.kind {
            crate::ledger::BlockKind::Mint { to } if reimbursed_id(&b.memo) == Some(id) => Some((i + w.ledgers[&l].base as usize, to.owner, b.amount.clone())),
            _ => None,
        })
        .collect()
}

/// Withdrawals fail on the chain; the mints that return the funds fail, succeed, or succeed while the minter traps.
fn reimbursements(mut s: S) {
    use ep::events::{EventPayload as E, ReimbursementIndex as I};
    let mut w = W::new();
    w.chain.endow = n(ETHER) * n(100);
    w.install();
    w.add_token(0);
    for i in 1..4 {
        w.deposit([0; 20], ETHER, user(i));
        w.deposit(token(0).1, 1_000_000, user(i));
    }
    w.round();
    w.round();
    w.chain.fail_pm = 1000;
    // (id, ledger, index of the token's burn)
    let mut ids: Vec<(u64, Principal, Principal, N, Option<Nat>)> = vec![];
    for i in 1..4u8 {
        w.approve(w.native, user(i));
        w.approve(token(0).0, user(i));
        if s.rng.pm(600) {
            let a = ETHER / 4 + i as u64;
            if let Some(id) = withdraw(&mut w, user(i), a) {
                ids.push((id, w.native, user(i), n(a), None));
            }
        }
        if s.rng.pm(600) {
            let amount = 1000 + i as u64;
            let a = ep::WithdrawErc20Arg { amount: Nat::from(amount), erc20_ledger_id: token(0).0, recipient: h0x(&[0x56; 20]) };
            let r: Result<Result<ep::RetrieveErc20Request, ep::WithdrawErc20Error>, String> = w.call(user(i), "withdraw_erc20", (a,));
            if let Ok(Ok(r)) = r {
                let id: u64 = r.native_block_index.0.try_into().unwrap_or(0);
                ids.push((id, token(0).0, user(i), n(amount), Some(r.erc20_block_index)));
            }
        }
    }
    let trap = (s.rng.pm(600) && !ids.is_empty()).then(|| s.rng.pick(&ids).clone());
    let (trap, trap_memo) = (trap.as_ref().map(|t| t.0), trap.map(|t| t.4.as_ref().map_or(t.0, num)));
    let mut fails = s.rng.below(4);
    let kind = s.rng.below(2);
    w.hook = Some(Box::new(move |_, _, r| match r {
        Req::Transfer(a) => match reimbursed_id(&a.memo.as_ref().map(|m| m.0.to_vec())) {
            Some(_) if fails > 0 => {
                fails -= 1;
                if kind == 0 {
                    reject()
                } else {
                    Ans::With(reply(Err::<Nat, _>(icrc_ledger_types::icrc1::transfer::TransferError::TemporarilyUnavailable)))
                }
            }
            Some(id) if Some(id) == trap_memo => Ans::ThenTrap,
            _ => Ans::Honest,
        },
        _ => Ans::Honest,
    }));
    for _ in 0..6 {
        w.round();
    }
    let upgrade = s.rng.pm(500);
    let fin = move |mut w: W| {
        for _ in 0..2 {
            w.round();
        }
        let ev = events();
        for (id, l, who, asked, burn) in &ids {
            // the memo names the burn that is made good
            let m = reimb(&w, *l, burn.as_ref().map_or(*id, num));
            s.ck(m.len() <= 1, "at most one reimbursement", || format!("{id}: {m:?}, trap at {trap:?}"));
            s.ck(!m.is_empty(), "a failed withdrawal is reimbursed once the ledger answers", || format!("{id}, trap at {trap:?}: {:?}; {:?}", w.call::<_, ep::RetrieveWithdrawalStatus>(user(1), "retrieve_witdrawal_status", (*id,)), w.traps));
            s.ck(m.iter().all(|x| x.1 == *who && x.2 <= *asked && (*l == w.native || x.2 == *asked)), "the reimbursement goes to who burned", || format!("{id}: {m:?}, {asked} by {who}"));
            let st = w.call::<_, ep::RetrieveWithdrawalStatus>(user(1), "retrieve_witdrawal_status", (*id,));
            let quarantined: Vec<&I> = ev.iter().filter_map(|e| match &e.payload { E::QuarantinedReimbursement { index } => Some(index), _ => None }).filter(|i| match i {
                I::Native { ledger_burn_index } => *ledger_burn_index == Nat::from(*id),
                I::Erc20 { native_ledger_burn_index, .. } => *native_ledger_burn_index == Nat::from(*id),
            }).collect();
            if Some(*id) == trap {
                s.stat(if burn.is_some() { "token reimbursement quarantined" } else { "native reimbursement quarantined" });
                let want = match burn {
                    None => I::Native { ledger_burn_index: Nat::from(*id) },
                    Some(b) => I::Erc20 { native_ledger_burn_index: Nat::from(*id), ledger_id: *l, erc20_ledger_burn_index: b.clone() },
                };
                s.ck(quarantined == vec![&want], "the log names what was quarantined", || format!("{quarantined:?}, not {want:?}"));
            } else if let Some((b, _, a)) = m.first() {
                s.ck(quarantined.is_empty(), "nothing else is quarantined", || format!("{quarantined:?}"));
                let ok = matches!(&st, Ok(ep::RetrieveWithdrawalStatus::TxFinalized(ep::TxFinalizedStatus::Reimbursed { reimbursed_amount, reimbursed_in_block, .. })) if reimbursed_amount.0 == *a && *reimbursed_in_block == Nat::from(*b));
                s.ck(ok, "the status names the reimbursement", || format!("{id}: {st:?}, minted {a} in {b}"));
                s.stat("reimbursed");
            }
        }
    };
    if upgrade {
        w.upgrade(None, fin);
    } else {
        fin(w);
    }
}

/// Deposits whose mints failed, or that were behind one whose mint trapped, with no deposit after them.
fn waiting_mints(mut s: S) {
    let mut w = W::new();
    if s.rng.pm(300) {
        w.init.deposit_native_fee = Nat::from(ETHER / 1000);
    }
    w.install();
    w.add_token(0);
    let mut dep: Vec<(Principal, Principal)> = vec![];
    for i in 1..4u8 {
        if s.rng.pm(700) {
            w.deposit([0; 20], ETHER, user(i));
            dep.push((w.native, user(i)));
        }
        if s.rng.pm(700) {
            w.deposit(token(0).1, 1_000_000, user(i));
            dep.push((token(0).0, user(i)));
        }
    }
    if dep.is_empty() {
        return;
    }
    // the mint (counted from 0) that ends badly, and how
    let bad = s.rng.below(dep.len() as u64);
    let kind = s.rng.below(4);
    let fails = if kind < 2 { 1000 } else { s.rng.below(2) * s.rng.below(10) };
    let mut k = 0u64;
    let hit = Arc::new(Mutex::new(None));
    let h2 = hit.clone();
    let me = w.me;
    w.hook = Some(Box::new(move |_, to, r| match r {
        Req::Transfer(a) if a.to.owner != me => {
            let i = k;
            k += 1;
            let _ = to;
            if i < fails {
                return if kind & 1 == 0 { reject() } else { Ans::With(reply(Err::<Nat, _>(icrc_ledger_types::icrc1::transfer::TransferError::TemporarilyUnavailable))) };
            }
            if kind >= 2 && i == fails + bad {
                *h2.lock().unwrap() = Some(a.to.owner);
                return if kind == 2 { Ans::ThenTrap } else { Ans::With(reply(Ok::<Nat, icrc_ledger_types::icrc1::transfer::TransferError>(Nat(n(1) << 64u32)))) };
            }
            Ans::Honest
        }
        _ => Ans::Honest,
    }));
    w.round();
    if kind >= 2 {
        w.round();
    }
    w.hook = None;
    let fin = move |mut w: W| {
        for _ in 0..2 {
            w.round();
        }
        let trapped = hit.lock().unwrap().clone();
        let mut missing = vec![];
        for (l, u) in &dep {
            let m = to(&w, *l, *u);
            s.ck(m.len() <= 1, "a deposit that waited is minted once", || format!("{u}: {m:?}"));
            if m.is_empty() {
                missing.push((*l, *u));
            }
        }
        // what a trap left unknown stays as it was
        let may = usize::from(kind == 3 && trapped.is_some());
        let text = ["rejected mints", "refused mints", "a trap", "an impossible answer"][kind as usize];
        s.ck(missing.len() <= may, &format!("deposits are minted after {text}, without another deposit"), || format!("{} of {} missing: {missing:?}", missing.len(), dep.len()));
        s.ck(missing.iter().all(|m| may == 0 || Some(m.1) == trapped), "only the deposit that trapped is left", || format!("{missing:?}, trapped {trapped:?}"));
        s.stat(&format!("deposits waited after {text}"));
    };
    if s_upgrade(bad, kind, fails) {
        w.upgrade(None, fin);
    } else {
        fin(w);
    }
}
fn s_upgrade(a: u64, b: u64, c: u64) -> bool {
    keccak(&[a as u8, b as u8, c as u8])[0] & 1 == 0
}

/// One ledger fails for ever; the others' tokens do not wait for it.
fn stuck_ledger(mut s: S) {
    let mut w = W::new();
    w.chain.endow = n(ETHER) * n(100);
    w.install();
    for i in 0..3 {
        w.add_token(i);
    }
    let all = [w.native, token(0).0, token(1).0, token(2).0];
    let addr = |i: usize| if i == 0 { [0; 20] } else { token(i as u8 - 1).1 };
    let stuck = s.rng.below(4) as usize;
    let kind = s.rng.below(2);
    let refuse = move |kind: u64| if kind == 0 { reject() } else { Ans::With(reply(Err::<Nat, _>(icrc_ledger_types::icrc1::transfer::TransferError::TemporarilyUnavailable))) };
    let hook = move || -> Box<dyn FnMut(&mut W, u64, &Req) -> Ans> {
        Box::new(move |w: &mut W, _: u64, r: &Req| match r {
            Req::Transfer(_) if w.callee == all[stuck] => refuse(kind),
            _ => Ans::Honest,
        })
    };
    if s.prop == "C03" {
        w.hook = Some(hook());
        for u in 1..4u8 {
            for i in 0..4 {
                w.deposit(addr(i), 1_000_000 + i as u64, user(u));
            }
        }
        for _ in 0..2 {
            w.round();
        }
        for u in 1..4u8 {
            for i in 0..4 {
                let m = to(&w, all[i], user(u)).len();
                s.ck(m == usize::from(i != stuck), "a ledger that fails delays only its own tokens' deposits", || format!("ledger {i}: {m} mints, ledger {stuck} fails"));
            }
        }
        w.hook = None;
        for _ in 0..2 {
            w.round();
        }
        for u in 1..4u8 {
            let m = to(&w, all[stuck], user(u)).len();
            s.ck(m == 1, "deposits are minted once their ledger answers again", || format!("{m} mints"));
        }
        s.stat("mints with one ledger failing");
        return;
    }
    for u in 1..5u8 {
        w.deposit([0; 20], ETHER, user(u));
        w.approve(w.native, user(u));
        for i in 0..3 {
            w.deposit(token(i).1, 1_000_000, user(u));
            w.approve(token(i).0, user(u));
        }
    }
    w.round();
    w.round();
    w.chain.fail_pm = 1000;
    // (ledger, burn)
    let mut due: Vec<(usize, u64)> = vec![];
    for u in 1..5u8 {
        let i = s.rng.below(4) as usize;
        if i == 0 {
            if let Some(id) = withdraw(&mut w, user(u), ETHER / 4 + u as u64) {
                due.push((0, id));
            }
        } else {
            let a = ep::WithdrawErc20Arg { amount: Nat::from(1000 + u as u64), erc20_ledger_id: all[i], recipient: h0x(&[0x56; 20]) };
            let r: Result<Result<ep::RetrieveErc20Request, ep::WithdrawErc20Error>, String> = w.call(user(u), "withdraw_erc20", (a,));
            if let Ok(Ok(r)) = r {
                due.push((i, num(&r.erc20_block_index)));
            }
        }
    }
    w.hook = Some(hook());
    for _ in 0..4 {
        w.round();
    }
    for (i, b) in &due {
        let m = reimb(&w, all[*i], *b).len();
        s.ck(m == usize::from(*i != stuck), "a ledger that fails delays only its own reimbursements", || format!("ledger {i}: {m} for burn {b}, ledger {stuck} fails, due {due:?}"));
    }
    w.hook = None;
    for _ in 0..2 {
        w.round();
    }
    for (i, b) in &due {
        let m = reimb(&w, all[*i], *b).len();
        s.ck(m == 1, "every reimbursement is paid once the ledger answers again", || format!("ledger {i}: {m} for burn {b}"));
    }
    s.stat("reimbursements with one ledger failing");
}

/// Every declared method, called with any values of its declared types in the middle of ordinary work.
fn declared(mut s: S) {
    let mut w = W::new();
    w.chain.endow = n(ETHER) * n(100);
    w.chain.fail_pm = 300;
    w.install();
    for i in 0..3 {
        w.add_token(i);
    }
    for u in 1..6u8 {
        w.deposit([0; 20], ETHER, user(u));
        w.approve(w.native, user(u));
        for i in 0..3 {
            w.deposit(token(i).1, 1_000_000, user(u));
            w.approve(token(i).0, user(u));
        }
    }
    w.round();
    w.round();
    for step in 0..10u8 {
        if step % 3 == 0 {
            withdraw(&mut w, user(1 + step % 5), ETHER / 10 + step as u64);
            withdraw_erc20(&mut w, user(1 + step % 5), step % 3, 1000);
        }
        for (name, m) in &crate::iface::get().methods {
            let arg = crate::iface::request_of(&m.args, &mut s.rng);
            let who = *s.rng.pick(&[user(1), user(60), w.lsm, Principal::anonymous()]);
            let text = if m.query {
                crate::canister::message("canister_query", name, u64::MAX, &who, arg.clone()).trap
            } else {
                let c = w.start_raw(who, name, arg.clone());
                for _ in 0..s.rng.below(4) {
                    w.one();
                }
                match w.replies.get(&c) {
                    Some(Response::Reject(_, t)) => Some(t.clone()),
                    _ => None,
                }
            };
            let bad = text.as_ref().map_or(false, |t| t.contains("failed to decode call arguments") || t.contains("no such entry point"));
            s.ck(!bad, "any values of the declared types are understood", || format!("{name} with {}: {text:?}", hex::encode(&arg)));
            s.stat(&format!("called {name}{}", if text.is_some() && m.query { ", refused" } else { "" }));
        }
        w.settle();
        let st = crate::rpc::any_status(&mut s.rng);
        let st2 = st.clone();
        w.hook = Some(Box::new(move |_, _, r| match r {
            Req::Status => Ans::With(reply(st2.clone())),
            _ => Ans::Honest,
        }));
        let r: Result<crate::rpc::StatusReply, String> = w.call(user(1), "get_canister_status", ());
        w.hook = None;
        s.ck(r.as_ref() == Ok(&st), "the canister's status is passed on", || format!("{r:?}, not {st:?}"));
        w.round();
    }
    for _ in 0..20 {
        let arg = crate::iface::request_of(&crate::iface::get().init, &mut s.rng);
        for kind in ["canister_init", "canister_post_upgrade"] {
            let a = arg.clone();
            let t = std::thread::spawn(move || crate::canister::message(kind, "", 0, &user(99), a).trap).join().unwrap_or_default();
            let bad = t.as_ref().map_or(false, |t| t.contains("failed to decode call arguments"));
            s.ck(!bad, "any values of the declared types are understood", || format!("{kind} with {}: {t:?}", hex::encode(&arg)));
            s.stat(&format!("tried {kind}{}", if t.is_some() { ", refused" } else { "" }));
        }
    }
}

/// The swap canister may ask for a deposit check, nobody else may, and not while one is under way.
fn swap(mut s: S) {
    let mut w = W::new();
    w.install();
    let boss = user(50);
    // before one is configured
    let r: Result<(), String> = w.call(boss, "check_new_deposits", ());
    s.ck(r.is_err(), "no deposit check without a swap canister", || "accepted".into());
    if !crate::wb::set_swap(boss) {
        s.stat("swap canister not set up");
        return;
    }
    w.deposit([0; 20], ETHER, user(1));
    w.mine(70);
    let k = w.seen.len();
    let stranger = *s.rng.pick(&[user(1), user(51), Principal::anonymous(), w.me, w.lsm, w.native, user(99)]);
    w.start(stranger, "check_new_deposits", ());
    w.settle();
    s.ck(w.seen.len() == k, "only the swap canister forces a deposit check", || format!("{stranger} caused {} calls", w.seen.len() - k));
    let none = to(&w, w.native, user(1));
    s.ck(none.is_empty(), "only the swap canister forces a deposit check", || format!("{stranger}: {none:?}"));
    let c = w.start(boss, "check_new_deposits", ());
    let p = w.pend.len();
    for _ in 0..s.rng.below(3) {
        w.one();
    }
    let (p0, k0) = (w.pend.len(), w.seen.len());
    if p0 > 0 {
        w.start(boss, "check_new_deposits", ());
        s.ck(w.pend.len() == p0, "one scrape at a time", || format!("{} calls beside {p0}", w.pend.len() - p0));
    }
    let _ = (p, k0);
    w.settle();
    s.ck(matches!(w.replies.get(&c), Some(Response::Reply(_))), "the swap canister is answered", || format!("{:?}", w.replies.get(&c)));
    s.ck(w.seen[k..].iter().any(|r| matches!(r, Req::Logs(_))), "the swap canister forces a deposit check", || "no logs were asked for".into());
    s.stat("swap canister checked");
}

/// More than a thousand withdrawals, one after another, with an upgrade in between.
fn long_history(mut s: S) {
    let mut w = W::new();
    w.chain.endow = n(ETHER) * n(1000);
    let fail = s.rng.pm(500);
    w.install();
    w.add_token(0);
    let users = 40u64;
    for i in 0..users {
        for _ in 0..2 {
            w.deposit([0; 20], 15 * ETHER, user(i as u8));
        }
        w.deposit(token(0).1, ETHER, user(i as u8));
    }
    w.round();
    w.round();
    if fail {
        w.chain.fail_pm = 30;
    }
    let total = 1010 + s.rng.below(30);
    let cut = s.rng.range(40, total - 40);
    let mut ids = vec![];
    long_part(&mut s, &mut w, &mut ids, cut, users);
    let before = events().len();
    w.upgrade(None, move |mut w| {
        let mut s = s;
        let e = events();
        s.ck(e.len() == before + 1, "an upgrade keeps the log and adds its position", || format!("{before} then {}", e.len()));
        long_part(&mut s, &mut w, &mut ids, total, users);
        // more than enough time for the rest
        for _ in 0..12 {
            w.round();
        }
        let mut late = vec![];
        for id in &ids {
            match w.call::<_, ep::RetrieveWithdrawalStatus>(user(1), "retrieve_witdrawal_status", (*id,)) {
                Ok(ep::RetrieveWithdrawalStatus::TxFinalized(_)) => {}
                x => late.push(format!("{id}: {x:?}")),
            }
        }
        s.ck(late.is_empty(), "every one of many withdrawals becomes final", || format!("{} of {} not final, the first {:?}", late.len(), ids.len(), late.first()));
        let tx = sent(&w, 0);
        let mut ns: Vec<N> = tx.iter().map(|t| t.nonce.clone()).collect();
        ns.sort();
        ns.dedup();
        s.ck(ns.len() == ids.len() && ns.first() == Some(&n(0)) && ns.last() == Some(&n(ids.len() as u64 - 1)), "many withdrawals use the nonces one by one", || {
            format!("{} withdrawals, {} nonces from {:?} to {:?}", ids.len(), ns.len(), ns.first(), ns.last())
        });
        let e = events();
        let count = |f: fn(&ep::events::EventPayload) -> bool| e.iter().filter(|x| f(&x.payload)).count();
        use ep::events::EventPayload as P;
        for (what, k) in [
            ("accepted", count(|p| matches!(p, P::AcceptedNativeWithdrawalRequest { .. } | P::AcceptedErc20WithdrawalRequest { .. }))),
            ("created", count(|p| matches!(p, P::CreatedTransaction { .. }))),
            ("finalized", count(|p| matches!(p, P::FinalizedTransaction { .. }))),
        ] {
            s.ck(k == ids.len(), "the log has one event for each of many withdrawals", || format!("{k} {what}, {} withdrawals", ids.len()));
        }
        for _ in 0..ids.len() {
            s.stat("withdrawals of a long history");
        }
    });
}
fn long_part(s: &mut S, w: &mut W, ids: &mut Vec<u64>, until: u64, users: u64) {
    let mut refused = 0;
    while (ids.len() as u64) < until && refused < 50 {
        let b = 5 + s.rng.below(20);
        for _ in 0..b {
            let u = s.rng.below(users) as u8;
            w.approve(w.native, user(u));
            w.approve(token(0).0, user(u));
            let r = if s.rng.pm(150) { withdraw_erc20(w, user(u), 0, 1000 + s.rng.below(1000)) } else { withdraw(w, user(u), ETHER / 100 + s.rng.below(ETHER / 1000)) };
            match r {
                Some(id) => ids.push(id),
                None => refused += 1,
            }
            if ids.len() as u64 >= until {
                break;
            }
        }
        for _ in 0..4 {
            w.mine(40);
            w.tick(180);
        }
    }
    if refused >= 50 {
        s.stat("withdrawals refused in a long history");
    }
}
