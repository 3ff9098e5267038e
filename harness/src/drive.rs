//! What users, the chain, time and the operator do; upgrades; the quiet end of a scenario.
use crate::canister::*;
use crate::chain::*;
use crate::model::*;
use crate::sim::*;
use crate::util::*;
use candid::{Nat, Principal};
use crate::wire as ep;
use crate::wire::CandidBlockTag;
use crate::wire::{InitArg, MinterArg, UpgradeArg};
use ic_host::{with, Response};
use icrc_ledger_types::icrc1::account::Account;
use std::collections::BTreeMap;

pub const MAX_REDO: usize = 15;
pub const ROUNDS: u64 = 150;

fn enc<T: candid::CandidType>(v: T) -> Vec<u8> {
    candid::encode_args((v,)).unwrap()
}
pub fn on_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(4 << 20).spawn(f).unwrap().join().unwrap_or_else(|e| std::panic::resume_unwind(e))
}

/// Runs one scenario to its end. A callback in which the minter's own code panicked cannot be rolled back, so the
/// scenario is executed again up to that message and the panic becomes a trap there.
pub fn scenario(seed: u64, name: &'static str, verbose: bool) -> Box<Sim> {
    let mut s = scenario_only(seed, name, verbose);
    s.m.mon.absorb(&crate::iface::take(&format!("{name} {seed}")));
    s
}
fn scenario_only(seed: u64, name: &'static str, verbose: bool) -> Box<Sim> {
    let mut trap_at: BTreeMap<u64, String> = BTreeMap::new();
    let mut redo = 0;
    loop {
        let ta = trap_at.clone();
        let mut sim = on_thread(move || {
            with(|h| h.label = format!("{name} {seed}"));
            let mut s = Box::new(make(seed, name));
            s.m.mon.verbose = verbose;
            s.trap_at = ta;
            s.install();
            life(s)
        });
        match sim.restart.take() {
            Some((no, text)) if redo < MAX_REDO => {
                if verbose {
                    eprintln!("---- again, with a trap in message {no}: {text}");
                }
                redo += 1;
                trap_at.insert(no, text);
            }
            Some(_) => {
                sim.m.mon.stat("scenarios given up after many own traps");
                return sim;
            }
            None => return sim,
        }
    }
}

/// Installs, upgrades and controls the minter.
pub fn owner() -> Principal {
    Principal::from_slice(&[9, 9, 9])
}

pub fn life(mut s: Box<Sim>) -> Box<Sim> {
    while !s.finished && s.restart.is_none() {
        if s.upgrade_due() {
            match upgrade(s) {
                Ok(done) => return done,
                Err(back) => s = back,
            }
            continue;
        }
        s.step();
    }
    s
}

/// Ok: upgraded, and the rest of the scenario is over. Err: not upgraded, to be continued on this thread.
fn upgrade(mut s: Box<Sim>) -> Result<Box<Sim>, Box<Sim>> {
    s.drain();
    if s.restart.is_some() || s.finished {
        return Err(s);
    }
    s.upgrades_left -= 1;
    let left = s.m.ctxs.len();
    s.m.mon.ck(left == 0, &["C13"], "nothing is under way when all calls are answered", || format!("{left} contexts left"));
    s.m.ctxs.clear();
    let (arg, valid) = s.upgrade_arg();
    let before = s.snapshot();
    s.msgno += 1;
    s.now_set();
    let owner = owner();
    let me = s.w.minter_id;
    let r = message("canister_pre_upgrade", "", 0, &owner, vec![]);
    let timer0 = with(|h| std::mem::take(&mut h.global_timer));
    let _ = me;
    if let Some(t) = r.trap {
        s.m.mon.ck(false, &["C10", "C22"], "pre_upgrade completes", || t);
        ic_host::undo_stable();
        with(|h| h.global_timer = timer0);
        return Err(s);
    }
    crate::past::snap();
    let bytes = match &arg {
        None => candid::encode_args((None::<MinterArg>,)).unwrap(),
        Some(a) => candid::encode_args((Some(a.clone()),)).unwrap(),
    };
    let host = with(std::mem::take);
    let (s, host, ok) = on_thread(move || {
        with(|h| *h = host);
        let r = message_on("canister_post_upgrade", "", 0, &owner, bytes);
        let mut s = s;
        s.m.mon.stat("upgrades tried");
        if let Some(t) = &r.trap {
            s.m.mon.note(|| format!("post_upgrade trapped: {t}"));
            ic_host::undo_stable();
        }
        match (&r.trap, valid) {
            (Some(t), true) => {
                let k = if arg.is_none() { "without arguments" } else { "with arguments" };
                let t = t.clone();
                let a = format!("{arg:?}");
                let ps: &[&'static str] = if arg.is_none() { &["C10"] } else { &["C22", "C10"] };
                s.m.mon.ck(false, ps, &format!("a valid upgrade succeeds {k}"), || format!("{t} with {a}"));
            }
            (None, false) => {
                let a = format!("{arg:?}");
                s.m.mon.ck(false, &["C22"], "an invalid upgrade is refused", || a);
                // the model cannot follow an invalid configuration
                s.finished = true;
            }
            (Some(_), false) => {
                s.m.mon.ck(true, &["C22"], "an invalid upgrade is refused", String::new);
            }
            (None, true) => {
                let k = if arg.is_none() { "without arguments" } else { "with arguments" };
                s.m.mon.ck(true, &["C10", "C22"], &format!("a valid upgrade succeeds {k}"), String::new);
                s.m.mon.note(|| format!("upgraded with {arg:?}"));
                let u = match &arg {
                    Some(MinterArg::UpgradeArg(u)) => Some(u.clone()),
                    _ => None,
                };
                s.upgraded(u, before);
                let s = life(s);
                return (s, with(std::mem::take), true);
            }
        }
        let fin = s.finished;
        (s, with(std::mem::take), fin)
    });
    if ok {
        return Ok(s);
    }
    with(|h| {
        *h = host;
        h.global_timer = timer0;
    });
    let mut s = s;
    // everything is as it was
    let have = s.m.events.len() as u64;
    let r = query::<_, (ep::events::GetEventsResult,)>("get_events", (ep::events::GetEventsArg { start: have, length: 1 },));
    s.m.mon.ck(matches!(&r, Ok((r,)) if r.total_event_count == have), &["C22", "C24"], "a refused upgrade leaves no event", || format!("{r:?}, had {have}"));
    s.m.check_info(&s.w);
    Err(s)
}

pub struct Snap {
    statuses: Vec<(u64, ep::RetrieveWithdrawalStatus)>,
    price: Option<ep::Eip1559TransactionPrice>,
}

impl Sim {
    // ------------------------------------------------------------------ installation
    pub fn install(&mut self) {
        if self.rng.pm(80) {
            self.bad_installs();
        }
        self.msgno += 1;
        self.now_set();
        let owner = owner();
        let ctx = self.new_ctx(owner, CtxKind::Init);
        let r = message("canister_init", "", ctx, &owner, init_arg(&self.first));
        if let Some(t) = r.trap {
            let f = self.first.clone();
            self.m.mon.ck(false, &["C22"], "a valid installation succeeds", || format!("{t}: {f:?}"));
            self.finished = true;
            return;
        }
        self.m.mon.ck(true, &["C22"], "a valid installation succeeds", String::new);
        let k = r.out.len();
        self.m.mon.ck(k == 0, &["C16"], "installation calls nobody itself", || format!("{k} calls"));
        self.poll(&Msg { ctx, ..Default::default() });
        let ok = self.m.events.len() == 1 && matches!(&self.m.events[0].payload, ep::events::EventPayload::Init(a) if *a == self.first);
        self.m.mon.ck(ok, &["C24", "C10", "C22"], "the installation argument is recorded", || format!("{:?}", self.m.events));
        self.m.ctxs.remove(&ctx);
        self.m.check_info(&self.w);
        self.state_checks();
        // the first timer round, mostly undisturbed
        let f = std::mem::replace(&mut self.faults, self.p.name == "storm");
        self.fire();
        self.drain();
        self.faults = f;
        let l = self.m.lsm_calls;
        if self.restart.is_none() {
            self.m.mon.ck(l == 1, &["C26"], "announced at installation", || format!("{l} announcements"));
        }
        self.warm_up();
    }
    fn bad_installs(&mut self) {
        let big = Nat((n(1) << 256u32) + n(self.rng.below(5)));
        let f = &self.first;
        let lf = f.native_ledger_transfer_fee.clone();
        let variants: Vec<(&'static str, InitArg)> = vec![
            ("zero minimum", InitArg { native_minimum_withdrawal_amount: Nat::from(0u8), ..f.clone() }),
            ("minimum below the ledger fee", InitArg { native_minimum_withdrawal_amount: lf.clone() - Nat::from(1u8), ..f.clone() }),
            ("huge minimum", InitArg { native_minimum_withdrawal_amount: big.clone(), ..f.clone() }),
            ("huge ledger fee", InitArg { native_ledger_transfer_fee: big.clone(), ..f.clone() }),
            ("huge nonce", InitArg { next_transaction_nonce: big.clone(), ..f.clone() }),
            ("huge block", InitArg { last_scraped_block_number: big.clone(), ..f.clone() }),
            ("last block", InitArg { last_scraped_block_number: Nat((n(1) << 256u32) - 1u8), ..f.clone() }),
            ("huge priority fee", InitArg { min_max_priority_fee_per_gas: big.clone(), ..f.clone() }),
            ("huge deposit fee", InitArg { deposit_native_fee: big.clone(), ..f.clone() }),
            ("huge withdrawal fee", InitArg { withdrawal_native_fee: big.clone(), ..f.clone() }),
            ("anonymous ledger", InitArg { native_ledger_id: Principal::anonymous(), ..f.clone() }),
            ("zero helper", InitArg { helper_contract_address: Some(h0x(&[0u8; 20])), ..f.clone() }),
            ("short helper", InitArg { helper_contract_address: Some("0x1234".into()), ..f.clone() }),
            ("no hex helper", InitArg { helper_contract_address: Some(format!("0x{}", "zz".repeat(20))), ..f.clone() }),
            ("long helper", InitArg { helper_contract_address: Some(format!("{}00", h0x(&[7u8; 20]))), ..f.clone() }),
            ("empty key name", InitArg { ecdsa_key_name: "  ".into(), ..f.clone() }),
        ];
        let now = self.w.now;
        let id = self.w.minter_id;
        for (what, a) in variants {
            let (trap, timers) = on_thread(move || {
                with(|h| {
                    h.time = now;
                    h.self_id = id.as_slice().to_vec();
                    h.replicated = true;
                });
                let r = message("canister_init", "", 0, &owner(), init_arg(&a));
                (r.trap, r.timer)
            });
            let _ = timers;
            self.m.mon.ck(trap.is_some(), &["C22"], &format!("installation refused: {what}"), || "accepted".into());
        }
        let up = candid::encode_args((MinterArg::UpgradeArg(UpgradeArg::default()),)).unwrap();
        let trap = on_thread(move || message("canister_init", "", 0, &owner(), up).trap);
        self.m.mon.ck(trap.is_some(), &["C22"], "installation refused: upgrade argument", || "accepted".into());
    }
    /// Everybody gets some tokens through real deposits.
    fn warm_up(&mut self) {
        let f = std::mem::replace(&mut self.faults, false);
        let lim = std::mem::replace(&mut self.p.limit, 1_000_000);
        for i in 0..self.p.tokens {
            if self.restart.is_none() {
                self.add_token(Some(i as usize));
            }
        }
        for u in self.users.clone() {
            if self.p.crowd || self.rng.pm(700) {
                let v = n(self.rng.range(50, 3000)) * n(1_000_000_000_000_000);
                self.queue_deposit(u, None, v, None);
            }
            if !self.m.tokens.is_empty() && self.rng.pm(600) {
                let t = self.rng.pick(&self.m.tokens).addr;
                let v = n(self.rng.range(1000, 1_000_000_000));
                self.queue_deposit(u, Some(t), v, None);
            }
        }
        let k = self.w.chain.fdepth.max(depth_of(self.m.conf.chain_id)) + 45;
        self.w.chain.mine(k, &mut self.rng);
        self.w.now += 601 * SEC;
        for _ in 0..3 {
            self.fire();
            self.drain();
            self.w.now += SEC;
        }
        self.faults = f;
        self.p.limit = lim;
    }

    // ------------------------------------------------------------------ upgrades
    pub fn upgrade_due(&mut self) -> bool {
        if self.upgrades_left == 0 || self.finished || self.restart.is_some() {
            return false;
        }
        if self.m.mon.step >= self.p.steps {
            return false;
        }
        let up = self.p.up;
        up > 0 && self.rng.pm(up)
    }
    fn upgrade_arg(&mut self) -> (Option<MinterArg>, bool) {
        let big = Nat((n(1) << 256u32) + n(self.rng.below(5)));
        match self.rng.below(10) {
            0..=3 => (None, true),
            4 | 5 => {
                let mut u = UpgradeArg::default();
                // a valid change beside the invalid one must not survive
                if self.rng.pm(500) {
                    u.deposit_native_fee = Some(nat(&(&self.m.conf.dep_fee + 7u8)));
                    u.min_max_priority_fee_per_gas = Some(nat(&(&self.m.conf.min_prio + 3u8)));
                }
                match self.rng.below(10) {
                    0 => u.native_minimum_withdrawal_amount = Some(Nat::from(0u8)),
                    1 => u.native_minimum_withdrawal_amount = Some(nat(&(&self.m.conf.lf - 1u8))),
                    2 => u.native_ledger_transfer_fee = Some(nat(&(&self.m.conf.min_w + 1u8))),
                    3 => u.helper_contract_address = Some(h0x(&[0u8; 20])),
                    4 => u.helper_contract_address = Some("helper".into()),
                    5 => u.next_transaction_nonce = Some(big),
                    6 => u.last_scraped_block_number = Some(big),
                    7 => u.withdrawal_native_fee = Some(big),
                    8 => u.min_max_priority_fee_per_gas = Some(big),
                    _ => return (Some(MinterArg::InitArg(self.first.clone())), false),
                }
                (Some(MinterArg::UpgradeArg(u)), false)
            }
            _ => {
                let mut u = UpgradeArg::default();
                let depth = depth_of(self.m.conf.chain_id);
                let mut lf = self.m.conf.lf.clone();
                if self.rng.pm(250) {
                    lf = n(*self.rng.pick(&[1_000_000_000_000u64, 3_000_000_000_000, 2_000_000_000]));
                    u.native_ledger_transfer_fee = Some(nat(&lf));
                    if n(0) < self.m.conf.wd_fee && self.m.conf.wd_fee < lf {
                        u.withdrawal_native_fee = Some(Nat::from(0u8));
                    }
                }
                if self.rng.pm(300) {
                    let m = n(self.rng.range(10, 30)) * n(1_000_000_000_000_000) + n(self.rng.below(100));
                    u.native_minimum_withdrawal_amount = Some(nat(&m));
                }
                if self.rng.pm(250) {
                    u.min_max_priority_fee_per_gas = Some(Nat::from(self.rng.below(2_000_000_000)));
                }
                if self.rng.pm(200) {
                    let h: Addr = self.rng.bytes();
                    u.helper_contract_address = Some(if self.rng.pm(500) { eip55(&h) } else { h0x(&h) });
                }
                if self.rng.pm(200) && depth == 0 {
                    u.block_height = Some(if self.rng.pm(500) { CandidBlockTag::Safe } else { CandidBlockTag::Finalized });
                }
                if self.rng.pm(200) {
                    u.evm_rpc_id = Some(Principal::from_slice(&[0, 0, 0, 0, 5, 0, 0, self.rng.below(200) as u8, 1]));
                }
                if self.rng.pm(250) {
                    let d = *self.rng.pick(&[0u64, 1, 1000, 1_000_000_000_000_000]);
                    u.deposit_native_fee = Some(Nat::from(d));
                }
                if self.rng.pm(250) {
                    let k = *self.rng.pick(&[0u8, 1, 2, 3]);
                    u.withdrawal_native_fee = Some(nat(&(&lf * k)));
                }
                if self.rng.pm(100) {
                    u.next_transaction_nonce = Some(nat(&self.m.next_nonce));
                }
                if self.rng.pm(100) {
                    u.last_scraped_block_number = Some(Nat::from(self.m.scraped));
                }
                (Some(MinterArg::UpgradeArg(u)), true)
            }
        }
    }
    fn snapshot(&mut self) -> Snap {
        let ids: Vec<u64> = self.m.wds.keys().cloned().collect();
        let mut statuses = vec![];
        for id in ids {
            statuses.push((id, self.m.status(id)));
        }
        let price = query::<_, (ep::Eip1559TransactionPrice,)>("eip_1559_transaction_price", (None::<ep::Eip1559TransactionPriceArg>,)).ok().map(|x| x.0);
        Snap { statuses, price }
    }
    fn upgraded(&mut self, u: Option<UpgradeArg>, before: Snap) {
        let now = self.w.now;
        let big = |x: &Nat| x.0.clone();
        let _ = before.price;
        // events
        let have = self.m.events.len();
        let (arg, none) = (u.clone(), u.is_none());
        let msg = Msg { upgrade: Some(arg), pre_upgrade: true, ..Default::default() };
        self.poll(&msg);
        let k = self.m.events.len() - have;
        self.m.mon.ck(k == if none { 1 } else { 2 }, &["C24", "C10"], "an upgrade is recorded", || format!("{k} events"));
        // configuration
        if let Some(u) = u {
            let c = &mut self.m.conf;
            if let Some(x) = &u.native_minimum_withdrawal_amount {
                c.min_w = big(x);
            }
            if let Some(x) = &u.native_ledger_transfer_fee {
                c.lf = big(x);
                let lf = c.lf.clone();
                self.w.ledgers.get_mut(&self.w.native).unwrap().fee = lf;
            }
            if let Some(x) = &u.min_max_priority_fee_per_gas {
                c.min_prio = big(x);
            }
            if let Some(x) = &u.helper_contract_address {
                let h = parse_addr(x).unwrap();
                c.helper = Some(h);
                self.m.helpers.push(h);
                self.w.chain.helpers.push(h);
                self.helper_since = self.m.scraped;
            }
            if let Some(x) = &u.block_height {
                c.tag = x.clone();
            }
            if let Some(x) = &u.evm_rpc_id {
                c.evm = *x;
            }
            if let Some(x) = &u.deposit_native_fee {
                c.dep_fee = big(x);
            }
            if let Some(x) = &u.withdrawal_native_fee {
                c.wd_fee = big(x);
            }
        }
        let m = &mut self.m;
        if let Some(e) = m.est.last_mut() {
            e.until = e.until.min(now);
        }
        m.observed = None;
        m.served_max = None;
        m.scrape_start = None;
        m.want_scrape = None;
        m.scrape_budget += (now - m.life_start) / (600 * SEC) + 1;
        m.life_start = now;
        m.upgrades += 1;
        m.mon.stat("upgrades");
        m.check_info(&self.w);
        self.state_checks();
        for (id, st) in before.statuses {
            self.ask_status(id);
            let now_ = self.m.status(id);
            self.m.mon.ck(st == now_, &["C10"], "model status kept", || format!("{id}"));
        }
        for id in self.m.wds.keys().cloned().collect::<Vec<_>>() {
            if self.rng.pm(300) {
                self.search(ep::WithdrawalSearchParameter::ByWithdrawalId(id));
            }
        }
    }

    // ------------------------------------------------------------------ one step
    pub fn step(&mut self) {
        self.m.mon.step += 1;
        let st = self.m.mon.step;
        if st > self.p.steps {
            self.quiet();
            return;
        }
        if st % 64 == 0 {
            self.solvent("under way");
            self.state_checks();
        }
        let busy = self.queue.len() + self.ready.len();
        let x = self.rng.below(1000);
        let pump_w = if busy == 0 { 0 } else { 700 };
        if x < pump_w {
            self.pump();
            return;
        }
        match self.rng.below(100) {
            0..=29 => self.time(busy),
            30..=69 => self.user(),
            70..=89 => self.chain_step(),
            _ => self.ask(),
        }
        if self.restart.is_none() && self.rng.pm(800) {
            self.fire();
        }
    }
    fn time(&mut self, busy: usize) {
        let r = &mut self.rng;
        let dt = match r.below(20) {
            0..=7 => r.below(SEC),
            8..=12 => r.below(8 * SEC),
            13 | 14 => r.below(35 * SEC),
            15 => r.below(90 * SEC),
            16 if busy == 0 => 601 * SEC,
            _ => match self.due_timer() {
                Some(t) if t > self.w.now => t - self.w.now,
                _ => 1,
            },
        };
        self.w.now += dt;
    }
    fn chain_step(&mut self) {
        let c = &mut self.w.chain;
        match self.rng.below(10) {
            0..=4 => {
                let k = *self.rng.pick(&[1u64, 1, 2, 3, 5, 12, 30]);
                let k = if self.p.far && self.rng.pm(60) { self.rng.range(900, 3100) } else { k };
                c.mine(k, &mut self.rng);
            }
            5 | 6 => {
                if self.rng.pm(self.p.reorg * 2) {
                    let d = self.rng.range(1, c.fdepth.saturating_sub(1).max(1)).min(c.fdepth);
                    c.reorg(d, &mut self.rng);
                    self.m.mon.stat("reorganisations");
                }
            }
            7 => {
                if self.rng.pm(self.p.evict * 4) && !c.mempool.is_empty() {
                    let keys: Vec<u64> = c.mempool.keys().cloned().collect();
                    let k = *self.rng.pick(&keys);
                    c.mempool.remove(&k);
                    self.m.mon.stat("transactions evicted");
                }
            }
            _ => {
                let base = c.base();
                let rew = c.rewards.last().unwrap().clone();
                let base = if self.rng.pm(self.p.gas) {
                    match self.rng.below(4) {
                        0 => base * 5u8,
                        1 => base * 2u8 + 1u8,
                        2 => base / 4u8 + 1u8,
                        _ => n(self.rng.range(1_000_000_000, 90_000_000_000)),
                    }
                } else {
                    let d = &base / 8u8;
                    if self.rng.pm(500) {
                        base + d
                    } else {
                        base - d
                    }
                };
                let base = base.max(n(500_000_000)).min(n(400_000_000_000));
                let rew = if self.rng.pm(300) { n(self.rng.below(4_000_000_000)) } else { rew };
                c.set_fee(base, rew);
            }
        }
    }

    // ------------------------------------------------------------------ users
    fn pick_user(&mut self) -> Principal {
        *self.rng.pick(&self.users)
    }
    pub fn queue_deposit(&mut self, user: Principal, token: Option<Addr>, value: N, sub: Option<H32>) {
        self.deposits += 1;
        let helper = self.m.conf.helper.unwrap();
        let mut data = word_of_addr(&self.rng.bytes::<20>()).to_vec();
        data.extend(sub.unwrap_or([0; 32]));
        let tx = match self.w.chain.queue.last() {
            Some(l) if self.rng.pm(250) => l.tx,
            Some(l) if self.rng.pm(150) => twin(&mut self.rng, &l.tx.clone()),
            _ => self.rng.bytes(),
        };
        let l = Log {
            addr: helper,
            topics: vec![deposit_topic(), word_of_addr(&token.unwrap_or([0; 20])), word_of(&value), principal_word(user.as_slice())],
            data,
            tx,
            tx_index: 0,
            log_index: 0,
            removed: false,
            absent: 0,
        };
        self.w.chain.queue.push(l);
    }
    fn deposit(&mut self) {
        let u = self.pick_user();
        let tok = if !self.m.tokens.is_empty() && self.rng.pm(450) { Some(self.rng.pick(&self.m.tokens).addr) } else { None };
        let dep = self.m.conf.dep_fee.clone();
        let v = match self.rng.below(20) {
            0 => n(0),
            1 => n(1),
            2 if dep > n(0) => &dep - 1u8,
            3 => dep.clone(),
            4 => &dep + 1u8,
            5 => n(1) << (self.rng.range(60, 190) as u32),
            6 => n(self.rng.next()),
            _ => n(self.rng.range(20, 900)) * n(1_000_000_000_000_000) + n(self.rng.below(1000)),
        };
        let sub = match self.rng.below(15) {
            0 | 1 => Some(self.rng.bytes()),
            2 => Some(twin(&mut self.rng, &[0; 32])),
            _ => None,
        };
        self.queue_deposit(u, tok, v, sub);
        self.m.mon.stat("deposits");
        if self.fault_hostile() {
            self.hostile();
        }
    }
    fn fault_hostile(&mut self) -> bool {
        self.faults && self.p.hostile > 0 && self.rng.pm(self.p.hostile)
    }
    /// Spoils the deposit queued last.
    fn hostile(&mut self) {
        let Some(mut l) = self.w.chain.queue.pop() else { return };
        l.tx = self.rng.bytes();
        let k = self.rng.below(17);
        match k {
            0 => {
                l.topics.pop();
            }
            1 => {
                l.topics.truncate(2);
            }
            2 => {
                let len = *self.rng.pick(&[0usize, 31, 32, 63, 65, 96, 128]);
                l.data.resize(len, 0);
            }
            3 => l.topics[3] = [0; 32],
            4 => l.topics[3][0] = self.rng.range(30, 255) as u8,
            5 => {
                l.topics[3] = principal_word(&[4]);
            }
            6 => {
                let u = self.pick_user();
                let mut w = principal_word(u.as_slice());
                w[31] = 1;
                l.topics[3] = w;
            }
            7 => l.data[self.rng.below(12) as usize] = self.rng.range(1, 255) as u8,
            8 | 9 => l.removed = true,
            10 => l.absent = 1 << self.rng.below(5),
            11 => l.absent = self.rng.range(1, 31) as u8,
            12 => l.topics[1] = word_of_addr(&self.rng.bytes::<20>()),
            13 => l.addr = self.rng.bytes(),
            14 => l.topics[0] = self.rng.bytes(),
            15 => l.topics[1][0] = 1,
            _ => {
                // bytes that are no textual principal but valid ones
                let k = self.rng.range(1, 29) as usize;
                let mut b = self.rng.vec(k);
                if b == [4] {
                    b[0] = 5;
                }
                l.topics[3] = principal_word(&b);
            }
        }
        self.m.mon.stat(&format!("hostile log {k}"));
        self.w.chain.queue.push(l);
    }
    fn user(&mut self) {
        match self.rng.below(100) {
            0..=29 => {
                for _ in 0..self.rng.range(1, 3) {
                    self.deposit()
                }
            }
            30..=59 => {
                if self.p.crowd && self.rng.pm(40) {
                    self.burst()
                } else {
                    self.withdraw_native()
                }
            }
            60..=79 => self.withdraw_erc20(),
            80..=87 => self.request_scraping(),
            88..=92 => self.add_token(None),
            93 => {
                let u = if self.rng.pm(700) { self.pick_user() } else { *self.rng.pick(&[owner(), self.m.conf.lsm, self.w.native, self.w.minter_id]) };
                self.enter(u, CtxKind::Other("check_new_deposits"), "check_new_deposits", candid::encode_args(()).unwrap());
            }
            94 | 95 => {
                let u = self.pick_user();
                self.enter(u, CtxKind::Other("minter_address"), "minter_address", candid::encode_args(()).unwrap());
            }
            96 => {
                // somebody else's use of the ledgers moves block indices apart
                for l in self.w.ledgers.values_mut() {
                    if self.rng.pm(500) {
                        l.filler();
                    }
                }
            }
            _ => {
                let u = self.pick_user();
                self.enter(u, CtxKind::Other("icrc28_trusted_origins"), "icrc28_trusted_origins", candid::encode_args(()).unwrap());
            }
        }
    }
    fn burst(&mut self) {
        self.m.mon.stat("bursts");
        for u in self.users.clone() {
            if self.restart.is_some() {
                return;
            }
            let amount = self.m.conf.min_w.clone() + &self.m.conf.wd_fee + &self.m.conf.lf;
            let dest = h0x(&self.dest());
            let sp = acct(self.w.minter_id);
            let al = &amount * 2u8;
            self.w.ledgers.get_mut(&self.w.native).unwrap().approve(acct(u), sp, al);
            let arg = enc(ep::WithdrawalArg { amount: nat(&amount), recipient: dest.clone() });
            self.enter(u, CtxKind::WithdrawNative { amount, dest }, "withdraw_native_token", arg);
        }
    }
    fn dest(&mut self) -> Addr {
        if self.rng.pm(600) {
            *self.rng.pick(&self.dest_pool)
        } else {
            let mut a: Addr = self.rng.bytes();
            if self.rng.pm(200) {
                let k = self.rng.range(1, 19) as usize;
                a[..k].fill(0);
            }
            if a == [0; 20] {
                a[19] = 1;
            }
            a
        }
    }
    fn dest_text(&mut self) -> String {
        let a = self.dest();
        match self.rng.below(6) {
            0 => eip55(&a),
            1 => format!("0x{}", hex::encode_upper(a)),
            2 => {
                // mixed case with a wrong checksum is still an address
                let s = hex::encode(a);
                let s: String = s.chars().map(|c| if self.rng.pm(500) { c.to_ascii_uppercase() } else { c }).collect();
                format!("0x{s}")
            }
            _ => h0x(&a),
        }
    }
    fn bad_dest(&mut self) -> String {
        let a = h0x(&self.dest());
        match self.rng.below(12) {
            0 => h0x(&[0u8; 20]),
            1 => a[2..].to_string(),
            2 => a[..41].to_string(),
            3 => format!("{a}0"),
            4 => format!("{}g", &a[..41]),
            5 => String::new(),
            6 => "0x".into(),
            7 => format!(" {a}"),
            8 => format!("{a} "),
            9 => format!("0X{}", &a[2..]),
            10 => format!("{}é", &a[..40]),
            _ => format!("0x0x{}", &a[2..40]),
        }
    }
    fn grant(&mut self, ledger: Principal, user: Principal, amount: N) {
        let sp = acct(self.w.minter_id);
        if let Some(l) = self.w.ledgers.get_mut(&ledger) {
            l.approve(acct(user), sp, amount);
        }
    }
    pub fn withdraw_native(&mut self) {
        let mut user = self.pick_user();
        let (f, lf, min) = (self.m.conf.wd_fee.clone(), self.m.conf.lf.clone(), self.m.conf.min_w.clone());
        let bal = self.w.nat().balance(&acct(user));
        let mut dest = self.dest_text();
        let spare = &bal / 3u8;
        let any = if self.rng.pm(300) { self.rng.big(255) } else { n(self.rng.next()) };
        let mut amount = if spare > min { &min + any % (&spare - &min) } else { &min + n(self.rng.below(1000)) };
        let mut allow = &amount + &f + &lf * 3u8;
        match self.rng.below(24) {
            0 => allow = n(0),
            1 => allow = f.clone(),
            2 => allow = &f - &f.clone().min(n(1)),
            3 => {
                amount = &bal + &min + 1u8;
                allow = &amount * 2u8;
            }
            4 => {
                amount = match self.rng.below(7) {
                    0 => &min - 1u8,
                    1 => min.clone(),
                    2 => f.clone(),
                    3 => &f + &lf - 1u8,
                    4 => &f + &lf,
                    5 => &f + 1u8,
                    _ => n(0),
                };
                allow = &amount + &f + &lf * 3u8;
            }
            5 => dest = self.bad_dest(),
            6 => user = Principal::anonymous(),
            7 => amount = (n(1) << 256u32) + n(self.rng.below(3)),
            8 => amount = (n(1) << 256u32) - 1u8 - n(self.rng.below(3)),
            9 => {
                // pays the fee, but cannot cover the rest
                amount = bal.clone();
                allow = &amount * 2u8;
            }
            _ => {}
        }
        let again = self.rng.pm(60);
        for i in 0..1 + again as u8 {
            if i > 0 {
                // the same once more, right after the first
                self.drain();
                self.m.mon.stat("withdrawal repeated at once");
            }
            self.grant(self.w.native, user, allow.clone());
            let arg = enc(ep::WithdrawalArg { amount: nat(&amount), recipient: dest.clone() });
            self.enter(user, CtxKind::WithdrawNative { amount: amount.clone(), dest: dest.clone() }, "withdraw_native_token", arg);
        }
    }
    pub fn withdraw_erc20(&mut self) {
        let mut user = self.pick_user();
        let (f, lf) = (self.m.conf.wd_fee.clone(), self.m.conf.lf.clone());
        let mut ledger = match self.m.tokens.is_empty() {
            true => self.plan[0].0,
            false => self.rng.pick(&self.m.tokens).ledger,
        };
        // prefer somebody who has some
        for _ in 0..4 {
            if self.w.ledgers[&ledger].balance(&acct(user)) > n(0) {
                break;
            }
            user = self.pick_user();
        }
        let tb = self.w.ledgers.get(&ledger).map(|l| l.balance(&acct(user))).unwrap_or_default();
        let any = self.rng.big(255);
        let mut amount = match self.rng.below(8) {
            _ if tb <= n(10) => n(5),
            0 => tb.clone(),
            1 | 2 => any % &tb + 1u8,
            _ => n(self.rng.next()) % (&tb / 2u8) + 1u8,
        };
        let tl = self.w.ledgers[&ledger].fee.clone();
        if amount < tl && self.rng.pm(800) {
            amount = tl.clone();
        }
        let mut dest = self.dest_text();
        let mut native_allow = (n(1) << 120u32) + &f + &lf;
        let mut tok_allow = &amount + &tl;
        match self.rng.below(24) {
            0 => native_allow = n(0),
            1 => native_allow = f.clone(),
            2 | 3 => tok_allow = n(0),
            4 => {
                amount = &tb + 1u8;
                tok_allow = &amount * 2u8;
            }
            5 => dest = self.bad_dest(),
            6 => user = Principal::anonymous(),
            7 => amount = (n(1) << 256u32) + n(self.rng.below(3)),
            8 => ledger = *self.rng.pick(&[self.plan[5].0, self.w.native, Principal::from_slice(&[1, 2, 3])]),
            9 => amount = n(self.rng.below(3)),
            10 => tok_allow = &amount - &amount.clone().min(n(1)),
            _ => {}
        }
        let native = self.w.native;
        let again = self.rng.pm(60);
        for i in 0..1 + again as u8 {
            if i > 0 {
                self.drain();
                self.m.mon.stat("withdrawal repeated at once");
            }
            self.grant(native, user, native_allow.clone());
            if ledger != native {
                self.grant(ledger, user, tok_allow.clone());
            }
            let arg = enc(ep::WithdrawErc20Arg { amount: nat(&amount), erc20_ledger_id: ledger, recipient: dest.clone() });
            self.enter(user, CtxKind::WithdrawErc20 { amount: amount.clone(), ledger, dest: dest.clone() }, "withdraw_erc20", arg);
        }
    }
    fn request_scraping(&mut self) {
        let user = if self.rng.pm(100) { Principal::anonymous() } else { self.pick_user() };
        let o = self.m.observed;
        let b = match (self.rng.below(10), o) {
            (0, _) => (n(1) << 256u32) + n(self.rng.below(2)),
            (1, _) => (n(1) << 256u32) - 1u8,
            (2, Some(o)) => n(o),
            (3, Some(o)) => n(self.rng.below(o + 1)),
            (4, Some(o)) => n(o + 1),
            _ => n(self.w.chain.head + self.rng.below(20)),
        };
        if self.rng.pm(400) {
            if let Some(s) = self.m.scrape_start {
                // around the limit
                let t = s + 60 * SEC;
                let t = *self.rng.pick(&[t - 1, t, t + 1]);
                if t > self.w.now && self.queue.is_empty() && self.ready.is_empty() {
                    self.w.now = t;
                }
            }
        }
        #[derive(Debug, PartialEq)]
        enum W {
            Reject,
            Invalid,
            Seen,
            Often,
            Ok,
        }
        let now = self.w.now;
        let want = match (self.m.observed, self.m.scrape_start) {
            (Some(o), Some(s)) => {
                if b.bits() > 256 {
                    W::Invalid
                } else if b <= n(o) {
                    W::Seen
                } else if now < s + 60 * SEC {
                    W::Often
                } else {
                    W::Ok
                }
            }
            _ => W::Reject,
        };
        let live = self.m.ctxs.values().any(|c| c.task == Some(Task::Scrape));
        let (_, r) = self.enter(user, CtxKind::Scraping, "request_scraping_logs", enc(nat(&b)));
        let got = match &r {
            Some(Response::Reject(..)) => W::Reject,
            Some(Response::Reply(x)) => match candid::decode_args::<(Result<(), ep::RequestScrapingError>,)>(x) {
                Ok((Ok(()),)) => W::Ok,
                Ok((Err(ep::RequestScrapingError::InvalidBlockNumber),)) => W::Invalid,
                Ok((Err(ep::RequestScrapingError::BlockAlreadyObserved),)) => W::Seen,
                Ok((Err(ep::RequestScrapingError::CalledTooManyTimes),)) => W::Often,
                Err(_) => W::Reject,
            },
            None => W::Reject,
        };
        let edge = match self.m.scrape_start {
            Some(s) if now + 1 == s + 60 * SEC || now == s + 60 * SEC => " at the limit",
            _ => "",
        };
        self.m.mon.ck(got == want, &["C25"], &format!("early scraping {want:?}{edge}"), || format!("block {b} at {now}: {got:?}, expected {want:?}; observed {o:?} since {:?}", self.m.scrape_start));
        if got == W::Ok {
            self.m.scrape_budget += 1;
            if !live && self.rng.pm(600) {
                let k = self.m.scrapes;
                // (a timer set while others run is armed once those are done)
                for _ in 0..4 {
                    self.fire();
                    self.drain();
                }
                if self.restart.is_none() {
                    let s = self.m.scrapes;
                    self.m.mon.ck(s > k, &["C25"], "an honoured request leads to a scrape", || format!("{k} scrapes before, {s} after"));
                }
            }
        }
    }
    pub fn add_token(&mut self, which: Option<usize>) {
        let i = which.unwrap_or(self.rng.below(self.plan.len() as u64) as usize);
        let (mut ledger, addr, mut symbol) = self.plan[i].clone();
        if which.is_none() && i == 5 {
            // the last one stays unsupported
            return;
        }
        let mut caller = self.m.conf.lsm;
        let mut chain = n(self.m.conf.chain_id);
        let mut text = if self.rng.pm(500) { eip55(&addr) } else { h0x(&addr) };
        let mut good = true;
        if which.is_none() {
            match self.rng.below(12) {
                0 | 1 => {
                    // (the controller, a user, a ledger, ...)
                    caller = *self.rng.pick(&[self.users[0], Principal::anonymous(), self.w.native, self.w.minter_id, owner(), ledger]);
                    good = false;
                }
                2 => {
                    chain = n(self.m.conf.chain_id + 1);
                    good = false;
                }
                3 => {
                    chain = (n(1) << 64u32) + n(self.m.conf.chain_id);
                    good = false;
                }
                4 => {
                    text = self.bad_dest();
                    if text == h0x(&[0u8; 20]) {
                        text = "0x00".into();
                    }
                    good = false;
                }
                5 => symbol = "X".repeat(20),
                6 => {
                    symbol = "X".repeat(21);
                    good = false;
                }
                7 => {
                    symbol = "ick\u{20bf}".into();
                    good = false;
                }
                8 if !self.m.tokens.is_empty() => symbol = self.rng.pick(&self.m.tokens).symbol.clone(),
                9 if !self.m.tokens.is_empty() => ledger = self.rng.pick(&self.m.tokens).ledger,
                10 if !self.m.tokens.is_empty() => text = h0x(&self.rng.pick(&self.m.tokens).addr.clone()),
                _ => {}
            }
        }
        let a = parse_addr(&text);
        let dup = self.m.tokens.iter().any(|t| Some(t.addr) == a || t.ledger == ledger || t.symbol == symbol);
        let ok = good && !dup && a.is_some();
        let arg = enc(ep::AddErc20Token { chain_id: nat(&chain), address: text.clone(), erc20_token_symbol: symbol.clone(), erc20_ledger_id: ledger });
        self.enter(caller, CtxKind::AddToken { ok, addr: text, symbol, ledger, chain }, "add_erc20_token", arg);
    }

    // ------------------------------------------------------------------ questions
    pub fn ask_status(&mut self, id: u64) {
        let u = self.users[0];
        let (_, r) = self.enter(u, CtxKind::Other("retrieve_witdrawal_status"), "retrieve_witdrawal_status", enc(id));
        let want = self.m.status(id);
        let got = match &r {
            Some(Response::Reply(b)) => candid::decode_args::<(ep::RetrieveWithdrawalStatus,)>(b).ok().map(|x| x.0),
            _ => None,
        };
        let up = if self.m.upgrades > 0 { " after upgrade" } else { "" };
        let k = format!("{want:?}");
        let k = k.split(|c: char| c == ' ' || c == '{').next().unwrap_or("").trim_end_matches("(Transaction").to_string();
        self.m.mon.ck(got.as_ref() == Some(&want), &["C18", "C28"], &format!("status {k}{up}"), || format!("{id}: {got:?}, expected {want:?}"));
        if got.as_ref() != Some(&want) && self.m.upgrades > 0 {
            self.m.mon.ck(false, &["C10"], "status kept by upgrades", || format!("{id}: {got:?}, expected {want:?}"));
        }
        use ep::RetrieveWithdrawalStatus as R;
        use ep::TxFinalizedStatus as F;
        let rank = match &got {
            Some(R::NotFound) | None => 0,
            Some(R::Pending) => 1,
            Some(R::TxCreated | R::TxSent(_)) => 2,
            Some(R::TxFinalized(F::PendingReimbursement(_))) => 3,
            Some(R::TxFinalized(_)) => 4,
        };
        let last = self.m.last_status.insert(id, rank).unwrap_or(0);
        self.m.mon.ck(rank >= last, &["C18"], "status never moves backwards", || format!("{id}: {got:?} after rank {last}"));
    }
    pub fn search(&mut self, q: ep::WithdrawalSearchParameter) {
        use ep::WithdrawalSearchParameter as P;
        let (kind, mut want): (&str, Vec<_>) = match &q {
            P::ByWithdrawalId(i) => ("id", self.m.wds.values().filter(|w| w.id == *i).map(|w| self.m.detail(w)).collect()),
            P::ByRecipient(r) => {
                let a = parse_addr(r);
                ("recipient", self.m.wds.values().filter(|w| Some(w.dest) == a).map(|w| self.m.detail(w)).collect())
            }
            P::BySenderAccount(a) => (
                "sender",
                self.m.wds.values().filter(|w| w.from == a.owner && w.sub == a.subaccount).map(|w| self.m.detail(w)).collect(),
            ),
        };
        let r = query::<_, (Vec<ep::WithdrawalDetail>,)>("withdrawal_status", (q.clone(),));
        let mut got = match r {
            Ok((v,)) => v,
            Err(e) => {
                self.m.mon.ck(false, &["C18", "C28"], "search answers", || format!("{q:?}: {e}"));
                return;
            }
        };
        got.sort_by_key(|d| d.withdrawal_id);
        want.sort_by_key(|d| d.withdrawal_id);
        let k = match want.len() {
            0 => "none",
            1 => "one",
            _ => "several",
        };
        self.m.mon.ck(got == want, &["C18", "C28"], &format!("search by {kind} finds {k}"), || format!("{q:?}: {got:?}, expected {want:?}"));
    }
    fn ask(&mut self) {
        let ids: Vec<u64> = self.m.wds.keys().cloned().collect();
        match self.rng.below(10) {
            0..=2 => {
                let id = if ids.is_empty() || self.rng.pm(100) { self.rng.below(500) } else { *self.rng.pick(&ids) };
                self.ask_status(id);
            }
            3..=5 => {
                use ep::WithdrawalSearchParameter as P;
                let q = match self.rng.below(4) {
                    0 => P::ByWithdrawalId(if ids.is_empty() || self.rng.pm(100) { self.rng.below(500) } else { *self.rng.pick(&ids) }),
                    1 => {
                        let d = *self.rng.pick(&self.dest_pool);
                        // (the contract of a token is no recipient)
                        let d = if self.rng.pm(200) { self.rng.pick(&self.plan).1 } else { d };
                        P::ByRecipient(if self.rng.pm(500) { h0x(&d) } else { eip55(&d) })
                    }
                    2 if !ids.is_empty() => {
                        let i = self.rng.pick(&ids);
                        P::ByRecipient(h0x(&self.m.wds[i].dest))
                    }
                    _ => {
                        let u = self.pick_user();
                        let sub = if self.rng.pm(150) { Some([1u8; 32]) } else { None };
                        P::BySenderAccount(Account { owner: u, subaccount: sub })
                    }
                };
                self.search(q);
            }
            6 => self.ask_price(),
            7 | 8 => self.ask_events(),
            _ => {
                let r = query::<_, (String,)>("smart_contract_address", ());
                let want = self.m.conf.helper.map(|h| eip55(&h)).unwrap_or("N/A".into());
                self.m.mon.ck(matches!(&r, Ok((s,)) if *s == want), &["C22", "C21", "C28"], "smart_contract_address", || format!("{r:?}, expected {want}"));
            }
        }
    }
    fn ask_price(&mut self) {
        let tok = match self.rng.below(4) {
            0 => None,
            1 => Some(self.w.native),
            2 if !self.m.tokens.is_empty() => Some(self.rng.pick(&self.m.tokens).ledger),
            _ => Some(self.plan[5].0),
        };
        let gas = match tok {
            None => Some(NATIVE_GAS),
            Some(t) if t == self.w.native => Some(NATIVE_GAS),
            Some(t) => self.m.token_by_ledger(&t).map(|_| ERC20_GAS),
        };
        let arg = tok.map(|t| ep::Eip1559TransactionPriceArg { erc20_ledger_id: t });
        let r = query::<_, (ep::Eip1559TransactionPrice,)>("eip_1559_transaction_price", (arg,));
        let want = match (self.m.cur_est(), gas) {
            (Some(e), Some(g)) => Some((nat(&n(g)), nat(&e.max()), nat(&e.prio), nat(&(e.max() * g)), Some(e.ts))),
            _ => None,
        };
        let got = r.as_ref().ok().map(|(p,)| (p.gas_limit.clone(), p.max_fee_per_gas.clone(), p.max_priority_fee_per_gas.clone(), p.max_transaction_fee.clone(), p.timestamp));
        // (a price whose product does not fit into 256 bits is not judged)
        let fits = want.as_ref().map(|w| w.3 .0.bits() <= 256).unwrap_or(true);
        if fits {
            let k = if want.is_some() { "price" } else { "no price" };
            self.m.mon.ck(got == want, &["C17", "C28"], &format!("advertised {k}"), || format!("{r:?}, expected {want:?}"));
        }
    }
    fn ask_events(&mut self) {
        let total = self.m.events.len() as u64;
        let start = match self.rng.below(6) {
            0 => 0,
            1 => total,
            2 => total + self.rng.below(5),
            3 => u64::MAX - self.rng.below(2),
            _ => self.rng.below(total + 1),
        };
        let length = *self.rng.pick(&[0u64, 1, 2, 99, 100, 101, 1000, u64::MAX]);
        let r = query::<_, (ep::events::GetEventsResult,)>("get_events", (ep::events::GetEventsArg { start, length },));
        match r {
            Err(e) => {
                // (an index range that cannot be represented may be refused)
                if start.checked_add(length.min(100)).is_some() {
                    self.m.mon.ck(false, &["C24", "C28"], "event page answers", || format!("{start}+{length}: {e}"));
                }
            }
            Ok((r,)) => {
                let want: Vec<_> = self.m.events.iter().skip(usize::try_from(start).unwrap_or(usize::MAX)).take(length.min(100) as usize).cloned().collect();
                let ok = r.total_event_count == total && r.events == want;
                let k = if length > 100 { "capped page" } else { "page" };
                let up = if self.m.upgrades > 0 { " after upgrade" } else { "" };
                self.m.mon.ck(ok, &["C24", "C28"], &format!("{k} is the exact slice{up}"), || format!("{start}+{length} of {total}: got {} events, total {}", r.events.len(), r.total_event_count));
            }
        }
    }
    fn all_events(&mut self) {
        let mut i = 0;
        while i < self.m.events.len() {
            let r = query::<_, (ep::events::GetEventsResult,)>("get_events", (ep::events::GetEventsArg { start: i as u64, length: 100 },));
            let ok = match &r {
                Ok((r,)) => !r.events.is_empty() && r.events[..] == self.m.events[i..(i + 100).min(self.m.events.len())],
                Err(_) => false,
            };
            self.m.mon.ck(ok, &["C24"], "the whole log is unchanged at the end", || format!("page at {i}"));
            i += 100;
        }
    }

    // ------------------------------------------------------------------ solvency
    pub fn solvent(&mut self, when: &str) {
        let mut rows: Vec<(String, Principal, Option<Addr>)> = vec![("native".into(), self.w.native, None)];
        for t in &self.m.tokens {
            rows.push(("token".into(), t.ledger, Some(t.addr)));
        }
        for (k, ledger, tok) in rows {
            let chain = self.w.chain.balance(tok.as_ref());
            let l = &self.w.ledgers[&ledger];
            let mut owed = l.supply.clone();
            for w in self.m.wds.values() {
                let mined = w.signed.iter().any(|s| self.w.chain.mined_by_hash(&s.hash).is_some());
                if mined {
                    continue;
                }
                match (&tok, &w.erc20) {
                    (None, None) => owed += &w.amount,
                    (None, Some(e)) => owed += &e.3,
                    (Some(a), Some(e)) if e.0 == *a => owed += &w.amount,
                    _ => {}
                }
            }
            for ((dl, _), d) in &self.m.due {
                if *dl == ledger && d.minted.is_empty() {
                    owed += &d.amount;
                }
            }
            let s = l.supply.clone();
            self.m.mon.ck(chain >= owed, &["C11"], &format!("{k} obligations are covered {when}"), || format!("chain holds {chain}, owed {owed} (supply {s})"));
        }
    }

    // ------------------------------------------------------------------ the quiet end
    fn quiet(&mut self) {
        self.faults = false;
        self.p.limit = 1_000_000;
        self.p.fail = self.w.chain.fail_pm;
        self.drain();
        if self.restart.is_some() || self.finished {
            return;
        }
        let goal = {
            let d = depth_of(self.m.conf.chain_id);
            if d > 0 {
                self.w.chain.head.saturating_sub(d)
            } else {
                self.w.chain.finalized()
            }
        };
        let mut extra = 0;
        for round in 0..ROUNDS {
            self.m.mon.step += 1;
            self.w.chain.set_fee(n(500_000_000), n(100_000_000));
            let k = self.rng.range(2, 6) + if round < 3 { 40 } else { 0 };
            self.w.chain.mine(k, &mut self.rng);
            self.w.now += self.rng.range(45, 75) * SEC;
            for _ in 0..3 {
                self.fire();
                self.drain();
                self.w.now += SEC / 4;
            }
            if self.restart.is_some() || self.finished {
                return;
            }
            if self.done(goal, false) && round > 11 {
                extra += 1;
                if extra > 3 {
                    break;
                }
            }
        }
        self.done(goal, true);
        self.solvent("at the end");
        self.state_checks();
        for u in self.users.clone() {
            let dest = h0x(&self.dest_pool[0]);
            let amount = n(0);
            let arg = enc(ep::WithdrawalArg { amount: nat(&amount), recipient: dest.clone() });
            let (_, r) = self.enter(u, CtxKind::WithdrawNative { amount, dest }, "withdraw_native_token", arg);
            self.m.mon.ck(matches!(r, Some(Response::Reply(_))), &["C13"], "no lock is left behind", || format!("{u}: {r:?}"));
        }
        for id in self.m.wds.keys().cloned().collect::<Vec<_>>() {
            self.ask_status(id);
        }
        self.all_events();
        let left = self.m.ctxs.len();
        self.m.mon.ck(left == 0, &["C13"], "nothing is under way when all calls are answered", || format!("{left} contexts left"));
        self.m.mon.stat("scenarios completed");
        self.finished = true;
    }
    /// Whether all obligations are met; judges them if asked to.
    fn done(&mut self, goal: u64, judge: bool) -> bool {
        let mut all = true;
        // deposits
        if self.m.scraped < goal {
            all = false;
        }
        if judge {
            let s = self.m.scraped;
            self.m.mon.ck(s >= goal, &["C03"], "scraping catches up", || format!("scraped {s}, the boundary was {goal}"));
        }
        let logs: Vec<(u64, Log)> = self.w.chain.logs(self.helper_since + 1, self.m.scraped.min(goal)).map(|(b, l)| (b, l.clone())).collect();
        for (b, l) in logs {
            if Some(l.addr) != self.m.conf.helper || self.m.skipped.contains(&b) {
                continue;
            }
            let Decoded::Ok(d) = decode_deposit(&l) else { continue };
            if let Some(t) = &d.token {
                match self.m.token_by_addr(t) {
                    Some(t) if t.since_block < b => {}
                    _ => continue,
                }
            }
            let s = (l.tx, l.log_index);
            let a = self.m.acc.get(&s);
            if a.map(|a| a.quarantined).unwrap_or(false) {
                continue;
            }
            let ok = a.map(|a| a.minted.is_some()).unwrap_or(false);
            all &= ok;
            if judge {
                let k = if d.token.is_some() { "token" } else { "native" };
                let minted = self.m.mints.get(&s).map(|v| v.len()).unwrap_or(0);
                self.m.mon.ck(ok && minted == 1, &["C03", "C01"], &format!("a {k} deposit is minted in the end"), || format!("block {b} {d:?}: accepted {a:?}, {minted} mints"));
            }
        }
        // withdrawals
        let e = self.m.cur_est().cloned();
        let base = self.w.chain.base();
        for w in self.m.wds.values().cloned().collect::<Vec<_>>() {
            let afford = match (&e, w.txs.last()) {
                (_, Some(t)) => t.max_fee >= base,
                (Some(e), None) => match &w.erc20 {
                    None => w.amount >= e.max() * NATIVE_GAS,
                    Some(x) => &e.base + &e.prio <= &x.3 / ERC20_GAS,
                },
                (None, None) => true,
            };
            if !afford {
                self.m.mon.stat("withdrawals that cannot pay their fee");
                continue;
            }
            all &= w.fin.is_some();
            if judge {
                let k = if w.erc20.is_some() { "token" } else { "native" };
                let r = if w.txs.len() > 1 { " after replacement" } else { "" };
                self.m.mon.ck(w.fin.is_some(), &["C09"], &format!("a {k} withdrawal is finalized in the end{r}"), || format!("{w:?}"));
            }
        }
        for (k, d) in self.m.due.clone() {
            if d.quarantined {
                continue;
            }
            let ok = d.minted.len() == 1 && d.event.is_some();
            all &= ok;
            if judge {
                self.m.mon.ck(ok, &["C08"], "a due reimbursement is paid in the end", || format!("{k:?} {d:?}"));
            }
        }
        all
    }
}
