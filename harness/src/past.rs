//! Event logs as the pinned version of the minter wrote them (corpus/*.json), and what it said and did when it went on
//! from them. Whatever the minter has become, it must go on from them in the same way.
use crate::canister::message;
use crate::iface::lost;
use crate::mon::Mon;
use crate::rpc::{decode, Req};
use crate::util::h0x;
use crate::world::{Ans, W, SEC};
use candid::types::value::IDLArgs;
use candid::{Nat, Principal};
use crate::wire as ep;
use ic_host::{with, Response};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::Mutex;

#[derive(Serialize, Deserialize, Clone, Default)]
pub struct Image {
    pub name: String,
    pub now: u64,
    pub size: usize,
    /// What of the stable memory is not zero.
    pub runs: Vec<(usize, String)>,
    /// Entry point, argument, answer (or the text of the trap).
    #[serde(default)]
    pub said: Vec<(String, String, Result<String, String>)>,
    /// Calls made when the timers ran.
    #[serde(default)]
    pub did: Vec<String>,
}
/// Filled while scenarios run under `vharness record`.
pub static TAKEN: Mutex<Option<Vec<Image>>> = Mutex::new(None);

pub fn snap() {
    let mut t = TAKEN.lock().unwrap();
    let Some(t) = t.as_mut() else { return };
    let (name, now, mem) = with(|h| (h.label.clone(), h.time, h.stable.clone()));
    let mut runs: Vec<(usize, Vec<u8>)> = vec![];
    for (i, b) in mem.iter().enumerate().filter(|x| *x.1 != 0) {
        match runs.last_mut() {
            Some((o, v)) if i - (*o + v.len()) < 16 => {
                v.resize(i - *o, 0);
                v.push(*b);
            }
            _ => runs.push((i, vec![*b])),
        }
    }
    let runs = runs.into_iter().map(|(o, v)| (o, hex::encode(v))).collect();
    t.push(Image { name, now, size: mem.len(), runs, ..Default::default() });
}

/// Starts the minter on the image; `asks` are put to it, or, if there are none, the ones made up from its log.
fn resume(im: &Image, asks: Vec<(String, String)>) -> Result<(Vec<(String, String, Result<String, String>)>, Vec<String>), String> {
    let im = im.clone();
    std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let mut mem = vec![0u8; im.size];
        for (o, b) in &im.runs {
            let b = hex::decode(b).unwrap();
            mem[*o..*o + b.len()].copy_from_slice(&b);
        }
        let mut w = W::new();
        w.now = im.now + SEC;
        with(|h| {
            h.stable = mem;
            h.time = im.now + SEC;
            h.self_id = w.me.as_slice().to_vec();
            h.balance = 1_000_000_000_000_000_000;
            h.replicated = true;
        });
        let r = message("canister_post_upgrade", "", 0, &Principal::from_slice(&[9, 9, 9]), candid::encode_args((None::<()>,)).unwrap());
        if let Some(t) = r.trap {
            return Err(t);
        }
        let asks = if asks.is_empty() { make_asks() } else { asks };
        let ask = |w: &W| -> Vec<_> {
            asks.iter()
                .map(|(m, a)| {
                    let (kind, name) = m.split_once('.').unwrap();
                    with(|h| h.time = w.now);
                    let r = message(kind, name, u64::MAX - 1, &Principal::from_slice(&[7]), hex::decode(a).unwrap());
                    let x = match (r.trap, r.resp) {
                        (Some(t), _) => Err(t),
                        (_, Some(Response::Reply(b))) => Ok(hex::encode(b)),
                        (_, x) => Err(format!("{x:?}")),
                    };
                    (m.clone(), a.clone(), x)
                })
                .collect()
        };
        let said = ask(&w);
        // what is left to do; nothing new has happened, and nothing succeeds
        if let Some(Ok(b)) = said.iter().find(|x| x.0.ends_with("get_minter_info")).map(|x| &x.2) {
            if let Ok((i,)) = candid::decode_args::<(ep::MinterInfo,)>(&hex::decode(b).unwrap()) {
                let h: Option<u64> = i.last_scraped_block_number.and_then(|n| u64::try_from(n.0).ok());
                w.chain.head = h.unwrap_or(0) + 300;
            }
        }
        w.hook = Some(Box::new(|_, _, r| match r {
            Req::Transfer(_) | Req::TransferFrom(_) | Req::SendRaw(_) => Ans::With(Response::Reject(2, "not now".into())),
            _ => Ans::Honest,
        }));
        let mut did = BTreeSet::new();
        let mut from: Option<u64> = None;
        let end = w.now + 900 * SEC;
        while w.now < end {
            while w.fire() {
                while let Some(c) = w.pend.front() {
                    let (r, _) = decode(c);
                    let all = || IDLArgs::from_bytes(&c.arg).map_or_else(|e| e.to_string(), |a| a.to_string());
                    let to = Principal::from_slice(&c.callee);
                    match &r {
                        Req::Transfer(a) => {
                            did.insert(format!("{to}: transfer {} to {}, memo {:?}, fee {:?}", a.amount, a.to, a.memo.as_ref().map(|m| hex::encode(&m.0)), a.fee));
                        }
                        Req::Sign => {
                            did.insert(format!("sign {}", all()));
                        }
                        Req::SendRaw(x) => {
                            did.insert(format!("send {x}"));
                        }
                        Req::Receipt(x) => {
                            did.insert(format!("receipt of {x}"));
                        }
                        Req::Logs(l) => {
                            let a: BTreeSet<String> = l.addresses.iter().map(|a| a.to_string()).collect();
                            let t: BTreeSet<String> = l.topics.iter().flatten().flatten().map(|a| a.to_string()).collect();
                            did.insert(format!("logs of {a:?} about {t:?}"));
                            if let Some(b) = crate::rpc::tag_number(&l.from_block) {
                                from = Some(from.map_or(b, |f| f.min(b)));
                            }
                        }
                        _ => {}
                    }
                    w.one();
                }
            }
            w.now += 10 * SEC;
        }
        did.insert(format!("logs from {from:?}"));
        Ok((said, did.into_iter().collect()))
    })
    .unwrap()
    .join()
    .unwrap_or_else(|e| Err(format!("panic: {}", e.downcast_ref::<String>().cloned().unwrap_or_default())))
}
fn make_asks() -> Vec<(String, String)> {
    let mut v = vec![];
    fn add<A: candid::utils::ArgumentEncoder>(v: &mut Vec<(String, String)>, m: &str, a: A) {
        v.push((m.to_string(), hex::encode(candid::encode_args(a).unwrap())))
    }
    add(&mut v, "canister_query.get_minter_info", ());
    add(&mut v, "canister_query.smart_contract_address", ());
    let mut start = 0;
    let (mut ids, mut dests, mut who) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    loop {
        let a = ep::events::GetEventsArg { start, length: 100 };
        add(&mut v, "canister_query.get_events", (a.clone(),));
        let Ok((r,)) = crate::canister::query::<_, (ep::events::GetEventsResult,)>("get_events", (a,)) else { break };
        for e in &r.events {
            use ep::events::EventPayload as P;
            match &e.payload {
                P::AcceptedNativeWithdrawalRequest { ledger_burn_index: i, destination: d, from: f, .. } => {
                    ids.insert(i.clone());
                    dests.insert(d.clone());
                    who.insert(*f);
                }
                P::AcceptedErc20WithdrawalRequest { native_ledger_burn_index: i, destination: d, from: f, .. } => {
                    ids.insert(i.clone());
                    dests.insert(d.clone());
                    who.insert(*f);
                }
                _ => {}
            }
        }
        start += r.events.len() as u64;
        if start >= r.total_event_count || r.events.is_empty() {
            break;
        }
    }
    ids.insert(Nat::from(1_000_000_000u64));
    dests.insert(h0x(&[0x11; 20]));
    use ep::WithdrawalSearchParameter as Q;
    for i in ids {
        let i: u64 = i.0.try_into().unwrap_or(0);
        add(&mut v, "canister_update.retrieve_witdrawal_status", (i,));
        add(&mut v, "canister_query.withdrawal_status", (Q::ByWithdrawalId(i),));
    }
    for d in dests.into_iter().take(12) {
        add(&mut v, "canister_query.withdrawal_status", (Q::ByRecipient(d),));
    }
    for p in who.into_iter().take(12) {
        add(&mut v, "canister_query.withdrawal_status", (Q::BySenderAccount(icrc_ledger_types::icrc1::account::Account { owner: p, subaccount: None }),));
    }
    v
}

/// Records what this version makes of the images taken; keeps those that between them have every kind of event often.
pub fn record(dir: &str) {
    use std::collections::BTreeMap;
    let mut all = vec![];
    for mut im in TAKEN.lock().unwrap().take().unwrap_or_default() {
        let Ok((said, did)) = resume(&im, vec![]) else { continue };
        im.said = said;
        im.did = did;
        let mut types: BTreeMap<String, u64> = BTreeMap::new();
        for (_, _, r) in im.said.iter().filter(|x| x.0.ends_with("get_events")) {
            let (r,) = candid::decode_args::<(ep::events::GetEventsResult,)>(&hex::decode(r.as_ref().unwrap()).unwrap()).unwrap();
            for e in r.events {
                let t = format!("{:?}", e.payload);
                // (with which of the optional parts it has)
                let k = t.split([' ', '(', '{']).next().unwrap().to_string();
                let parts = t.split(", ").filter(|x| x.contains("Some(")).filter_map(|x| x.split(": ").next()).collect::<Vec<_>>().join(" ");
                *types.entry(format!("{k} {parts}")).or_default() += 1;
                *types.entry(k).or_default() += 1;
            }
        }
        let len = serde_json::to_string(&im).unwrap().len();
        all.push((im, types, len));
    }
    let mut have: BTreeMap<String, u64> = BTreeMap::new();
    let mut kept = 0;
    while kept < 30 {
        let gain = |t: &BTreeMap<String, u64>, len: usize| t.iter().map(|(k, c)| (*c).min(5u64.saturating_sub(*have.get(k).unwrap_or(&0)))).sum::<u64>() as f64 / (len as f64 + 50_000.0);
        let Some(best) = (0..all.len()).max_by(|a, b| gain(&all[*a].1, all[*a].2).partial_cmp(&gain(&all[*b].1, all[*b].2)).unwrap()) else { break };
        if gain(&all[best].1, all[best].2) == 0.0 {
            break;
        }
        let (im, types, len) = all.swap_remove(best);
        for (k, c) in types {
            *have.entry(k).or_default() += c;
        }
        eprintln!("{}: {len} bytes, {} asked, {} done", im.name, im.said.len(), im.did.len());
        std::fs::write(format!("{dir}/{kept:02}.json"), serde_json::to_string(&im).unwrap()).unwrap();
        kept += 1;
    }
    eprintln!("{have:#?}");
}

pub fn run(mon: &mut Mon) {
    let mut files: Vec<_> = std::fs::read_dir("/verif/corpus").expect("corpus").filter_map(|e| Some(e.ok()?.path())).filter(|p| p.extension().map_or(false, |e| e == "json")).collect();
    files.sort();
    let p: &[&'static str] = &["C27"];
    let hs: Vec<_> = files
        .into_iter()
        .map(|f| {
            std::thread::spawn(move || {
                let im: Image = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
                let r = resume(&im, im.said.iter().map(|x| (x.0.clone(), x.1.clone())).collect());
                (im, r)
            })
        })
        .collect();
    for h in hs {
        let (im, r) = h.join().unwrap();
        let name = &im.name;
        mon.stat("unit cases");
        mon.stat("unit cases distinct");
        mon.ck(r.is_ok(), p, "an upgrade goes on from a log written before", || format!("{name}: {}", r.as_ref().err().unwrap()));
        let Ok((said, did)) = r else { continue };
        for (old, new) in im.said.iter().zip(&said) {
            let m = old.0.split_once('.').unwrap().1;
            mon.stat(&format!("{m} asked on logs written before"));
            let e = match (&old.2, &new.2) {
                (Ok(a), Ok(b)) => {
                    let read = |x: &String| IDLArgs::from_bytes(&hex::decode(x).unwrap()).unwrap();
                    let (a, b) = (read(a), read(b));
                    b.args.iter().zip(&a.args).find_map(|(b, a)| lost(b, a, ""))
                }
                (Err(_), Err(_)) => None,
                (a, b) => Some(format!("{a:?}, now {b:?}")),
            };
            mon.ck(e.is_none(), p, "what a log written before says is read as it was", || format!("{name}: {m} {}: {}", old.1, e.unwrap_or_default().chars().take(600).collect::<String>()));
        }
        let (a, b): (BTreeSet<_>, BTreeSet<_>) = (im.did.iter().collect(), did.iter().collect());
        for d in &did {
            mon.stat(&format!("{} left to do on logs written before", d.split(' ').find(|x| !x.ends_with(':')).unwrap_or("")));
        }
        mon.note(|| format!("{name}: {} answers compared, then done: {:?}", said.len(), did.iter().take(4).collect::<Vec<_>>()));
        mon.ck(a == b, p, "work left in a log written before is taken up", || format!("{name}: no more {:?}; new {:?}", a.difference(&b).take(3).collect::<Vec<_>>(), b.difference(&a).take(3).collect::<Vec<_>>()));
    }
}
