#[path = "../../build/ws/minter/src/main.rs"]
#[allow(warnings)]
mod minter_main;
mod calls;
mod canister;
mod chain;
mod drive;
mod iface;
mod ledger;
mod model;
mod past;
mod mon;
mod rpc;
mod sim;
mod units;
mod util;
mod wire;
mod wb;
#[path = "../../kit/src/world.rs"]
#[allow(dead_code)]
mod world;

use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// The minter prints its log on stdout; what the harness has to say goes to stderr.
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let what = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        // panics of the minter's own code are part of the simulation
        if at.starts_with("src/") {
            PANICS.lock().unwrap().push(format!("{at}: {what}"));
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2..]),
        Some("replay") => replay(&a[2]),
        Some("record") => record(&a[2]),
        Some("explore") => explore(&a[2..]),
        _ => {
            eprintln!("usage: vharness check PROPERTY TIER SEED EVIDENCE REPLAYDIR | replay FILE | explore PROFILE SEED [COUNT]");
            2
        }
    };
    std::process::exit(code);
}

fn profile(name: &str) -> &'static str {
    sim::PROFILES.iter().find(|p| **p == name).expect("profile")
}

/// Debugging: runs scenarios and prints all violations.
fn explore(a: &[String]) -> i32 {
    let seed: u64 = a[1].parse().unwrap();
    if std::env::var("IFACE").is_ok() {
        iface::watch();
    }
    let k: u64 = a.get(2).map(|x| x.parse().unwrap()).unwrap_or(1);
    let names: Vec<&'static str> = if a[0] == "all" { sim::PROFILES.to_vec() } else { vec![profile(&a[0])] };
    let jobs: Vec<(u64, &'static str)> = (seed..seed + k).flat_map(|s| names.iter().map(move |n| (s, *n))).collect();
    let mut all: BTreeMap<(String, String), (u64, String)> = BTreeMap::new();
    if std::env::var("UNITS").is_ok() {
        let us: Vec<_> = (1..=28)
            .map(|i| {
                let p: &'static str = Box::leak(format!("C{i:02}").into_boxed_str());
                (p, std::thread::Builder::new().stack_size(16 << 20).spawn(move || units::run(p, seed, false)).unwrap())
            })
            .collect();
        for (p, h) in us {
            match h.join() {
                Ok(m) => {
                    for v in &m.viol {
                        all.entry((v.props.join(","), v.key.clone())).or_insert((0, format!("unit {p}: {}", v.msg.chars().take(500).collect::<String>()))).0 += 1;
                    }
                }
                Err(_) => {
                    all.insert(("HARNESS".into(), format!("units {p}")), (1, String::new()));
                }
            }
        }
    }
    let next = Arc::new(AtomicU64::new(0));
    let out: Arc<Mutex<(mon::Mon, BTreeMap<(String, String), (u64, String)>)>> = Default::default();
    out.lock().unwrap().1 = all;
    let jobs = Arc::new(jobs);
    let hs: Vec<_> = (0..threads())
        .map(|_| {
            let (next, out, jobs) = (next.clone(), out.clone(), jobs.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                let Some((s, n)) = jobs.get(i).copied() else { return };
                let t = Instant::now();
                let verbose = jobs.len() == 1;
                let r = std::panic::catch_unwind(|| drive::scenario(s, n, verbose));
                let mut o = out.lock().unwrap();
                match r {
                    Err(_) => {
                        let p = PANICS.lock().unwrap().join(" | ");
                        let e = o.1.entry(("HARNESS".into(), p)).or_insert((0, format!("{n} {s}")));
                        e.0 += 1;
                    }
                    Ok(sim) => {
                        for v in &sim.m.mon.viol {
                            let e = o.1.entry((v.props.join(","), v.key.clone())).or_insert((0, format!("{n} {s}: {}", v.msg.chars().take(500).collect::<String>())));
                            e.0 += 1;
                        }
                        o.0.merge(&sim.m.mon);
                        let ms = t.elapsed().as_millis() as u64;
                        o.0.statn("time ms", ms);
                        if ms > 4000 {
                            eprintln!("slow: {n} {s}: {ms} ms, {} messages", sim.msgno);
                        }
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let o = out.lock().unwrap();
    if std::env::var("STATS").is_ok() {
        eprintln!("{:#?}", o.0.stats);
        for (p, m) in &o.0.seen {
            for (k, c) in m {
                eprintln!("{p} | {k} | {c}");
            }
        }
    }
    for (k, v) in &o.1 {
        eprintln!("({} | {}) x{} first {}", k.0, k.1, v.0, v.1);
    }
    eprintln!("{} scenarios, {} messages, {} kinds of violations", jobs.len(), o.0.stats.get("messages").unwrap_or(&0), o.1.len());
    (!o.1.is_empty()) as i32
}

/// Writes the corpus of C27: logs at upgrades of some scenarios.
fn record(dir: &str) -> i32 {
    *past::TAKEN.lock().unwrap() = Some(vec![]);
    for (k, n) in sim::PROFILES.iter().enumerate() {
        for s in 0..8 {
            drive::scenario(4_000 + 10 * k as u64 + s, n, false);
        }
    }
    past::record(dir);
    #[cfg(feature = "u_events")]
    units::events::record(dir);
    0
}

fn threads() -> usize {
    std::env::var("VTHREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16))
}

/// Which workloads exercise a property most (the others are used as well, less often).
fn emphasis(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["trap", "ledger", "storm", "rpc"],
        "C02" => &["hostile", "ledger", "upgrade", "calm"],
        "C03" => &["far", "rpc", "hostile", "cycles"],
        "C04" => &["ledger", "crowd", "trap", "calm"],
        "C05" => &["gas", "calm", "upgrade", "sign"],
        "C06" => &["gas", "sign", "upgrade", "chain"],
        "C07" => &["gas", "sign", "calm"],
        "C08" => &["gas", "chain", "ledger", "trap"],
        "C09" => &["gas", "sign", "crowd", "chain"],
        "C10" => &["upgrade", "trap", "storm", "gas"],
        "C11" => &["gas", "chain", "calm", "upgrade"],
        "C12" => &["ledger", "crowd", "calm", "trap"],
        "C13" => &["crowd", "trap", "ledger", "storm"],
        "C14" => &["rpc", "cycles", "far"],
        "C15" => &["hostile", "far", "rpc"],
        "C16" => &["upgrade", "calm", "hostile"],
        "C17" => &["gas", "sign", "chain", "calm"],
        "C18" => &["gas", "sign", "chain", "upgrade"],
        "C19" => &["far", "calm"],
        "C20" => &["cycles", "rpc"],
        "C21" => &["calm", "ledger"],
        "C22" => &["upgrade", "calm"],
        "C23" => &["chain", "rpc", "far"],
        "C24" => &["upgrade", "gas", "trap", "storm"],
        "C25" => &["calm", "rpc", "upgrade"],
        "C26" => &["upgrade", "ledger", "rpc"],
        _ => &["calm"],
    }
}

fn job(prop: &str, seed: u64, i: u64) -> (u64, &'static str) {
    let e = emphasis(prop);
    let all = sim::PROFILES;
    // every second scenario from the emphasised workloads, the others from all of them in turn
    let name = if i % 2 == 0 { profile(e[(i / 2) as usize % e.len()]) } else { all[(i / 2) as usize % all.len()] };
    let p: u64 = prop[1..].parse().unwrap_or(0);
    (seed.wrapping_mul(1_000_003).wrapping_add(p * 7919).wrapping_mul(65_537).wrapping_add(i), name)
}

struct Found {
    source: String,
    seed: u64,
    key: String,
    msg: String,
    trace: Vec<String>,
}

fn check(a: &[String]) -> i32 {
    let start = Instant::now();
    let prop: &'static str = Box::leak(a[0].clone().into_boxed_str());
    let tier = a[1].as_str();
    let seed: u64 = a[2].parse().unwrap_or(1);
    let (evidence, replays) = (&a[3], &a[4]);
    let num = |k: &str, q: u64, t: u64| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { t } else { q });
    // (every message is read twice for C28)
    let count = if prop == "C27" { 0 } else if prop == "C28" { num("VCOUNT", 120, 5_000) } else { num("VCOUNT", 350, 20_000) };
    let cap = Duration::from_secs(num("VCAP", 300, 7200));
    let hang = Duration::from_secs(150);

    if prop == "C28" {
        iface::watch();
    }
    // pure functions first
    let mut total = mon::Mon::default();
    let mut found: Vec<Found> = vec![];
    let mut unit_cases = 0u64;
    let mut unit_samples: Vec<serde_json::Value> = vec![];
    let mut units_broken: Vec<String> = vec![];
    let deep = tier == "thorough";
    {
        let r = std::thread::Builder::new().stack_size(16 << 20).spawn(move || units::run(prop, seed, deep)).unwrap();
        let t = Instant::now();
        while !r.is_finished() && t.elapsed() < hang * if deep { 20 } else { 1 } {
            std::thread::sleep(Duration::from_millis(5));
        }
        if !r.is_finished() {
            found.push(Found { source: "units".into(), seed, key: "a pure function returns".into(), msg: "no end after 150 s".into(), trace: vec![] });
        } else {
            match r.join() {
                Ok(m) => {
                    for v in &m.viol {
                        if v.props.contains(&prop) {
                            found.push(Found { source: "units".into(), seed, key: v.key.clone(), msg: v.msg.clone(), trace: vec![] });
                        }
                    }
                    unit_cases = m.stats.get("unit cases").copied().unwrap_or(0);
                    total.merge(&m);
                    unit_samples = m.trace.iter().take(3).map(|l| serde_json::json!(l.chars().take(400).collect::<String>())).collect();
                }
                Err(_) => units_broken.push(format!("unit monitors: {}", PANICS.lock().unwrap().join(" | "))),
            }
        }
    }

    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    #[derive(Default)]
    struct Out {
        total: mon::Mon,
        done: u64,
        digests: BTreeSet<u64>,
        nontrivial: u64,
        found: Vec<Found>,
        broken: Vec<String>,
        per: BTreeMap<&'static str, u64>,
        running: BTreeMap<u64, (Instant, u64, &'static str)>,
        samples: Vec<serde_json::Value>,
    }
    let out: Arc<Mutex<Out>> = Default::default();
    let hs: Vec<_> = (0..threads())
        .map(|_| {
            let (next, stop, out) = (next.clone(), stop.clone(), out.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= count || stop.load(Ordering::SeqCst) {
                    return;
                }
                let (s, name) = job(prop, seed, i);
                out.lock().unwrap().running.insert(i, (Instant::now(), s, name));
                let r = std::panic::catch_unwind(|| drive::scenario(s, name, false));
                let mut o = out.lock().unwrap();
                o.running.remove(&i);
                match r {
                    Err(_) => {
                        // This one says nothing; the others may still tell what is wrong.
                        let p = PANICS.lock().unwrap().drain(..).collect::<Vec<_>>().join(" | ");
                        o.broken.push(format!("{name} {s}: {p}"));
                        if o.broken.len() > 60 {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    Ok(sim) => {
                        o.done += 1;
                        *o.per.entry(name).or_default() += 1;
                        let m = &sim.m.mon;
                        let n: u64 = m.seen.get(prop).map(|x| x.values().sum()).unwrap_or(0);
                        if o.digests.insert(m.digest) && n > 0 {
                            o.nontrivial += 1;
                        }
                        if o.samples.len() < 3 && n > 0 {
                            let sample = serde_json::json!({"workload": name, "seed": s, "messages": sim.msgno, "monitor_evaluations": n,
                                "situations": m.seen.get(prop), "last_observations": m.trace.iter().rev().take(12).rev().map(|l| l.chars().take(240).collect::<String>()).collect::<Vec<_>>()});
                            o.samples.push(sample);
                        }
                        for v in &m.viol {
                            if v.props.contains(&prop) {
                                let trace = m.trace.iter().map(|l| l.chars().take(600).collect()).collect();
                                o.found.push(Found { source: name.into(), seed: s, key: v.key.clone(), msg: v.msg.clone(), trace });
                                if o.found.len() >= 3 {
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                        o.total.merge(m);
                    }
                }
            })
        })
        .collect();
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        if start.elapsed() > cap {
            stop.store(true, Ordering::SeqCst);
        }
        let mut o = out.lock().unwrap();
        let late: Vec<(u64, &'static str)> = o.running.values().filter(|(t, _, _)| t.elapsed() > hang).map(|(_, s, n)| (*s, *n)).collect();
        if let Some((s, n)) = late.first().copied() {
            // A minter that computes for ever serves nobody.
            if ["C03", "C09", "C13", "C19", "C20"].contains(&prop) {
                o.found.push(Found { source: n.into(), seed: s, key: "work under way comes to an end".into(), msg: "no end after 150 s".into(), trace: vec![] });
            } else {
                o.broken.push(format!("{n} {s}: no end after 150 s"));
            }
            stop.store(true, Ordering::SeqCst);
            break;
        }
        if start.elapsed() > cap + hang + Duration::from_secs(5) {
            break;
        }
    }
    let mut o = out.lock().unwrap();
    total.merge(&o.total);
    found.append(&mut o.found);
    o.broken.append(&mut units_broken);

    // known findings: never a violation, always said
    let known: Vec<(String, String)> = std::fs::read_to_string("known-findings.json")
        .ok()
        .and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok())
        .and_then(|v| v.get("known").and_then(|k| k.as_array().cloned()))
        .unwrap_or_default()
        .iter()
        .filter(|k| k["property"] == prop)
        .map(|k| (k["key"].as_str().unwrap_or("").to_string(), k["what"].as_str().unwrap_or("").to_string()))
        .collect();
    let (old, new): (Vec<Found>, Vec<Found>) = found.into_iter().partition(|f| known.iter().any(|(k, _)| *k == f.key));
    let mut said = BTreeSet::new();
    for f in &old {
        if said.insert(f.key.clone()) {
            eprintln!("KNOWN-FINDING: property={prop} {} ({} {})", f.key, f.source, f.seed);
        }
    }

    let empty = BTreeMap::new();
    let situations = total.seen.get(prop).unwrap_or(&empty);
    let checks: u64 = situations.values().sum();
    let ev = serde_json::json!({
        "property": prop, "tier": if deep { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": o.done + unit_cases,
            "distinct_nontrivial": o.nontrivial + total.stats.get("unit cases distinct").copied().unwrap_or(0),
            "rule": "one evaluation = one simulated life of the real minter (seeded workload, faults and schedule), or one generated case of a pure-function monitor; non-trivial and distinct = the property's monitors were evaluated in it and the digest of its observed trace (or its input) had not been seen before",
            "samples": if o.samples.is_empty() { &unit_samples } else { &o.samples },
            "scenarios": o.done,
            "scenarios_per_workload": o.per,
            "unit_cases": unit_cases,
            "monitor_evaluations": checks,
            "situations_observed": situations,
            "observed": total.stats,
        },
        "assumptions": [
            "the simulated system API (message execution, traps and rollback, timers, stable memory), ledgers, EVM RPC canister, EVM chain and management canister behave like the real ones where the minter can tell",
            "upgrades happen when no call is under way (the canister is stopped first)"
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": new.len(),
    });
    if let Some(d) = std::path::Path::new(evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Ok(mut f) = std::fs::File::create(evidence) {
        let _ = f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes());
    }
    if let Some(f) = new.iter().min_by_key(|f| f.trace.len()) {
        let _ = std::fs::create_dir_all(replays);
        let path = format!("{replays}/{prop}.json");
        let r = serde_json::json!({"property": prop, "source": f.source, "seed": f.seed, "situation": f.key, "message": f.msg, "deep": deep, "trace": f.trace});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
        eprintln!("{}: {}", f.key, f.msg.chars().take(1500).collect::<String>());
        eprintln!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    if !o.broken.is_empty() {
        eprintln!("HARNESS ERROR: {} scenarios: {}", o.broken.len(), o.broken.iter().take(5).cloned().collect::<Vec<_>>().join("\n"));
        return 3;
    }
    eprintln!("{prop}: held; {} scenarios, {unit_cases} unit cases, {checks} monitor evaluations in {} situations, {:.1} s", o.done, situations.len(), start.elapsed().as_secs_f64());
    0
}

fn replay(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let prop: &'static str = Box::leak(v["property"].as_str().unwrap().to_string().into_boxed_str());
    let seed = v["seed"].as_u64().unwrap();
    if prop == "C28" {
        iface::watch();
    }
    let m = if v["source"] == "units" {
        units::run(prop, seed, v["deep"].as_bool().unwrap_or(false))
    } else {
        drive::scenario(seed, profile(v["source"].as_str().unwrap()), true).m.mon
    };
    let mut bad = 0;
    for x in m.viol.iter().filter(|x| x.props.contains(&prop)) {
        eprintln!("{}: {}", x.key, x.msg);
        bad = 1;
    }
    if bad == 1 {
        eprintln!("VIOLATION property={prop} replay={path}");
    }
    bad
}
