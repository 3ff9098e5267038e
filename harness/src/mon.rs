//! Bookkeeping of what the monitors evaluated and what they found.
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    pub key: String,
    pub msg: String,
    pub step: u64,
}
#[derive(Default, Clone, Debug)]
pub struct Mon {
    /// property -> situation -> number of evaluations
    pub seen: BTreeMap<&'static str, BTreeMap<String, u64>>,
    pub viol: Vec<Viol>,
    pub stats: BTreeMap<String, u64>,
    pub trace: VecDeque<String>,
    pub step: u64,
    pub verbose: bool,
    /// Digest of everything noted: tells executions apart.
    pub digest: u64,
}
impl Mon {
    pub fn ck(&mut self, ok: bool, props: &[&'static str], key: &str, msg: impl FnOnce() -> String) -> bool {
        for p in props {
            let m = self.seen.entry(p).or_default();
            match m.get_mut(key) {
                Some(c) => *c += 1,
                None => {
                    m.insert(key.to_string(), 1);
                }
            }
        }
        if !ok && self.viol.len() < 200 {
            let v = Viol { props: props.to_vec(), key: key.to_string(), msg: msg(), step: self.step };
            self.note(|| format!("VIOL {v:?}"));
            self.viol.push(v);
        }
        ok
    }
    pub fn stat(&mut self, k: &str) {
        self.statn(k, 1)
    }
    pub fn statn(&mut self, k: &str, n: u64) {
        match self.stats.get_mut(k) {
            Some(c) => *c += n,
            None => {
                self.stats.insert(k.to_string(), n);
            }
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        for b in s.as_bytes() {
            self.digest = (self.digest ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        if self.verbose {
            eprintln!("[{}] {}", self.step, s);
        }
        if self.trace.len() >= 400 {
            self.trace.pop_front();
        }
        self.trace.push_back(format!("[{}] {}", self.step, s));
    }
    /// As [`merge`], with the violations.
    pub fn absorb(&mut self, o: &Mon) {
        self.merge(o);
        self.viol.extend(o.viol.iter().cloned());
    }
    pub fn merge(&mut self, o: &Mon) {
        for (p, m) in &o.seen {
            let d = self.seen.entry(p).or_default();
            for (k, c) in m {
                *d.entry(k.clone()).or_default() += c;
            }
        }
        for (k, c) in &o.stats {
            *self.stats.entry(k.clone()).or_default() += c;
        }
    }
}
