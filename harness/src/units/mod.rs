//! Monitors of single functions and of short scripted histories, driven by generated inputs.
//! Each file is its own feature, left out by build.sh if an item it names no longer exists.
use crate::mon::Mon;
use crate::util::*;

#[cfg(feature = "u_addr")]
mod addr;
#[cfg(feature = "u_events")]
pub mod events;
#[cfg(feature = "u_gas")]
mod gas;
#[cfg(feature = "u_logs")]
mod logs;
#[cfg(feature = "u_num")]
mod num;
#[cfg(feature = "u_rpcs")]
mod rpcs;
#[cfg(feature = "u_scripts")]
mod scripts;
#[cfg(feature = "u_tx")]
mod tx;

pub struct U {
    pub mon: Mon,
    pub rng: Rng,
    pub prop: &'static str,
    pub deep: bool,
}
impl U {
    /// The number of rounds: `quick` on every change, a multiple in depth.
    pub fn rounds(&self, quick: u64) -> u64 {
        quick * if self.deep { 40 } else { 1 }
    }
    pub fn case(&mut self) {
        self.mon.stat("unit cases");
    }
    pub fn ck(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) {
        let p = self.prop;
        self.mon.ck(ok, &[p], key, msg);
    }
    /// Runs `f`, which must not panic.
    pub fn total<T>(&mut self, key: &str, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let p = self.prop;
        self.mon.ck(r.is_ok(), &[p], key, what);
        r.ok()
    }
    /// A 256-bit value: small, near a power of two, near the maximum or any.
    pub fn u256(&mut self) -> N {
        let max = (n(1) << 256u32) - 1u8;
        let r = &mut self.rng;
        let v = match r.below(8) {
            0 => n(r.below(20)),
            1 => n(r.next()),
            2 => {
                let s = r.below(256) as u32;
                (n(1) << s) + n(r.below(3))
            }
            3 => {
                let s = r.below(256) as u32;
                let d = n(1 + r.below(3));
                let b = n(1) << s;
                if b > d {
                    b - d
                } else {
                    b
                }
            }
            4 => &max - n(r.below(5)),
            5 => n(r.next()) * n(1_000_000_007),
            _ => {
                let b = r.below(257);
                r.big(b)
            }
        };
        v.min(max)
    }
}

#[allow(unused_variables, unused_mut)]
pub fn run(prop: &'static str, seed: u64, deep: bool) -> Mon {
    let mut u = U { mon: Mon::default(), rng: Rng::new(seed ^ 0x5eed), prop, deep };
    #[cfg(feature = "u_num")]
    if prop == "C19" {
        num::run(&mut u);
    }
    #[cfg(feature = "u_addr")]
    if prop == "C21" {
        addr::run(&mut u);
    }
    #[cfg(feature = "u_logs")]
    if prop == "C15" {
        logs::run(&mut u);
    }
    #[cfg(feature = "u_gas")]
    if prop == "C17" {
        gas::run(&mut u);
    }
    #[cfg(feature = "u_rpcs")]
    if prop == "C14" {
        rpcs::run(&mut u);
    }
    #[cfg(feature = "u_tx")]
    if prop == "C07" || prop == "C10" {
        tx::run(&mut u);
    }
    #[cfg(feature = "u_events")]
    {
        if prop == "C27" {
            events::old(&mut u);
        }
        if prop == "C10" {
            events::stored(&mut u);
        }
    }
    if prop == "C27" {
        crate::past::run(&mut u.mon);
    }
    #[cfg(feature = "u_scripts")]
    scripts::run(&mut u, seed);
    u.mon.absorb(&crate::iface::take(""));
    u.mon
}
