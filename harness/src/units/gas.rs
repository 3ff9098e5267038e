//! C17: the price arithmetic on extreme values.
use super::U;
use crate::util::*;
use crate::world::*;
use evm_minter::numeric::{BlockNumber, GasAmount, WeiPerGas};
use evm_minter::rpc_declrations::FeeHistory;
use evm_minter::tx::{estimate_transaction_fee, GasFeeEstimate, TransactionPrice};

fn b32(v: &N) -> [u8; 32] {
    let b = v.to_bytes_be();
    let mut o = [0u8; 32];
    o[32 - b.len()..].copy_from_slice(&b);
    o
}
fn wpg(v: &N) -> WeiPerGas {
    WeiPerGas::from_be_bytes(b32(v))
}
fn of(v: WeiPerGas) -> N {
    N::from_bytes_be(&v.to_be_bytes())
}

pub fn run(u: &mut U) {
    let max = (n(1) << 256u32) - 1u8;
    let min = n(GWEI);
    let mut w = W::new();
    w.install();
    for _ in 0..u.rounds(6000) {
        u.case();
        // the estimate
        let small = u.rng.pm(600);
        let mut val = |u: &mut U| if small { n(u.rng.below(5 * GWEI)) } else { u.u256() };
        let (kb, kr) = (u.rng.below(7), u.rng.below(6));
        let base: Vec<N> = (0..kb).map(|_| val(u)).collect();
        let mut rew: Vec<Vec<N>> = vec![];
        for _ in 0..kr {
            let k = if u.rng.pm(800) { 1 } else { u.rng.below(3) };
            let r: Vec<N> = (0..k).map(|_| val(u)).collect();
            rew.push(r);
        }
        let h = FeeHistory {
            oldest_block: BlockNumber::from(u.rng.below(1000)),
            base_fee_per_gas: base.iter().map(wpg).collect(),
            reward: rew.iter().map(|r| r.iter().map(wpg).collect()).collect(),
        };
        let mut all: Vec<N> = rew.iter().flatten().cloned().collect();
        all.sort();
        let want = match (base.last(), all.get(all.len() / 2)) {
            (Some(b), Some(m)) => {
                let p = m.clone().max(min.clone());
                if b * n(2) + &p > max {
                    None
                } else {
                    Some((b.clone(), p))
                }
            }
            _ => None,
        };
        if let Some(got) = u.total("estimating never traps", || format!("{base:?} {rew:?}"), || estimate_transaction_fee(&h)) {
            let g = got.as_ref().ok().map(|e| (of(e.base_fee_per_gas), of(e.max_priority_fee_per_gas)));
            u.ck(g == want, "the estimate is the next base fee and the median priority fee", || format!("{base:?} {rew:?}: {g:?}, and not {want:?}"));
        }
        // prices
        let (base, prio) = (val(u), val(u));
        let e = GasFeeEstimate { base_fee_per_gas: wpg(&base), max_priority_fee_per_gas: wpg(&prio) };
        let gas = n(*u.rng.pick(&[21_000u64, 65_000, 1, 0, u64::MAX]));
        if let Some(p) = u.total("pricing never traps", || format!("{base} {prio}"), || e.clone().to_price(GasAmount::from_be_bytes(b32(&gas)))) {
            let m = (&base * n(2) + &prio).min(max.clone());
            let ok = of(p.max_fee_per_gas) == m && of(p.max_priority_fee_per_gas) == prio;
            u.ck(ok, "the maximum fee is twice the base fee plus the priority fee", || format!("{base} {prio}: {p:?}"));
            let f = N::from_bytes_be(&p.max_transaction_fee().to_be_bytes());
            let want = (&m * &gas).min(max.clone());
            u.ck(f == want, "the maximum transaction fee is the maximum fee for all gas", || format!("{m} * {gas}: {f}"));
        }
        if let Some(m) = u.total("pricing never traps", || format!("{base} {prio}"), || of(e.min_max_fee_per_gas())) {
            u.ck(m == (&base + &prio).min(max.clone()), "the least maximum fee is base fee plus priority fee", || format!("{base} {prio}: {m}"));
        }
        // replacements
        let (a, b) = (val(u), val(u));
        let (op, om) = if a <= b { (a, b) } else { (b, a) };
        let old = TransactionPrice { gas_limit: GasAmount::from(21_000u32), max_fee_per_gas: wpg(&om), max_priority_fee_per_gas: wpg(&op) };
        let least = (&base + &prio).min(max.clone());
        if let Some(q) = u.total("pricing never traps", || format!("{op} {om} {base} {prio}"), || old.clone().resubmit_transaction_price(e.clone())) {
            let (np, nm) = (of(q.max_priority_fee_per_gas), of(q.max_fee_per_gas));
            let w = || format!("({op}, {om}) against ({base}, {prio}): ({np}, {nm})");
            u.ck(q.gas_limit == old.gas_limit, "a replacement keeps the gas limit", w);
            if om >= least && op >= prio {
                u.ck(np == op && nm == om, "a price that still covers the estimate is kept", w);
            } else {
                let ten = (&op + (&op + n(9)) / n(10)).min(max.clone());
                u.ck(np >= ten, "a replacement raises the priority fee by ten percent", w);
                u.ck(np >= prio, "a replacement has at least the current priority fee", w);
                u.ck(nm >= om, "a replacement never lowers the maximum fee", w);
                u.ck(nm >= (&base + &np).min(max.clone()), "a replacement covers base fee and priority fee", w);
                u.ck(nm >= np, "the priority fee is within the maximum fee", w);
            }
        }
    }
}
