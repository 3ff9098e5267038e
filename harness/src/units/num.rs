//! C19: amounts against unbounded integers, ranges against sets, two-key maps against a list.
use super::U;
use crate::util::*;
use candid::Nat;
use evm_minter::map::{DedupMultiKeyMap, MultiKeyMap, OccupiedKey};
use evm_minter::numeric::{BlockNumber, BlockRangeInclusive, Erc20Value, GasAmount, Wei, WeiPerGas};
use evm_rpc_types::Nat256;
use std::collections::BTreeMap;

fn bytes(v: &N) -> [u8; 32] {
    let b = v.to_bytes_be();
    let mut o = [0u8; 32];
    o[32 - b.len()..].copy_from_slice(&b);
    o
}
fn prim(v: &N) -> ethnum::u256 {
    ethnum::u256::from_be_bytes(bytes(v))
}
fn mk(v: &N) -> Wei {
    Wei::from_be_bytes(bytes(v))
}
fn val(w: Wei) -> N {
    N::from_bytes_be(&w.into_inner().to_be_bytes())
}
fn under(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && (s.len() - i) % 3 == 0 {
            o.push('_');
        }
        o.push(c);
    }
    o
}

pub fn run(u: &mut U) {
    for _ in 0..u.rounds(6000) {
        amounts(u);
    }
    for _ in 0..u.rounds(4000) {
        ranges(u);
    }
    for _ in 0..u.rounds(300) {
        maps(u);
    }
}

fn amounts(u: &mut U) {
    u.case();
    let (a, b) = (u.u256(), u.u256());
    let max = (n(1) << 256u32) - 1u8;
    let fit = |v: N| if v <= max { Some(v) } else { None };
    let sub = |x: &N, y: &N| if x >= y { Some(x - y) } else { None };
    let one = n(1);
    let (x, y) = (mk(&a), mk(&b));
    let w = || format!("{a} and {b}");
    macro_rules! same {
        ($k:expr, $got:expr, $want:expr) => {
            if let Some(got) = u.total("amount operations never trap", || format!("{} of {}", $k, w()), || $got) {
                let want = $want;
                u.ck(got == want, $k, || format!("of {}: {got:?}, and not {want:?}", w()));
            }
        };
    }
    same!("bytes to amount", val(Wei::from_be_bytes(bytes(&a))), a.clone());
    same!("amount to bytes", x.to_be_bytes(), bytes(&a));
    same!("sum", x.checked_add(y).map(val), fit(&a + &b));
    same!("difference", x.checked_sub(y).map(val), sub(&a, &b));
    same!("increment", x.checked_increment().map(val), fit(&a + &one));
    same!("decrement", x.checked_decrement().map(val), sub(&a, &one));
    same!("product", x.checked_mul(prim(&b)).map(val), fit(&a * &b));
    let s = u.rng.next() as u8;
    same!("product with a small number", x.checked_mul(s).map(val), fit(&a * n(s as u64)));
    let zero = b == n(0);
    same!("floor of a quotient", x.checked_div_floor(prim(&b)).map(val), if zero { None } else { Some(&a / &b) });
    same!("ceiling of a quotient", x.checked_div_ceil(prim(&b)).map(val), if zero { None } else { Some((&a + &b - &one) / &b) });
    same!("half", val(x.div_by_two()), &a / n(2));
    same!("order", x.cmp(&y), a.cmp(&b));
    same!("equality", x == y, a == b);
    same!("other unit", N::from_bytes_be(&x.change_units::<u8>().to_be_bytes()), a.clone());
    same!("decimal", x.to_string_inner(), a.to_string());
    same!("printed", format!("{x}"), under(&a.to_string()));
    same!("debugged", format!("{x:?}"), under(&a.to_string()));
    same!("hex", format!("{x:x}"), a.to_str_radix(16));
    same!("upper hex", format!("{x:X}"), a.to_str_radix(16).to_uppercase());
    same!("from hex", Wei::from_str_hex(&format!("0x{}", a.to_str_radix(16))).map(val).ok(), Some(a.clone()));
    same!("to candid", Nat::from(x).0, a.clone());
    same!("from candid", Wei::try_from(nat(&a)).map(val).ok(), Some(a.clone()));
    let big = (n(1) << 256u32) + &b;
    same!("too large from candid", Wei::try_from(nat(&big)).map(val).ok(), None);
    same!("to RPC", N::from_bytes_be(&Nat256::from(x).into_be_bytes()), a.clone());
    same!("from RPC", val(Wei::from(Nat256::from_be_bytes(bytes(&a)))), a.clone());
    same!("through CBOR", minicbor::to_vec(x).ok().and_then(|v| minicbor::decode::<Wei>(&v).ok()).map(val), Some(a.clone()));
    same!("words", val(Wei::from_words((prim(&a) >> 128u32).as_u128(), prim(&a).as_u128())), a.clone());
    let k = u.rng.next() as u128 * u.rng.next() as u128;
    same!("from a machine integer", val(Wei::from(k)), N::from(k));
    same!("from a constant", val(Wei::new(k)), N::from(k));
    same!("gas cost", WeiPerGas::from_be_bytes(bytes(&a)).transaction_cost(GasAmount::from_be_bytes(bytes(&b))).map(val), fit(&a * &b));
    same!(
        "gas price",
        x.into_wei_per_gas(GasAmount::from_be_bytes(bytes(&b))).map(|p| N::from_bytes_be(&p.to_be_bytes())),
        if zero { None } else { Some(&a / &b) }
    );
    let _ = Erc20Value::ZERO;
}

fn bn(v: &N) -> BlockNumber {
    BlockNumber::from_be_bytes(bytes(v))
}
fn pair(r: BlockRangeInclusive) -> (N, N) {
    let (s, e) = r.into_inner();
    (N::from_bytes_be(&s.to_be_bytes()), N::from_bytes_be(&e.to_be_bytes()))
}
fn ranges(u: &mut U) {
    u.case();
    let max = (n(1) << 256u32) - 1u8;
    let s = u.u256();
    let e = match u.rng.below(6) {
        0 => u.u256(),
        1 => {
            let d = n(u.rng.below(4));
            if s >= d {
                &s - d
            } else {
                s.clone()
            }
        }
        2 => &s + n(u.rng.below(4)),
        _ => &s + n(u.rng.below(5000)),
    }
    .min(max.clone());
    let r = BlockRangeInclusive::new(bn(&s), bn(&e));
    let w = || format!("{s}..={e}");
    let one = n(1);
    // halves
    if let Some(h) = u.total("range operations never trap", || format!("halves of {}", w()), || r.clone().partition_into_halves()) {
        let h = (h.0.map(pair), h.1.map(pair));
        let ok = match &h {
            (Some(l), None) => s >= e && *l == (s.clone(), e.clone()),
            (Some(l), Some(q)) => {
                s < e && l.0 == s && q.1 == e && &l.1 + &one == q.0 && l.1 >= l.0 && q.1 >= q.0 && {
                    let (a, b) = (&l.1 - &l.0, &q.1 - &q.0);
                    a >= b && a - b <= one
                }
            }
            _ => false,
        };
        u.ck(ok, "halves are adjacent, non-empty and even", || format!("{}: {h:?}", w()));
    }
    // at a point
    let mid = match u.rng.below(4) {
        0 => u.u256(),
        1 => s.clone(),
        2 => (&e + &one).min(max.clone()),
        _ => {
            let d = u.rng.below(5000);
            (&s + n(d)).min(max.clone())
        }
    };
    if let Some(h) = u.total("range operations never trap", || format!("{} at {mid}", w()), || r.clone().partition_at_checked(bn(&mid))) {
        let h = (h.0.map(pair), h.1.map(pair));
        let want = if mid <= s {
            (None, Some((s.clone(), e.clone())))
        } else if mid > e {
            (Some((s.clone(), e.clone())), None)
        } else {
            (Some((s.clone(), &mid - &one)), Some((mid.clone(), e.clone())))
        };
        u.ck(h == want, "a range is split at a point", || format!("{} at {mid}: {h:?}, and not {want:?}", w()));
    }
    // joined
    let (s2, e2) = (u.u256(), u.u256());
    if let Some(j) = u.total("range operations never trap", w, || pair(r.clone().join_with(BlockRangeInclusive::new(bn(&s2), bn(&e2))))) {
        u.ck(j == (s.clone().min(s2.clone()), e.clone().max(e2.clone())), "joined ranges span both", || format!("{} and {s2}..={e2}: {j:?}", w()));
    }
    // chunks
    let size = match u.rng.below(3) {
        0 => 1 + u.rng.below(4) as u16,
        1 => 500,
        _ => 1 + u.rng.below(65535) as u16,
    };
    let few = if s <= e { (&e - &s) / n(size as u64) < n(5000) } else { true };
    if few {
        if let Some(c) = u.total("range operations never trap", || format!("{} in {size}", w()), || r.clone().into_chunks(size).take(5003).map(pair).collect::<Vec<_>>()) {
            let mut next = s.clone();
            let mut ok = true;
            for (i, (a, b)) in c.iter().enumerate() {
                ok &= *a == next && a <= b && (b - a) < n(size as u64) && *b <= e;
                if i + 1 < c.len() && *b < max && (&e - b) > n(size as u64) * n(2) {
                    ok &= (b - a) + &one == n(size as u64);
                }
                next = b + &one;
            }
            ok &= if s > e { c.is_empty() } else { next == &e + &one };
            u.ck(ok, "chunks cover the range exactly", || format!("{} in {size}: {:?}", w(), &c[..c.len().min(4)]));
        }
    }
}

fn maps(u: &mut U) {
    let mut m: MultiKeyMap<u8, u8, u64> = MultiKeyMap::new();
    let mut d: DedupMultiKeyMap<u8, u8, u64> = DedupMultiKeyMap::new();
    // the model: entries by key; alternative keys are unique too
    let mut em: BTreeMap<u8, (u8, u64)> = BTreeMap::new();
    let mut ed: BTreeMap<u8, (u8, u64)> = BTreeMap::new();
    let span = 3 + u.rng.below(8);
    for _ in 0..40 {
        u.case();
        let (k, a, v) = (u.rng.below(span) as u8, u.rng.below(span) as u8, u.rng.next());
        let what = u.rng.below(8);
        let w = || format!("operation {what} with {k} {a} on {em:?} / {ed:?}");
        let ops = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut bad: Vec<&'static str> = vec![];
            let mut em = em.clone();
            let mut ed = ed.clone();
            match what {
                0..=3 => {
                    let occ = |e: &BTreeMap<u8, (u8, u64)>| {
                        if e.values().any(|x| x.0 == a) {
                            Some(OccupiedKey::AltKey(a))
                        } else if e.contains_key(&k) {
                            Some(OccupiedKey::Key(k))
                        } else {
                            None
                        }
                    };
                    let (wm, wd) = (occ(&em), occ(&ed));
                    let rm = m.try_insert(k, a, v).err().map(|e| (e.occupied_key, e.value));
                    let rd = d.try_insert(k, a, v).err().map(|e| (e.occupied_key, e.value));
                    if rm.is_some() != wm.is_some() || rd.is_some() != wd.is_some() {
                        bad.push("an insertion succeeds exactly if both keys are free");
                    }
                    for (got, want) in [(&rm, &wm), (&rd, &wd)] {
                        if let (Some((g, gv)), Some(_)) = (got, want) {
                            let e = if std::ptr::eq(got, &rm) { &em } else { &ed };
                            let real = match g {
                                OccupiedKey::Key(x) => *x == k && e.contains_key(x),
                                OccupiedKey::AltKey(x) => *x == a && e.values().any(|y| y.0 == *x),
                            };
                            if !real || *gv != v {
                                bad.push("a refused insertion names the occupied key and returns the value");
                            }
                        }
                    }
                    if wm.is_none() {
                        em.insert(k, (a, v));
                    }
                    if wd.is_none() {
                        ed.insert(k, (a, v));
                    }
                }
                4 | 5 => {
                    let got = m.remove_entry(&k);
                    let want = em.remove(&k).map(|(a, v)| (k, a, v));
                    if got != want {
                        bad.push("removal returns the entry");
                    }
                }
                6 => {
                    let got = m.drain(|x| *x <= k);
                    let want: Vec<_> = em.iter().filter(|(x, _)| **x <= k).map(|(x, (a, v))| (*x, *a, *v)).collect();
                    em.retain(|x, _| *x > k);
                    let mut g = got.clone();
                    g.sort();
                    if g != want {
                        bad.push("drain returns exactly the matching entries");
                    }
                }
                _ => {
                    if let Some(x) = m.get_mut(&k) {
                        *x = v;
                    }
                    if let Some(x) = em.get_mut(&k) {
                        x.1 = v;
                    }
                }
            }
            // every view agrees
            for q in 0..span as u8 {
                let e = em.get(&q).cloned();
                if m.get(&q).cloned() != e.map(|x| x.1) || m.get_entry(&q).map(|(a, v)| (*a, *v)) != e || m.contains(&q) != e.is_some() {
                    bad.push("lookups by key agree");
                }
                let f = em.iter().find(|(_, x)| x.0 == q).map(|(k, x)| (*k, x.1));
                if m.get_alt(&q).cloned() != f.map(|x| x.1) || m.contains_alt(&q) != f.is_some() {
                    bad.push("lookups by alternative key agree");
                }
                let e = ed.get(&q).cloned();
                if d.get(&q).cloned() != e.map(|x| x.1) || d.get_entry(&q).map(|(a, v)| (*a, *v)) != e {
                    bad.push("lookups by key agree");
                }
                let f = ed.iter().find(|(_, x)| x.0 == q).map(|(k, x)| (*k, x.1));
                if d.get_alt(&q).cloned() != f.map(|x| x.1) || d.contains_alt(&q) != f.is_some() || d.get_entry_alt(&q).map(|(k, v)| (*k, *v)) != f {
                    bad.push("lookups by alternative key agree");
                }
            }
            let im: Vec<_> = m.iter().map(|(k, a, v)| (*k, *a, *v)).collect();
            let id: Vec<_> = d.iter().map(|(k, a, v)| (*k, *a, *v)).collect();
            let wm: Vec<_> = em.iter().map(|(k, (a, v))| (*k, *a, *v)).collect();
            let wd: Vec<_> = ed.iter().map(|(k, (a, v))| (*k, *a, *v)).collect();
            if im != wm || id != wd || m.is_empty() != em.is_empty() {
                bad.push("iteration lists every entry in the order of the keys");
            }
            let mut al: Vec<u8> = em.values().map(|x| x.0).collect();
            al.sort();
            let mut dl: Vec<u8> = ed.values().map(|x| x.0).collect();
            dl.sort();
            if m.keys().cloned().collect::<Vec<_>>() != em.keys().cloned().collect::<Vec<_>>()
                || m.alt_keys().cloned().collect::<Vec<_>>() != al
                || d.alt_keys().cloned().collect::<Vec<_>>() != dl
            {
                bad.push("the key lists are complete");
            }
            (bad, em, ed)
        }));
        match ops {
            Err(_) => {
                let t = w();
                u.ck(false, "two-key maps never trap", || t);
                return;
            }
            Ok((bad, m2, d2)) => {
                for k in ["an insertion succeeds exactly if both keys are free", "a refused insertion names the occupied key and returns the value", "removal returns the entry", "drain returns exactly the matching entries", "lookups by key agree", "lookups by alternative key agree", "iteration lists every entry in the order of the keys", "the key lists are complete"] {
                    let b = bad.contains(&k);
                    let t = if b { w() } else { String::new() };
                    u.ck(!b, k, || t);
                }
                if !bad.is_empty() {
                    return;
                }
                em = m2;
                ed = d2;
            }
        }
    }
}
