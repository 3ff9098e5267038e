//! C21: addresses and hex data.
use super::U;
use crate::util::*;
use evm_minter::address::validate_address_as_destination;
use evm_minter::eth_types::Address;
use evm_minter::rpc_declrations::{Data, FixedSizeData, Hash};
use std::str::FromStr;

/// 0x and exactly `2 * k` hexadecimal digits of either case.
fn strict(s: &str, k: Option<usize>) -> Option<Vec<u8>> {
    let d = s.strip_prefix("0x")?;
    let c: Vec<char> = d.chars().collect();
    if c.len() % 2 != 0 || k.map(|k| c.len() != 2 * k).unwrap_or(false) {
        return None;
    }
    let v: Option<Vec<u32>> = c.iter().map(|c| if c.is_ascii() { c.to_digit(16) } else { None }).collect();
    Some(v?.chunks(2).map(|p| (p[0] * 16 + p[1]) as u8).collect())
}

fn text(u: &mut U, k: usize) -> String {
    let mut b: Vec<u8> = u.rng.vec(k);
    if u.rng.pm(150) {
        b = vec![0; k];
        if k > 0 && u.rng.pm(500) {
            b[k - 1] = u.rng.below(2) as u8;
        }
    }
    let lower = hex::encode(&b);
    let mut s: String = match u.rng.below(4) {
        0 => lower,
        1 => lower.to_uppercase(),
        _ => lower.chars().map(|c| if u.rng.pm(500) { c.to_ascii_uppercase() } else { c }).collect(),
    };
    s = format!("0x{s}");
    if k == 20 && u.rng.pm(200) {
        let a: [u8; 20] = b.clone().try_into().unwrap();
        s = eip55(&a);
    }
    let mut c: Vec<char> = s.chars().collect();
    let at = |u: &mut U, c: &Vec<char>| u.rng.below(c.len() as u64 + 1) as usize;
    match u.rng.below(16) {
        0 => {
            let i = at(u, &c).min(c.len() - 1);
            c.remove(i);
        }
        1 => {
            let i = at(u, &c);
            let x = *u.rng.pick(&['0', 'f', ' ', 'g', 'é', '\0', '漢', 'X', '-', '+', '_', '\n']);
            c.insert(i, x);
        }
        2 => {
            let i = at(u, &c).min(c.len() - 1);
            c[i] = *u.rng.pick(&['g', ' ', 'O', 'x', 'ａ', '１', 'G', '@', '`', '/', ':']);
        }
        3 => {
            c.remove(0);
            c.remove(0);
        }
        4 => c[1] = 'X',
        5 => {
            let i = at(u, &c);
            c.truncate(i);
        }
        6 => c.extend("00".chars()),
        7 => {
            c.insert(0, ' ');
        }
        8 => c.push(' '),
        9 => {
            c.splice(0..0, "0x".chars());
        }
        _ => {}
    }
    c.into_iter().collect()
}

pub fn run(u: &mut U) {
    for _ in 0..u.rounds(20_000) {
        u.case();
        let s = text(u, 20);
        let want = strict(&s, Some(20));
        if let Some(got) = u.total("parsing never traps", || s.clone(), || Address::from_str(&s)) {
            let g = got.as_ref().ok().map(|a| a.as_ref().to_vec());
            u.ck(g == want, "an address is 0x and forty hexadecimal digits", || format!("{s:?}: {g:?}"));
        }
        if let Some(got) = u.total("parsing never traps", || s.clone(), || validate_address_as_destination(&s)) {
            let want = want.clone().filter(|b| b.iter().any(|x| *x != 0));
            let g = got.ok().map(|a| a.as_ref().to_vec());
            u.ck(g == want, "a destination is any address but zero", || format!("{s:?}: {g:?}"));
        }
        // printing
        let b: [u8; 20] = if u.rng.pm(30) { [0; 20] } else { u.rng.bytes() };
        let a = Address::new(b);
        u.ck(a.to_string() == eip55(&b), "an address is printed in its EIP-55 form", || format!("{a} for {b:02x?}"));
        u.ck(format!("{a:?}") == eip55(&b), "an address is printed in its EIP-55 form", || format!("{a:?} for {b:02x?}"));
        u.ck(format!("{a:x}") == h0x(&b), "an address is printed in lower case", || format!("{a:x} for {b:02x?}"));
        u.ck(format!("{a:X}") == format!("0x{}", hex::encode_upper(b)), "an address is printed in upper case", || format!("{a:X}"));
        u.ck(Address::from_str(&a.to_string()) == Ok(a), "a printed address parses back", || a.to_string());
        u.ck(a.into_bytes() == b && a.is_native_token() == (b == [0; 20]), "an address keeps its bytes", || a.to_string());
        // words
        let w: [u8; 32] = (&a).into();
        u.ck(w == word_of_addr(&b), "an address is padded on the left", || format!("{w:02x?}"));
        let mut x = w;
        let dirty = u.rng.pm(500);
        if dirty {
            x[u.rng.below(12) as usize] = 1 << u.rng.below(8);
        }
        let got = Address::try_from(&x).ok();
        u.ck(got == if dirty { None } else { Some(a) }, "a word is an address only if its upper bytes are zero", || format!("{x:02x?}: {got:?}"));
        // CBOR
        let c = minicbor::to_vec(a).ok().and_then(|v| minicbor::decode::<Address>(&v).ok());
        u.ck(c == Some(a), "an address survives CBOR", || format!("{a}: {c:?}"));
        // fixed and free data
        let s = text(u, 32);
        let want = strict(&s, Some(32));
        if let Some(got) = u.total("parsing never traps", || s.clone(), || (FixedSizeData::from_str(&s).ok(), Hash::from_str(&s).ok())) {
            let g = (got.0.map(|x| x.0.to_vec()), got.1.map(|x| x.0.to_vec()));
            u.ck(g.0 == want && g.1 == want, "a word is 0x and sixty-four hexadecimal digits", || format!("{s:?}: {g:?}"));
        }
        let k = u.rng.below(70) as usize;
        let s = text(u, k);
        let want = strict(&s, None);
        if let Some(got) = u.total("parsing never traps", || s.clone(), || Data::from_str(&s).ok().map(|d| d.0)) {
            u.ck(got == want, "data is 0x and pairs of hexadecimal digits", || format!("{s:?}: {got:?}"));
        }
        let w: [u8; 32] = u.rng.bytes();
        let f = (FixedSizeData(w).to_string(), Hash(w).to_string());
        u.ck(f.0 == h0x(&w) && f.1 == h0x(&w), "words are printed as 0x and hexadecimal digits", || format!("{f:?}"));
    }
}
