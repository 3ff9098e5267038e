//! Small independent helpers: randomness, hashing, RLP, CBOR memos, addresses.
use candid::Nat;
use num_bigint::BigUint;
use sha3::{Digest, Keccak256};

pub type N = BigUint;

#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    /// True with probability `p` per mille.
    pub fn pm(&mut self, p: u64) -> bool {
        self.below(1000) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn bytes<const K: usize>(&mut self) -> [u8; K] {
        let mut b = [0u8; K];
        for x in b.iter_mut() {
            *x = self.next() as u8
        }
        b
    }
    pub fn vec(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// A number of at most `bits` bits, with small and boundary values over-represented.
    pub fn big(&mut self, bits: u64) -> N {
        let b = self.range(0, bits);
        if b == 0 {
            return N::from(0u8);
        }
        let top = N::from(1u8) << (b - 1);
        match self.below(8) {
            0 => top,
            1 => (top << 1) - 1u8,
            _ => {
                let mut v = N::from_bytes_be(&self.vec(((b + 7) / 8) as usize));
                v %= &top;
                v + top
            }
        }
    }
}

pub fn keccak(b: &[u8]) -> [u8; 32] {
    Keccak256::digest(b).into()
}
pub fn n(x: u64) -> N {
    N::from(x)
}
pub fn nat(x: &N) -> Nat {
    Nat(x.clone())
}
pub fn h0x(b: &[u8]) -> String {
    format!("0x{}", hex::encode(b))
}

pub type Addr = [u8; 20];
pub type H32 = [u8; 32];

pub fn word_of_addr(a: &Addr) -> H32 {
    let mut w = [0u8; 32];
    w[12..].copy_from_slice(a);
    w
}
pub fn word_of(v: &N) -> H32 {
    let b = v.to_bytes_be();
    let mut w = [0u8; 32];
    w[32 - b.len()..].copy_from_slice(&b);
    w
}

/// Reference EIP-55 printer.
pub fn eip55(a: &Addr) -> String {
    let lower = hex::encode(a);
    let k = keccak(lower.as_bytes());
    let mut s = String::from("0x");
    for (i, c) in lower.chars().enumerate() {
        let nib = if i % 2 == 0 { k[i / 2] >> 4 } else { k[i / 2] & 15 };
        s.push(if nib >= 8 { c.to_ascii_uppercase() } else { c });
    }
    s
}
/// Reference parser of a destination: "0x" and forty hexadecimal digits of either case.
pub fn parse_addr(s: &str) -> Option<Addr> {
    let h = s.strip_prefix("0x")?;
    if h.len() != 40 || !h.bytes().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    let v = hex::decode(h).ok()?;
    v.try_into().ok()
}
pub fn parse_h32(s: &str) -> Option<H32> {
    let h = s.strip_prefix("0x")?;
    hex::decode(h).ok()?.try_into().ok()
}

// ---------------------------------------------------------------- RLP (strict decoder)
#[derive(Debug, Clone, PartialEq)]
pub enum Rlp {
    Str(Vec<u8>),
    List(Vec<Rlp>),
}
pub fn rlp_decode(b: &[u8]) -> Result<Rlp, String> {
    let (r, rest) = rlp_item(b)?;
    if !rest.is_empty() {
        return Err("trailing bytes".into());
    }
    Ok(r)
}
fn rlp_len(b: &[u8], k: usize) -> Result<(usize, &[u8]), String> {
    if b.len() < k || k > 8 {
        return Err("short length".into());
    }
    if b[0] == 0 {
        return Err("non-canonical length".into());
    }
    let mut l = 0usize;
    for x in &b[..k] {
        l = l.checked_mul(256).ok_or("len")?.checked_add(*x as usize).ok_or("len")?;
    }
    if l < 56 {
        return Err("non-canonical long length".into());
    }
    Ok((l, &b[k..]))
}
fn rlp_item(b: &[u8]) -> Result<(Rlp, &[u8]), String> {
    let t = *b.first().ok_or("empty")?;
    let take = |rest: &'static str, l: usize, b: &[u8]| -> Result<(), String> {
        if b.len() < l {
            Err(rest.to_string())
        } else {
            Ok(())
        }
    };
    match t {
        0..=0x7f => Ok((Rlp::Str(vec![t]), &b[1..])),
        0x80..=0xb7 => {
            let l = (t - 0x80) as usize;
            take("short string", l + 1, b)?;
            let s = b[1..1 + l].to_vec();
            if l == 1 && s[0] < 0x80 {
                return Err("non-canonical byte".into());
            }
            Ok((Rlp::Str(s), &b[1 + l..]))
        }
        0xb8..=0xbf => {
            let (l, rest) = rlp_len(&b[1..], (t - 0xb7) as usize)?;
            take("short string", l, rest)?;
            Ok((Rlp::Str(rest[..l].to_vec()), &rest[l..]))
        }
        _ => {
            let (l, rest) = if t <= 0xf7 {
                ((t - 0xc0) as usize, &b[1..])
            } else {
                rlp_len(&b[1..], (t - 0xf7) as usize)?
            };
            take("short list", l, rest)?;
            let (mut body, after) = rest.split_at(l);
            let mut v = vec![];
            while !body.is_empty() {
                let (i, r) = rlp_item(body)?;
                v.push(i);
                body = r;
            }
            Ok((Rlp::List(v), after))
        }
    }
}
pub fn rlp_encode(r: &Rlp) -> Vec<u8> {
    fn head(base: u8, l: usize) -> Vec<u8> {
        if l < 56 {
            vec![base + l as u8]
        } else {
            let lb: Vec<u8> = l.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
            let mut v = vec![base + 55 + lb.len() as u8];
            v.extend(lb);
            v
        }
    }
    match r {
        Rlp::Str(s) if s.len() == 1 && s[0] < 0x80 => s.clone(),
        Rlp::Str(s) => {
            let mut v = head(0x80, s.len());
            v.extend(s);
            v
        }
        Rlp::List(l) => {
            let body: Vec<u8> = l.iter().flat_map(rlp_encode).collect();
            let mut v = head(0xc0, body.len());
            v.extend(body);
            v
        }
    }
}
pub fn rlp_uint(v: &N) -> Rlp {
    Rlp::Str(if *v == n(0) { vec![] } else { v.to_bytes_be() })
}
fn as_uint(r: &Rlp) -> Result<N, String> {
    match r {
        Rlp::Str(s) if s.first() == Some(&0) => Err("leading zero in integer".into()),
        Rlp::Str(s) if s.len() <= 32 => Ok(N::from_bytes_be(s)),
        _ => Err("not an integer".into()),
    }
}

/// The fields of an EIP-1559 transaction as decoded from raw bytes.
#[derive(Debug, Clone, PartialEq)]
pub struct RawTx {
    pub chain_id: N,
    pub nonce: N,
    pub prio: N,
    pub max_fee: N,
    pub gas: N,
    pub to: Addr,
    pub value: N,
    pub data: Vec<u8>,
    pub hash: H32,
    pub from: Addr,
}

pub fn decode_raw_tx(raw: &[u8]) -> Result<RawTx, String> {
    if raw.first() != Some(&2) {
        return Err("not a type-2 transaction".into());
    }
    let Rlp::List(f) = rlp_decode(&raw[1..])? else {
        return Err("not a list".into());
    };
    if f.len() != 12 {
        return Err(format!("{} fields", f.len()));
    }
    let Rlp::Str(to) = &f[5] else { return Err("to".into()) };
    let to: Addr = to.clone().try_into().map_err(|_| "destination is not 20 bytes".to_string())?;
    let Rlp::Str(data) = &f[7] else { return Err("data".into()) };
    if f[8] != Rlp::List(vec![]) {
        return Err("access list not empty".into());
    }
    let unsigned = rlp_encode(&Rlp::List(f[..9].to_vec()));
    let mut pre = vec![2u8];
    pre.extend(&unsigned);
    let sighash = keccak(&pre);
    let parity = as_uint(&f[9])?;
    let (r, s) = (as_uint(&f[10])?, as_uint(&f[11])?);
    let half = N::parse_bytes(b"7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0", 16).unwrap();
    if s > half {
        return Err("high-s signature".into());
    }
    let mut sig = [0u8; 64];
    sig[..32].copy_from_slice(&word_of(&r));
    sig[32..].copy_from_slice(&word_of(&s));
    let sig = k256::ecdsa::Signature::from_slice(&sig).map_err(|e| format!("signature: {e}"))?;
    let rid = if parity == n(0) {
        0u8
    } else if parity == n(1) {
        1
    } else {
        return Err("parity".into());
    };
    let vk = k256::ecdsa::VerifyingKey::recover_from_prehash(&sighash, &sig, k256::ecdsa::RecoveryId::from_byte(rid).unwrap())
        .map_err(|e| format!("recover: {e}"))?;
    Ok(RawTx {
        chain_id: as_uint(&f[0])?,
        nonce: as_uint(&f[1])?,
        prio: as_uint(&f[2])?,
        max_fee: as_uint(&f[3])?,
        gas: as_uint(&f[4])?,
        to,
        value: as_uint(&f[6])?,
        data: data.clone(),
        hash: keccak(raw),
        from: addr_of_key(&vk),
    })
}
pub fn addr_of_key(vk: &k256::ecdsa::VerifyingKey) -> Addr {
    let p = vk.to_encoded_point(false);
    keccak(&p.as_bytes()[1..])[12..].try_into().unwrap()
}

// ---------------------------------------------------------------- memos
#[derive(Debug, Clone, PartialEq)]
pub enum Memo {
    MintConvert { from: Addr, tx: H32, log_index: N },
    ReimburseTx { id: u64, tx: H32 },
    Reimburse { id: u64 },
    BurnConvert { to: Addr },
    BurnGasFee { symbol: String, amount: N, to: Addr },
    BurnErc20 { id: u64, to: Addr },
}
fn dec_big(d: &mut minicbor::Decoder<'_>) -> Option<N> {
    let p = d.position();
    if let Ok(v) = d.u64() {
        return Some(n(v));
    }
    d.set_position(p);
    d.tag().ok()?;
    Some(N::from_bytes_be(d.bytes().ok()?))
}
fn dec_arr<const K: usize>(d: &mut minicbor::Decoder<'_>) -> Option<[u8; K]> {
    d.bytes().ok()?.try_into().ok()
}
/// Decodes the memo of a mint or a burn (the numbering of variants is the published format).
pub fn decode_memo(b: &[u8], mint: bool) -> Option<Memo> {
    let mut d = minicbor::Decoder::new(b);
    if d.array().ok()? != Some(2) {
        return None;
    }
    let v = d.u32().ok()?;
    let k = d.array().ok()??;
    let m = match (mint, v, k) {
        (true, 0, 3) => Memo::MintConvert { from: dec_arr(&mut d)?, tx: dec_arr(&mut d)?, log_index: dec_big(&mut d)? },
        (true, 1, 2) => Memo::ReimburseTx { id: d.u64().ok()?, tx: dec_arr(&mut d)? },
        (true, 2, 1) => Memo::Reimburse { id: d.u64().ok()? },
        (false, 0, 1) => Memo::BurnConvert { to: dec_arr(&mut d)? },
        (false, 1, 3) => Memo::BurnGasFee { symbol: d.str().ok()?.to_string(), amount: dec_big(&mut d)?, to: dec_arr(&mut d)? },
        (false, 2, 2) => Memo::BurnErc20 { id: d.u64().ok()?, to: dec_arr(&mut d)? },
        _ => return None,
    };
    (d.position() == b.len()).then_some(m)
}
