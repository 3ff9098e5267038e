//! C07, C10: encoding, hashing and storing of signed transactions on extreme values.
use super::U;
use crate::util::*;
use evm_minter::numeric::{GasAmount, TransactionNonce, Wei, WeiPerGas};
use evm_minter::tx::{AccessList, Eip1559Signature, Eip1559TransactionRequest, SignedEip1559TransactionRequest};
use k256::elliptic_curve::{ops::Reduce, point::AffineCoordinates, PrimeField};
use k256::{FieldBytes, ProjectivePoint, Scalar, U256};

fn scalar(b: &[u8; 32]) -> Scalar {
    <Scalar as Reduce<U256>>::reduce_bytes(FieldBytes::from_slice(b))
}
fn b32(v: &N) -> [u8; 32] {
    word_of(v)
}

pub fn run(u: &mut U) {
    let half = N::parse_bytes(b"7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0", 16).unwrap();
    for _ in 0..u.rounds(3000) {
        u.case();
        let (nonce, prio, fee, gas, amount) = (u.u256(), u.u256(), u.u256(), u.u256(), u.u256());
        let chain = match u.rng.below(4) {
            0 => *u.rng.pick(&[1u64, 56, 127, 128, 255, 256, 42161, 11155111]),
            1 => u.rng.below(300),
            _ => {
                let s = u.rng.below(64);
                u.rng.next() >> s
            }
        };
        let mut to: Addr = u.rng.bytes();
        let k = u.rng.below(20) as usize;
        if u.rng.pm(300) {
            to[..k].fill(0);
        }
        let len = *u.rng.pick(&[0usize, 1, 2, 55, 56, 68, 100, 255, 256, 300]);
        let mut data = u.rng.vec(len);
        if len == 1 {
            data[0] = *u.rng.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
        }
        let tx = Eip1559TransactionRequest {
            chain_id: chain,
            nonce: TransactionNonce::from_be_bytes(b32(&nonce)),
            max_priority_fee_per_gas: WeiPerGas::from_be_bytes(b32(&prio)),
            max_fee_per_gas: WeiPerGas::from_be_bytes(b32(&fee)),
            gas_limit: GasAmount::from_be_bytes(b32(&gas)),
            destination: evm_minter::eth_types::Address::new(to),
            amount: Wei::from_be_bytes(b32(&amount)),
            data: data.clone(),
            access_list: AccessList::new(),
        };
        let want = || format!("chain {chain} nonce {nonce} prio {prio} fee {fee} gas {gas} to {} amount {amount} data {}", h0x(&to), hex::encode(&data));
        // The key is chosen so that the signature has the r and s we want.
        let z = scalar(&tx.hash().0);
        let eph = match u.rng.below(3) {
            0 => Scalar::from(2u64).invert().unwrap(),
            1 => Scalar::from(1 + u.rng.below(2000)),
            _ => scalar(&u.rng.bytes()),
        };
        let p = (ProjectivePoint::GENERATOR * eph).to_affine();
        let r = scalar(&p.x().into());
        let s = {
            let bits = *u.rng.pick(&[8u64, 64, 200, 240, 247, 248, 249, 255, 255, 255]);
            let v = u.rng.big(bits).min(half.clone()).max(n(1));
            b32(&v)
        };
        let ss = scalar(&s);
        let d = (ss * eph - z) * r.invert().unwrap();
        let Ok(key) = k256::ecdsa::SigningKey::from_bytes(&d.to_repr()) else { continue };
        let odd: bool = p.y_is_odd().into();
        let sig = Eip1559Signature {
            signature_y_parity: odd,
            r: ethnum::u256::from_be_bytes(r.to_repr().into()),
            s: ethnum::u256::from_be_bytes(s),
        };
        let Some((raw, hash, stored)) = u.total("a signed transaction is encoded", want, || {
            let t = SignedEip1559TransactionRequest::new(tx.clone(), sig.clone());
            let mut b = vec![];
            minicbor::encode(&t, &mut b).unwrap();
            let again: Result<SignedEip1559TransactionRequest, _> = minicbor::decode(&b);
            let stored = matches!(&again, Ok(a) if *a == t && a.hash() == t.hash() && a.transaction() == &tx);
            (t.raw_transaction_hex(), t.hash().0, stored)
        }) else {
            continue;
        };
        u.ck(stored, "a signed transaction is stored and read back unchanged", want);
        if u.prop != "C07" {
            continue;
        }
        let bytes = hex::decode(raw.trim_start_matches("0x")).unwrap_or_default();
        let lead = r.to_repr().iter().take_while(|b| **b == 0).count().min(2) * 3 + s.iter().take_while(|b| **b == 0).count().min(2);
        u.ck(hash == keccak(&bytes), "the hash of a transaction is that of its bytes", want);
        match decode_raw_tx(&bytes) {
            Err(e) => u.ck(false, "the encoding is canonical", || format!("{e}: {raw}; {}", want())),
            Ok(t) => {
                u.ck(true, &format!("the encoding is canonical, leading zeros {lead}"), String::new);
                let same = t.chain_id == n(chain) && t.nonce == nonce && t.prio == prio && t.max_fee == fee && t.gas == gas && t.to == to && t.value == amount && t.data == data;
                u.ck(same, "the bytes encode the transaction", || format!("{t:?}; {}", want()));
                u.ck(t.from == addr_of_key(key.verifying_key()), "the signer is recovered from the bytes", || format!("{raw}; {}", want()));
            }
        }
    }
}
