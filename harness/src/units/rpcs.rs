//! C14: the aggregation of provider answers, through the client's real calls.
use super::U;
use crate::rpc::*;
use crate::util::*;
use crate::world::*;
use candid::CandidType;
use evm_minter::eth_types::Address;
use evm_minter::numeric::BlockNumber;
use evm_minter::rpc_client::RpcClient;
use evm_minter::rpc_declrations::{BlockSpec, BlockTag, FeeHistoryParams, GetLogsParam, Hash, Quantity, SendRawTransactionResult, TransactionStatus};
use evm_minter::state::read_state;
use evm_rpc_types as t;
use std::cell::RefCell;
use std::fmt::Debug;
use std::future::Future;
use std::rc::Rc;
use t::{MultiRpcResult, RpcApi, RpcError, RpcService};

fn api(i: usize) -> RpcService {
    match i {
        0 => RpcService::EthMainnet(t::EthMainnetService::PublicNode),
        1 => RpcService::EthMainnet(t::EthMainnetService::Ankr),
        2 => RpcService::EthMainnet(t::EthMainnetService::Llama),
        _ => RpcService::Custom(RpcApi { url: format!("https://p{i}"), headers: None }),
    }
}

/// One client call with the given answer; None if it trapped.
fn ask<R: 'static, F: Future<Output = R> + 'static, T: CandidType + Clone + 'static>(w: &mut W, a: &MultiRpcResult<T>, f: impl FnOnce(RpcClient) -> F) -> Option<R> {
    let out: Rc<RefCell<Option<R>>> = Rc::new(RefCell::new(None));
    let o = out.clone();
    let body = candid::encode_args((a,)).unwrap();
    w.hook = Some(Box::new(move |_, _, r| if r.is_rpc() { Ans::With(ic_host::Response::Reply(body.clone())) } else { Ans::Honest }));
    w.in_message(|| {
        let c = read_state(RpcClient::from_state_all_providers);
        let fut = f(c);
        ic_cdk::spawn(async move {
            let r = fut.await;
            *o.borrow_mut() = Some(r);
        })
    });
    w.settle();
    let r = out.borrow_mut().take();
    r
}

/// What the providers said, and the reply the EVM RPC canister makes of it.
struct Said<T> {
    rs: Vec<Result<T, RpcError>>,
    multi: MultiRpcResult<T>,
}
fn say<T: Clone + PartialEq>(u: &mut U, mut value: impl FnMut(&mut U) -> T) -> Said<T> {
    let k = match u.rng.below(10) {
        0 => 1,
        1 => 2,
        2 => 4,
        3 => 5,
        _ => 3,
    };
    let pool: Vec<T> = (0..3).map(|_| value(u)).collect();
    let errs: Vec<RpcError> = (0..2).map(|_| if u.rng.pm(300) { too_large() } else { some_error(&mut u.rng) }).collect();
    let (bad, odd) = (*u.rng.pick(&[0u64, 200, 500, 800, 1000]), *u.rng.pick(&[0u64, 200, 500]));
    let rs: Vec<Result<T, RpcError>> = (0..k)
        .map(|_| {
            if u.rng.pm(bad) {
                Err(errs[u.rng.below(2) as usize].clone())
            } else if u.rng.pm(odd) {
                Ok(pool[1 + u.rng.below(2) as usize].clone())
            } else {
                Ok(pool[0].clone())
            }
        })
        .collect();
    let same = rs.iter().all(|r| *r == rs[0]);
    let multi = if same {
        MultiRpcResult::Consistent(rs[0].clone())
    } else {
        MultiRpcResult::Inconsistent(rs.iter().enumerate().map(|(i, r)| (api(i), r.clone())).collect())
    };
    Said { rs, multi }
}
impl<T: Clone + PartialEq> Said<T> {
    fn shuffled(&self, u: &mut U) -> MultiRpcResult<T> {
        match &self.multi {
            MultiRpcResult::Inconsistent(v) => {
                let mut v = v.clone();
                for i in (1..v.len()).rev() {
                    v.swap(i, u.rng.below(i as u64 + 1) as usize);
                }
                MultiRpcResult::Inconsistent(v)
            }
            x => x.clone(),
        }
    }
    fn agreed(&self) -> Option<Result<T, ()>> {
        match &self.multi {
            MultiRpcResult::Consistent(r) => Some(r.clone().map_err(|_| ())),
            _ => None,
        }
    }
    fn oks(&self) -> Vec<&T> {
        self.rs.iter().filter_map(|r| r.as_ref().ok()).collect()
    }
    /// All who answered agree, and they are at least two.
    fn equal(&self) -> Result<T, ()> {
        if let Some(r) = self.agreed() {
            return r;
        }
        let o = self.oks();
        if o.len() >= 2 && o.iter().all(|x| *x == o[0]) {
            Ok(o[0].clone())
        } else {
            Err(())
        }
    }
}

fn judge<G: PartialEq + Debug>(u: &mut U, key: &str, what: String, got: Option<Result<G, ()>>, again: Option<Result<G, ()>>, want: Result<G, ()>) {
    u.ck(got.as_ref() == Some(&want), key, || format!("{what}: {got:?}, and not {want:?}"));
    u.ck(got == again, "the order of the providers does not matter", || format!("{what}: {got:?} and {again:?}"));
}

pub fn run(u: &mut U) {
    let mut w = W::new();
    w.install();
    w.chain.endow = n(0);
    for _ in 0..u.rounds(500) {
        u.case();
        // blocks
        let head = w.chain.head;
        let s = say(u, |u| {
            let mut b = block_of(&crate_chain(head), 10 + u.rng.below(5));
            if u.rng.pm(300) {
                b.base_fee_per_gas = Some(t::Nat256::from(u.rng.below(1000)));
            }
            b
        });
        let go = |w: &mut W, m: &MultiRpcResult<t::Block>| {
            ask(w, m, |c| async move { c.get_block_by_number(BlockSpec::Tag(BlockTag::Finalized)).await }).map(|r| r.map(|b| from_bn(b.number)).map_err(|_| ()))
        };
        let (a, b) = (go(&mut w, &s.multi), go(&mut w, &s.shuffled(u)));
        let want = s.equal().map(|b| from256(&b.number));
        judge(u, "a block needs agreement", format!("{:?}", s.multi), a, b, want);

        // logs
        let s = say(u, |u| {
            let k = u.rng.below(3);
            (0..k).map(|_| log_of(u)).collect::<Vec<_>>()
        });
        let go = |w: &mut W, m: &MultiRpcResult<Vec<t::LogEntry>>| {
            let p = GetLogsParam { from_block: BlockSpec::Number(BlockNumber::from(5u8)), to_block: BlockSpec::Number(BlockNumber::from(9u8)), address: vec![Address::new([7; 20])], topics: vec![] };
            ask(w, m, |c| async move { c.get_logs(p).await }).map(|r| {
                r.map(|v| {
                    v.iter()
                        .map(|l| (l.address.into_bytes().to_vec(), l.topics.iter().map(|x| x.0).collect::<Vec<_>>(), l.data.0.clone(), l.block_number.map(from_bn), l.transaction_hash.map(|h| h.0), l.block_hash.map(|h| h.0), l.log_index.map(|x| N::from_bytes_be(&x.to_be_bytes())), l.removed))
                        .collect::<Vec<_>>()
                })
                .map_err(|_| ())
            })
        };
        let (a, b) = (go(&mut w, &s.multi), go(&mut w, &s.shuffled(u)));
        let want = s.equal().map(|v| {
            v.into_iter()
                .map(|l| {
                    let h = |x: t::Hex32| -> [u8; 32] { x.into() };
                    let a: [u8; 20] = l.address.into();
                    let d: Vec<u8> = l.data.into();
                    (a.to_vec(), l.topics.into_iter().map(h).collect::<Vec<_>>(), d, l.block_number.as_ref().map(from256), l.transaction_hash.map(h), l.block_hash.map(h), l.log_index.as_ref().map(from256), l.removed)
                })
                .collect::<Vec<_>>()
        });
        judge(u, "logs need agreement", format!("{:?}", s.multi), a, b, want);

        // receipts
        let s = say(u, |u| {
            if u.rng.pm(200) {
                return None;
            }
            let c = crate_chain(head);
            let _ = c;
            Some(receipt(u))
        });
        let go = |w: &mut W, m: &MultiRpcResult<Option<t::TransactionReceipt>>| {
            ask(w, m, |c| async move { c.get_transaction_receipt(Hash([3; 32])).await }).map(|r| {
                r.map(|o| {
                    o.map(|x| {
                        (x.block_hash.0, from_bn(x.block_number), N::from_bytes_be(&x.effective_gas_price.to_be_bytes()), N::from_bytes_be(&x.gas_used.to_be_bytes()), x.status == TransactionStatus::Success, x.transaction_hash.0)
                    })
                })
                .map_err(|_| ())
            })
        };
        let (a, b) = (go(&mut w, &s.multi), go(&mut w, &s.shuffled(u)));
        let want = s.equal().and_then(|o| match o {
            None => Ok(None),
            Some(x) => {
                let st = x.status.as_ref().map(from256);
                if st != Some(n(0)) && st != Some(n(1)) {
                    return Err(());
                }
                let h = |x: t::Hex32| -> [u8; 32] { x.into() };
                Ok(Some((h(x.block_hash), from256(&x.block_number), from256(&x.effective_gas_price), from256(&x.gas_used), st == Some(n(1)), h(x.transaction_hash))))
            }
        });
        judge(u, "a receipt needs agreement", format!("{:?}", s.multi), a, b, want);

        // counts
        let s = say(u, |u| t::Nat256::from(u.rng.below(6)));
        let go = |w: &mut W, m: &MultiRpcResult<t::Nat256>, fin: bool| {
            let a = Address::new([7; 20]);
            ask(w, m, |c| async move {
                if fin {
                    c.get_finalized_transaction_count(a).await
                } else {
                    c.get_latest_transaction_count(a).await
                }
            })
            .map(|r| r.map(|x| N::from_bytes_be(&x.to_be_bytes())).map_err(|_| ()))
        };
        let (a, b) = (go(&mut w, &s.multi, true), go(&mut w, &s.shuffled(u), true));
        judge(u, "the finalized transaction count needs agreement", format!("{:?}", s.multi), a, b, s.equal().map(|x| from256(&x)));
        let (a, b) = (go(&mut w, &s.multi, false), go(&mut w, &s.shuffled(u), false));
        let want = match s.agreed() {
            Some(r) => r.map(|x| from256(&x)),
            None => {
                let o = s.oks();
                if o.len() >= 2 {
                    Ok(o.iter().map(|x| from256(x)).min().unwrap())
                } else {
                    Err(())
                }
            }
        };
        judge(u, "the latest transaction count is the least of at least two", format!("{:?}", s.multi), a, b, want);

        // fee history
        let s = say(u, |u| {
            if u.rng.pm(100) {
                return None;
            }
            Some(t::FeeHistory {
                oldest_block: t::Nat256::from(u.rng.below(3)),
                base_fee_per_gas: vec![t::Nat256::from(u.rng.below(2))],
                gas_used_ratio: vec![],
                reward: vec![vec![t::Nat256::from(7u8)]],
            })
        });
        let go = |w: &mut W, m: &MultiRpcResult<Option<t::FeeHistory>>| {
            let p = FeeHistoryParams { block_count: Quantity::from(5u8), highest_block: BlockSpec::Tag(BlockTag::Latest), reward_percentiles: vec![20] };
            ask(w, m, |c| async move { c.fee_history(p).await }).map(|r| {
                r.map(|h| (from_bn(h.oldest_block), h.base_fee_per_gas.iter().map(|x| N::from_bytes_be(&x.to_be_bytes())).collect::<Vec<_>>(), h.reward.len())).map_err(|_| ())
            })
        };
        let (a, b) = (go(&mut w, &s.multi), go(&mut w, &s.shuffled(u)));
        let show = |h: &t::FeeHistory| (from256(&h.oldest_block), h.base_fee_per_gas.iter().map(from256).collect::<Vec<_>>(), h.reward.len());
        let want = match s.agreed() {
            Some(Ok(Some(h))) => Ok(show(&h)),
            Some(_) => Err(()),
            None => {
                let o: Vec<&t::FeeHistory> = s.oks().into_iter().flatten().collect();
                let mut groups: Vec<(N, Vec<&t::FeeHistory>)> = vec![];
                for h in &o {
                    let k = from256(&h.oldest_block);
                    match groups.iter_mut().find(|g| g.0 == k) {
                        Some(g) => g.1.push(h),
                        None => groups.push((k, vec![h])),
                    }
                }
                groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                if o.len() < 2 || groups.iter().any(|g| g.1.iter().any(|h| **h != *g.1[0])) || (groups.len() > 1 && groups[0].1.len() == groups[1].1.len()) {
                    Err(())
                } else {
                    Ok(show(groups[0].1[0]))
                }
            }
        };
        judge(u, "the fee history is the one most providers have", format!("{:?}", s.multi), a, b, want);

        // sending
        let s = say(u, |u| match u.rng.below(4) {
            0 => t::SendRawTransactionStatus::NonceTooLow,
            1 => t::SendRawTransactionStatus::InsufficientFunds,
            2 => t::SendRawTransactionStatus::NonceTooHigh,
            _ => t::SendRawTransactionStatus::Ok(Some(t::Hex32::from([u.rng.below(2) as u8; 32]))),
        });
        let m = s.shuffled(u);
        let got = ask(&mut w, &m, |c| async move { c.send_raw_transaction("0x00".into()).await }).map(|r| r.map_err(|_| ()));
        let kind = |x: &t::SendRawTransactionStatus| match x {
            t::SendRawTransactionStatus::Ok(_) => SendRawTransactionResult::Ok,
            t::SendRawTransactionStatus::InsufficientFunds => SendRawTransactionResult::InsufficientFunds,
            t::SendRawTransactionStatus::NonceTooLow => SendRawTransactionResult::NonceTooLow,
            t::SendRawTransactionStatus::NonceTooHigh => SendRawTransactionResult::NonceTooHigh,
        };
        let ok = match &got {
            None => false,
            Some(Ok(r)) => s.oks().iter().any(|x| kind(x) == *r),
            Some(Err(())) => s.oks().is_empty(),
        };
        u.ck(ok, "sending succeeds if any provider took the transaction", || format!("{m:?}: {got:?}"));
    }
    w.hook = None;
}

fn from_bn(b: BlockNumber) -> N {
    N::from_bytes_be(&b.to_be_bytes())
}
fn crate_chain(head: u64) -> crate::chain::Chain {
    let mut c = W::new().chain;
    c.head = head;
    c
}
fn log_of(u: &mut U) -> t::LogEntry {
    t::LogEntry {
        address: t::Hex20::from([7u8; 20]),
        topics: vec![t::Hex32::from([u.rng.below(2) as u8; 32])],
        data: t::Hex::from(vec![u.rng.below(2) as u8; 3]),
        block_number: Some(t::Nat256::from(5 + u.rng.below(3))),
        transaction_hash: if u.rng.pm(900) { Some(t::Hex32::from([u.rng.below(3) as u8; 32])) } else { None },
        transaction_index: Some(t::Nat256::from(u.rng.below(2))),
        block_hash: Some(t::Hex32::from([5u8; 32])),
        log_index: Some(t::Nat256::from(u.rng.below(2))),
        removed: u.rng.pm(200),
    }
}
fn receipt(u: &mut U) -> t::TransactionReceipt {
    let mut w = W::new();
    let _ = &mut w;
    let st = u.rng.below(10);
    t::TransactionReceipt {
        block_hash: t::Hex32::from([u.rng.below(2) as u8; 32]),
        block_number: t::Nat256::from(u.rng.below(3)),
        effective_gas_price: t::Nat256::from(u.rng.below(3)),
        gas_used: t::Nat256::from(21_000u32),
        status: match st {
            0 => None,
            1 => Some(t::Nat256::from(2u8)),
            2..=4 => Some(t::Nat256::from(0u8)),
            _ => Some(t::Nat256::from(1u8)),
        },
        transaction_hash: t::Hex32::from([3u8; 32]),
        contract_address: None,
        from: t::Hex20::from([1u8; 20]),
        logs: vec![],
        logs_bloom: t::Hex256::from([0u8; 256]),
        to: None,
        transaction_index: t::Nat256::from(0u8),
        tx_type: t::HexByte::from(2u8),
    }
}
