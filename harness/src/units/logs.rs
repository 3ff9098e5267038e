//! C15: the deposit log decoder against the reference decoder, on generated logs.
use super::U;
use crate::chain::*;
use crate::util::*;
use evm_minter::deposit_logs::{LogParser, ReceivedDepositEvent, ReceivedDepositLogParser, ReceivedDepsitEventError};
use evm_minter::eth_types::Address;
use evm_minter::numeric::{BlockNumber, LogIndex};
use evm_minter::rpc_declrations::{Data, FixedSizeData, Hash, LogEntry, Quantity};

fn entry(l: &Log, block: u64) -> LogEntry {
    let on = |b: u8| l.absent & (1 << b) == 0;
    LogEntry {
        address: Address::new(l.addr),
        topics: l.topics.iter().map(|t| FixedSizeData(*t)).collect(),
        data: Data(l.data.clone()),
        block_number: on(0).then(|| BlockNumber::from(block)),
        transaction_hash: on(1).then_some(Hash(l.tx)),
        transaction_index: on(2).then(|| Quantity::from(l.tx_index)),
        block_hash: on(3).then_some(Hash([9; 32])),
        log_index: on(4).then(|| LogIndex::from(l.log_index)),
        removed: l.removed,
    }
}
fn principal_len(u: &mut U) -> usize {
    match u.rng.below(4) {
        0 => 29,
        1 => 10,
        2 => 1 + u.rng.below(29) as usize,
        _ => 9,
    }
}
fn sample(u: &mut U) -> Log {
    let k = principal_len(u);
    let mut p: Vec<u8> = u.rng.vec(k);
    if u.rng.pm(60) {
        p = vec![4];
    }
    let token: Addr = if u.rng.pm(500) { [0; 20] } else { u.rng.bytes() };
    let from: Addr = u.rng.bytes();
    let mut data = word_of_addr(&from).to_vec();
    let sub: H32 = match u.rng.below(3) {
        0 => [0; 32],
        1 => {
            let mut s = [0u8; 32];
            s[31] = u.rng.next() as u8;
            s
        }
        _ => u.rng.bytes(),
    };
    data.extend(sub);
    let v = u.u256();
    let mut l = Log {
        addr: u.rng.bytes(),
        topics: vec![deposit_topic(), word_of_addr(&token), word_of(&v), principal_word(&p)],
        data,
        tx: u.rng.bytes(),
        tx_index: u.rng.below(300) as _,
        log_index: u.rng.below(300) as _,
        removed: false,
        absent: 0,
    };
    let twist = |u: &mut U, w: &mut H32| {
        let i = u.rng.below(32) as usize;
        w[i] ^= 1 << u.rng.below(8);
    };
    for _ in 0..u.rng.below(3) {
        match u.rng.below(14) {
            0 => l.removed = true,
            1 => l.absent |= 1 << u.rng.below(5),
            2 => {
                l.topics.pop();
            }
            3 => l.topics.push(u.rng.bytes()),
            4 => l.data.push(u.rng.next() as u8),
            5 => {
                l.data.pop();
            }
            6 => {
                let x = u.rng.below(100) as usize;
                l.data = u.rng.vec(x);
            }
            7 => l.data.extend([0u8; 32]),
            8 if !l.topics.is_empty() => twist(u, &mut l.topics[0]),
            9 if l.topics.len() > 1 => {
                let i = u.rng.below(12) as usize;
                l.topics[1][i] = 1;
            }
            10 if l.topics.len() > 3 => twist(u, &mut l.topics[3]),
            11 if l.topics.len() > 3 => l.topics[3][0] = u.rng.next() as u8,
            12 if l.data.len() > 12 => {
                let i = u.rng.below(12) as usize;
                l.data[i] = 0x80;
            }
            13 if l.topics.len() > 1 => {
                let (i, j) = (u.rng.below(l.topics.len() as u64) as usize, u.rng.below(l.topics.len() as u64) as usize);
                l.topics.swap(i, j);
            }
            _ => {}
        }
    }
    l
}

fn fits(e: &ReceivedDepositEvent, d: &Deposit, block: u64) -> bool {
    let token = match e {
        ReceivedDepositEvent::Native(_) => None,
        ReceivedDepositEvent::Erc20(x) => Some(x.erc20_contract_address.into_bytes()),
    };
    token == d.token
        && e.value().0 == d.value
        && e.principal() == d.principal
        && e.subaccount() == d.subaccount
        && e.from_address().into_bytes() == d.from
        && e.transaction_hash().0 == d.tx
        && e.log_index() == LogIndex::from(d.log_index)
        && e.block_number() == BlockNumber::from(block)
}
fn judge(r: &Result<ReceivedDepositEvent, ReceivedDepsitEventError>, l: &Log, block: u64) -> bool {
    match (decode_deposit(l), r) {
        (Decoded::Ok(d), Ok(e)) => fits(e, &d, block),
        (Decoded::Pending, Err(ReceivedDepsitEventError::PendingLogEntry)) => true,
        (Decoded::Invalid, Err(ReceivedDepsitEventError::InvalidEventSource { source, .. })) => {
            source.transaction_hash.0 == l.tx && source.log_index == LogIndex::from(l.log_index)
        }
        _ => false,
    }
}

pub fn run(u: &mut U) {
    for _ in 0..u.rounds(20_000) {
        u.case();
        let l = sample(u);
        let block = u.rng.next() >> 20;
        let e = entry(&l, block);
        if let Some(r) = u.total("decoding a log never traps", || format!("{l:?}"), || ReceivedDepositLogParser::parse_log(e)) {
            u.ck(judge(&r, &l, block), "a log yields exactly its deposit or an error against its own source", || format!("{l:?}: {r:?}"));
        }
        // a batch
        if u.rng.pm(100) {
            let k = u.rng.below(8);
            let ls: Vec<Log> = (0..k).map(|_| sample(u)).collect();
            let es: Vec<LogEntry> = ls.iter().map(|l| entry(l, block)).collect();
            if let Some((ok, bad)) = u.total("decoding a log never traps", || format!("{ls:?}"), || ReceivedDepositLogParser::parse_all_logs(es)) {
                let good: Vec<Deposit> = ls.iter().filter_map(|l| match decode_deposit(l) { Decoded::Ok(d) => Some(d), _ => None }).collect();
                let fine = ok.len() == good.len() && ok.iter().zip(&good).all(|(e, d)| fits(e, d, block)) && ok.len() + bad.len() == ls.len();
                u.ck(fine, "a batch yields all its deposits and nothing else", || format!("{ls:?}: {ok:?}"));
            }
        }
    }
}
