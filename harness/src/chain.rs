//! A simulated EVM chain: sparse blocks, reorganisations, a mempool for the minter's account.
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Log {
    pub addr: Addr,
    pub topics: Vec<H32>,
    pub data: Vec<u8>,
    pub tx: H32,
    pub tx_index: u64,
    pub log_index: u64,
    pub removed: bool,
    /// Bit mask of the fields a (misbehaving) node reports as absent: number, tx hash, tx index, block hash, log index.
    pub absent: u8,
}

/// What a deposit log means.
#[derive(Clone, Debug, PartialEq)]
pub struct Deposit {
    /// `None` is the native token.
    pub token: Option<Addr>,
    pub value: N,
    pub principal: candid::Principal,
    pub subaccount: Option<H32>,
    pub from: Addr,
    pub tx: H32,
    pub log_index: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Decoded {
    Ok(Deposit),
    /// Not mined yet: has no source to blame.
    Pending,
    Invalid,
}

pub const DEPOSIT_TOPIC: &str = "deaddf8708b62ae1bf8ec4693b523254aa961b2da6bc5be57f3188ee784d6275";
pub fn deposit_topic() -> H32 {
    hex::decode(DEPOSIT_TOPIC).unwrap().try_into().unwrap()
}

pub fn principal_word(p: &[u8]) -> H32 {
    let mut w = [0u8; 32];
    w[0] = p.len() as u8;
    w[1..1 + p.len()].copy_from_slice(p);
    w
}

/// Reference decoder of the helper contract's deposit event.
pub fn decode_deposit(l: &Log) -> Decoded {
    if l.absent != 0 {
        return Decoded::Pending;
    }
    if l.removed || l.topics.len() != 4 || l.topics[0] != deposit_topic() || l.data.len() != 64 {
        return Decoded::Invalid;
    }
    let addr = |w: &[u8]| -> Option<Addr> {
        if w[..12].iter().any(|b| *b != 0) {
            None
        } else {
            Some(w[12..32].try_into().unwrap())
        }
    };
    let (Some(from), Some(token)) = (addr(&l.data[..32]), addr(&l.topics[1])) else {
        return Decoded::Invalid;
    };
    let sub: H32 = l.data[32..].try_into().unwrap();
    let p = &l.topics[3];
    let n = p[0] as usize;
    if n == 0 || n > 29 || p[1 + n..].iter().any(|b| *b != 0) {
        return Decoded::Invalid;
    }
    let bytes = &p[1..1 + n];
    if bytes == [4] {
        return Decoded::Invalid;
    }
    Decoded::Ok(Deposit {
        token: if token == [0; 20] { None } else { Some(token) },
        value: N::from_bytes_be(&l.topics[2]),
        principal: candid::Principal::from_slice(bytes),
        subaccount: if sub == [0; 32] { None } else { Some(sub) },
        from,
        tx: l.tx,
        log_index: l.log_index,
    })
}

#[derive(Clone, Debug)]
pub struct Mined {
    pub tx: RawTx,
    pub ok: bool,
    pub gas_used: u64,
    pub price: N,
    pub block: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub salt: u64,
    pub logs: Vec<Log>,
    pub txs: Vec<Mined>,
}

#[derive(Clone, Debug)]
pub struct Chain {
    pub chain_id: u64,
    pub head: u64,
    pub fdepth: u64,
    pub sdepth: u64,
    pub blocks: BTreeMap<u64, Block>,
    /// Base fees of the blocks near the head; the last entry belongs to the next block.
    pub fees: Vec<N>,
    pub rewards: Vec<N>,
    pub min_tip: N,
    pub queue: Vec<Log>,
    pub mempool: BTreeMap<u64, RawTx>,
    pub minter: Addr,
    pub first_nonce: u64,
    /// Native tokens the minter's account holds besides deposits.
    pub endow: N,
    pub fail_pm: u64,
    pub tx_seen: BTreeSet<H32>,
    pub reorgs: u64,
    pub deepest: u64,
    pub fork: u64,
    pub native_gas: u64,
    /// Deposits of native/ERC-20 tokens credit the minter's address only when the helper is genuine.
    pub helpers: Vec<Addr>,
}

impl Chain {
    pub fn finalized(&self) -> u64 {
        self.head.saturating_sub(self.fdepth)
    }
    pub fn safe(&self) -> u64 {
        self.head.saturating_sub(self.sdepth)
    }
    pub fn block_hash(&self, b: u64) -> H32 {
        let salt = self.blocks.get(&b).map(|x| x.salt).unwrap_or(0);
        keccak(format!("block {} {} {}", self.chain_id, b, salt).as_bytes())
    }
    pub fn mined(&self) -> impl Iterator<Item = &Mined> {
        self.blocks.values().flat_map(|b| b.txs.iter())
    }
    pub fn mined_by_hash(&self, h: &H32) -> Option<&Mined> {
        self.mined().find(|m| m.tx.hash == *h)
    }
    pub fn count_at(&self, block: u64) -> u64 {
        self.first_nonce + self.blocks.range(..=block).map(|(_, b)| b.txs.len() as u64).sum::<u64>()
    }
    pub fn latest_count(&self) -> u64 {
        self.count_at(self.head)
    }
    pub fn finalized_count(&self) -> u64 {
        self.count_at(self.finalized())
    }
    fn genuine(&self, l: &Log) -> Option<Deposit> {
        match decode_deposit(l) {
            Decoded::Ok(d) if self.helpers.contains(&l.addr) => Some(d),
            _ => None,
        }
    }
    /// Balance of the minter's account for a token (None: native), from the whole chain up to the head.
    pub fn balance(&self, token: Option<&Addr>) -> N {
        let mut plus = if token.is_none() { self.endow.clone() } else { n(0) };
        let mut minus = n(0);
        for b in self.blocks.values() {
            for l in &b.logs {
                if let Some(d) = self.genuine(l) {
                    if d.token.as_ref() == token {
                        plus += d.value;
                    }
                }
            }
            for m in &b.txs {
                match token {
                    None => {
                        minus += &m.price * m.gas_used;
                        if m.ok {
                            minus += &m.tx.value;
                        }
                    }
                    Some(t) => {
                        if m.ok && m.tx.to == *t && m.tx.data.len() == 68 {
                            minus += N::from_bytes_be(&m.tx.data[36..68]);
                        }
                    }
                }
            }
        }
        if minus > plus {
            n(0)
        } else {
            plus - minus
        }
    }
    pub fn base(&self) -> N {
        self.fees.last().unwrap().clone()
    }
    pub fn set_fee(&mut self, base: N, reward: N) {
        self.fees.push(base);
        self.rewards.push(reward);
        if self.fees.len() > 12 {
            self.fees.remove(0);
        }
        if self.rewards.len() > 12 {
            self.rewards.remove(0);
        }
    }
    /// Accepts a raw transaction into the mempool.
    pub fn submit(&mut self, tx: RawTx) -> Result<(), &'static str> {
        let next = self.latest_count();
        let Ok(nonce) = u64::try_from(&tx.nonce) else {
            return Err("nonce too high");
        };
        if tx.chain_id != n(self.chain_id) {
            return Err("wrong chain");
        }
        if nonce < next {
            return Err("nonce too low");
        }
        if nonce > next + 64 {
            return Err("nonce too high");
        }
        if let Some(old) = self.mempool.get(&nonce) {
            if old.hash == tx.hash {
                return Err("already known");
            }
            let bumped = &tx.prio * 10u8 >= &old.prio * 11u8 && tx.max_fee >= old.max_fee;
            if !bumped {
                return Err("replacement transaction underpriced");
            }
        } else {
            let need = &tx.value + &tx.max_fee * &tx.gas;
            if self.balance(None) < need {
                return Err("insufficient funds");
            }
        }
        self.tx_seen.insert(tx.hash);
        self.mempool.insert(nonce, tx);
        Ok(())
    }
    fn include(&mut self, b: u64, rng: &mut Rng) {
        let base = self.base();
        loop {
            let nonce = self.latest_count();
            let Some(tx) = self.mempool.get(&nonce) else { break };
            if tx.max_fee < base {
                break;
            }
            let room = &tx.max_fee - &base;
            let tip = if tx.prio < room { tx.prio.clone() } else { room };
            if tip < self.min_tip {
                break;
            }
            // the base fee of this very block may take all that is offered
            let price = if rng.pm(150) { tx.max_fee.clone() } else { &base + &tip };
            let erc20 = !tx.data.is_empty();
            // and a transfer may use all its gas
            let gas_used = match rng.below(6) {
                0 if erc20 => u64::try_from(&tx.gas).unwrap_or(65_000),
                _ if erc20 => rng.range(25_000, 65_000),
                _ => self.native_gas,
            };
            let need = &tx.value + &tx.max_fee * &tx.gas;
            if self.balance(None) < need {
                break;
            }
            let tx = self.mempool.remove(&nonce).unwrap();
            let mut ok = !rng.pm(self.fail_pm);
            if n(gas_used) > tx.gas {
                ok = false;
            }
            if erc20 && (tx.data.len() != 68 || self.balance(Some(&tx.to)) < N::from_bytes_be(&tx.data[36..68])) {
                ok = false;
            }
            self.blocks.entry(b).or_default().txs.push(Mined { tx, ok, gas_used, price, block: b });
        }
    }
    fn place(&mut self, b: u64, mut logs: Vec<Log>, rng: &mut Rng) {
        let fork = self.fork;
        let blk = self.blocks.entry(b).or_default();
        blk.salt = fork;
        // most logs of a block are those of other contracts
        let bits = rng.below(17);
        let others = if rng.pm(200) { rng.below(1 << bits) } else { rng.below(3) };
        let mut idx = blk.logs.last().map(|l| l.log_index + 1).unwrap_or(0) + others;
        let mut txi = blk.logs.last().map(|l| l.tx_index + 1).unwrap_or(0);
        let mut last: Option<H32> = None;
        for l in logs.iter_mut() {
            if last == Some(l.tx) {
                txi -= 1;
            }
            last = Some(l.tx);
            l.log_index = idx;
            l.tx_index = txi;
            idx += 1 + rng.below(2);
            txi += 1;
        }
        blk.logs.extend(logs);
    }
    /// Takes the logs of some of the queued transactions (all logs of a transaction, in order).
    fn choose(&mut self, p: u64, rng: &mut Rng) -> Vec<Log> {
        let mut pick: BTreeMap<H32, bool> = BTreeMap::new();
        for l in &self.queue {
            if !pick.contains_key(&l.tx) {
                pick.insert(l.tx, rng.pm(p));
            }
        }
        let (mut now, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut self.queue).into_iter().partition(|l| pick[&l.tx]);
        self.queue = rest;
        now.sort_by_key(|l| l.tx);
        now
    }
    /// Mines `k` blocks; queued deposits go to random ones among the first few.
    pub fn mine(&mut self, k: u64, rng: &mut Rng) {
        for i in 0..k {
            if i > 40 && self.queue.is_empty() {
                // fast forward over empty blocks
                self.head += k - i;
                self.include(self.head, rng);
                return;
            }
            self.head += 1;
            let b = self.head;
            let p = *rng.pick(&[150u64, 500, 1000]);
            let now = self.choose(p, rng);
            if !now.is_empty() {
                self.place(b, now, rng);
            }
            self.include(b, rng);
        }
    }
    /// Replaces the last `d` blocks by others (same height).
    pub fn reorg(&mut self, d: u64, rng: &mut Rng) {
        let d = d.min(self.head);
        if d == 0 {
            return;
        }
        self.reorgs += 1;
        self.deepest = self.deepest.max(d);
        self.fork += 1;
        let top = self.head;
        let keep = top - d;
        let gone = self.blocks.split_off(&(keep + 1));
        let mut logs = vec![];
        for (_, b) in gone {
            for l in b.logs {
                if !rng.pm(150) {
                    logs.push(l)
                }
            }
            for m in b.txs {
                if !rng.pm(200) {
                    let nonce = u64::try_from(&m.tx.nonce).unwrap();
                    self.mempool.entry(nonce).or_insert(m.tx);
                }
            }
        }
        self.head = keep;
        self.queue.splice(0..0, logs);
        for i in 0..d {
            self.head += 1;
            let b = self.head;
            self.blocks.entry(b).or_default().salt = self.fork;
            let p = if i + 1 == d { 820 } else { 400 };
            let now = self.choose(p, rng);
            if !now.is_empty() {
                self.place(b, now, rng);
            }
            if rng.pm(500) {
                self.include(b, rng);
            }
        }
    }
    pub fn logs(&self, from: u64, to: u64) -> impl Iterator<Item = (u64, &Log)> {
        let r = if from > to { 1..=0 } else { from..=to };
        let empty = from > to;
        self.blocks
            .range(if empty { 0..=0 } else { r })
            .filter(move |_| !empty)
            .flat_map(|(b, x)| x.logs.iter().map(move |l| (*b, l)))
    }
}
