//! What the canister asks of the outside world, and the EVM RPC canister's answers.
use crate::chain::{Chain, Log};
use crate::util::*;
use candid::{CandidType, Nat, Principal};
use evm_rpc_types as t;
use evm_rpc_types::{MultiRpcResult, Nat256, RpcApi, RpcConfig, RpcError, RpcResult, RpcService, RpcServices};
use ic_host::{OutCall, Response};
use icrc_ledger_types::icrc1::transfer::TransferArg;
use icrc_ledger_types::icrc2::transfer_from::TransferFromArgs;

#[derive(Clone, Debug)]
pub enum Req {
    Block(t::BlockTag),
    Logs(t::GetLogsArgs),
    FeeHist(t::FeeHistoryArgs),
    Receipt(String),
    Count(t::GetTransactionCountArgs),
    SendRaw(String),
    Transfer(TransferArg),
    TransferFrom(TransferFromArgs),
    Pubkey,
    Sign,
    Status,
    Lsm,
    Timer,
    Bad(String),
}
impl Req {
    pub fn name(&self) -> &'static str {
        match self {
            Req::Block(_) => "getBlock",
            Req::Logs(_) => "getLogs",
            Req::FeeHist(_) => "feeHistory",
            Req::Receipt(_) => "receipt",
            Req::Count(_) => "count",
            Req::SendRaw(_) => "sendRaw",
            Req::Transfer(_) => "transfer",
            Req::TransferFrom(_) => "transferFrom",
            Req::Pubkey => "pubkey",
            Req::Sign => "sign",
            Req::Status => "status",
            Req::Lsm => "lsm",
            Req::Timer => "timer",
            Req::Bad(_) => "bad",
        }
    }
    pub fn is_rpc(&self) -> bool {
        matches!(self, Req::Block(_) | Req::Logs(_) | Req::FeeHist(_) | Req::Receipt(_) | Req::Count(_) | Req::SendRaw(_))
    }
}

pub fn decode(c: &OutCall) -> (Req, Option<RpcServices>) {
    fn rpc<P: for<'a> candid::Deserialize<'a> + CandidType>(a: &[u8], f: impl FnOnce(P) -> Req) -> (Req, Option<RpcServices>) {
        match candid::decode_args::<(RpcServices, Option<RpcConfig>, P)>(a) {
            Ok((s, _, p)) => (f(p), Some(s)),
            Err(e) => (Req::Bad(format!("{e}")), None),
        }
    }
    let a = &c.arg;
    match c.method.as_str() {
        "eth_getBlockByNumber" => rpc(a, Req::Block),
        "eth_getLogs" => rpc(a, Req::Logs),
        "eth_feeHistory" => rpc(a, Req::FeeHist),
        "eth_getTransactionReceipt" => rpc(a, Req::Receipt),
        "eth_getTransactionCount" => rpc(a, Req::Count),
        "eth_sendRawTransaction" => rpc(a, Req::SendRaw),
        "icrc1_transfer" => match candid::decode_args::<(TransferArg,)>(a) {
            Ok((x,)) => (Req::Transfer(x), None),
            Err(e) => (Req::Bad(e.to_string()), None),
        },
        "icrc2_transfer_from" => match candid::decode_args::<(TransferFromArgs,)>(a) {
            Ok((x,)) => (Req::TransferFrom(x), None),
            Err(e) => (Req::Bad(e.to_string()), None),
        },
        "ecdsa_public_key" => (Req::Pubkey, None),
        "sign_with_ecdsa" => (Req::Sign, None),
        "canister_status" => (Req::Status, None),
        "add_native_ls" => (Req::Lsm, None),
        "<ic-cdk internal> timer_executor" => (Req::Timer, None),
        m => (Req::Bad(format!("unknown method {m}")), None),
    }
}

/// What the management canister says of a canister.
#[derive(CandidType, serde::Deserialize, Clone, Debug, PartialEq)]
pub struct StatusReply {
    pub status: Running,
    pub settings: Settings,
    pub module_hash: Option<serde_bytes::ByteBuf>,
    pub memory_size: Nat,
    pub cycles: Nat,
    pub reserved_cycles: Nat,
    pub idle_cycles_burned_per_day: Nat,
    pub query_stats: QueryStats,
}
#[derive(CandidType, serde::Deserialize, Clone, Debug, PartialEq)]
#[allow(non_camel_case_types)]
pub enum Running {
    running,
    stopping,
    stopped,
}
#[derive(CandidType, serde::Deserialize, Clone, Debug, PartialEq)]
#[allow(non_camel_case_types)]
pub enum LogVisibility {
    controllers,
    public,
}
#[derive(CandidType, serde::Deserialize, Clone, Debug, PartialEq)]
pub struct Settings {
    pub controllers: Vec<Principal>,
    pub compute_allocation: Nat,
    pub memory_allocation: Nat,
    pub freezing_threshold: Nat,
    pub reserved_cycles_limit: Nat,
    pub log_visibility: LogVisibility,
    pub wasm_memory_limit: Nat,
}
#[derive(CandidType, serde::Deserialize, Clone, Debug, PartialEq)]
pub struct QueryStats {
    pub num_calls_total: Nat,
    pub num_instructions_total: Nat,
    pub request_payload_bytes_total: Nat,
    pub response_payload_bytes_total: Nat,
}
pub fn any_status(rng: &mut Rng) -> StatusReply {
    let mut k = |bits: u64| {
        let b = 1 + rng.below(bits);
        Nat(rng.big(b))
    };
    let (memory_size, cycles, reserved_cycles, idle_cycles_burned_per_day) = (k(37), k(90), k(60), k(50));
    let (compute_allocation, memory_allocation, freezing_threshold, reserved_cycles_limit, wasm_memory_limit) = (k(6), k(40), k(30), k(60), k(32));
    let query_stats = QueryStats { num_calls_total: k(60), num_instructions_total: k(80), request_payload_bytes_total: k(60), response_payload_bytes_total: k(70) };
    let c = rng.below(4);
    StatusReply {
        status: [Running::running, Running::stopping, Running::stopped][rng.below(3) as usize].clone(),
        settings: Settings {
            controllers: (0..c).map(|_| Principal::from_slice(&rng.vec(10))).collect(),
            compute_allocation,
            memory_allocation,
            freezing_threshold,
            reserved_cycles_limit,
            log_visibility: if rng.pm(500) { LogVisibility::public } else { LogVisibility::controllers },
            wasm_memory_limit,
        },
        module_hash: if rng.pm(800) { Some(serde_bytes::ByteBuf::from(rng.vec(32))) } else { None },
        memory_size,
        cycles,
        reserved_cycles,
        idle_cycles_burned_per_day,
        query_stats,
    }
}

pub fn n256(v: &N) -> Nat256 {
    Nat256::try_from(Nat(v.clone())).unwrap()
}
pub fn from256(v: &Nat256) -> N {
    v.as_ref().0.clone()
}
pub fn u64_of(v: &Nat256) -> Option<u64> {
    u64::try_from(&from256(v)).ok()
}
pub fn h20(h: &t::Hex20) -> Addr {
    h.clone().into()
}
pub fn h32(h: &t::Hex32) -> H32 {
    h.clone().into()
}

pub fn services(s: &RpcServices) -> (u64, Vec<RpcApi>) {
    match s {
        RpcServices::Custom { chain_id, services } => (*chain_id, services.clone()),
        _ => (0, vec![]),
    }
}

pub fn reply<T: CandidType>(v: T) -> Response {
    Response::Reply(candid::encode_args((v,)).unwrap())
}

/// The EVM RPC canister compares the answers of all providers itself.
pub fn combine<T: Clone + PartialEq>(apis: &[RpcApi], rs: Vec<RpcResult<T>>, rng: &mut Rng) -> MultiRpcResult<T> {
    if rs.iter().all(|r| *r == rs[0]) {
        return MultiRpcResult::Consistent(rs[0].clone());
    }
    let mut v: Vec<_> = apis.iter().cloned().map(RpcService::Custom).zip(rs).collect();
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i as u64 + 1) as usize);
    }
    MultiRpcResult::Inconsistent(v)
}

pub fn some_error(rng: &mut Rng) -> RpcError {
    match rng.below(7) {
        0 => RpcError::JsonRpcError(t::JsonRpcError { code: -32000, message: "nonce too low".into() }),
        1 => RpcError::JsonRpcError(t::JsonRpcError { code: -32601, message: "method not found".into() }),
        2 => RpcError::HttpOutcallError(t::HttpOutcallError::IcError {
            code: ic_cdk::api::call::RejectionCode::SysTransient,
            message: "No consensus could be reached. Replicas had different responses.".into(),
        }),
        3 => RpcError::HttpOutcallError(t::HttpOutcallError::InvalidHttpJsonRpcResponse {
            status: 429,
            body: "Too many requests".into(),
            parsing_error: None,
        }),
        4 => RpcError::ProviderError(t::ProviderError::NoPermission),
        5 => RpcError::ValidationError(t::ValidationError::Custom("odd".into())),
        _ => RpcError::HttpOutcallError(t::HttpOutcallError::IcError {
            code: ic_cdk::api::call::RejectionCode::SysFatal,
            message: "Timeout expired".into(),
        }),
    }
}
pub fn too_large() -> RpcError {
    RpcError::HttpOutcallError(t::HttpOutcallError::IcError {
        code: ic_cdk::api::call::RejectionCode::SysFatal,
        message: "Http body exceeds size limit of 2048000 bytes.".into(),
    })
}

pub fn block_of(c: &Chain, number: u64) -> t::Block {
    let z = || t::Hex32::from([0u8; 32]);
    t::Block {
        base_fee_per_gas: Some(n256(&c.base())),
        number: Nat256::from(number),
        difficulty: None,
        extra_data: t::Hex::from(vec![]),
        gas_limit: Nat256::from(30_000_000u64),
        gas_used: Nat256::from(0u64),
        hash: t::Hex32::from(c.block_hash(number)),
        logs_bloom: t::Hex256::from([0u8; 256]),
        miner: t::Hex20::from([0u8; 20]),
        mix_hash: z(),
        nonce: Nat256::from(0u64),
        parent_hash: t::Hex32::from(c.block_hash(number.saturating_sub(1))),
        receipts_root: z(),
        sha3_uncles: z(),
        size: Nat256::from(1000u64),
        state_root: z(),
        timestamp: Nat256::from(1_700_000_000u64),
        total_difficulty: None,
        transactions: vec![],
        transactions_root: None,
        uncles: vec![],
    }
}

pub fn log_entry(c: &Chain, block: u64, l: &Log) -> t::LogEntry {
    let has = |bit: u8| l.absent & (1 << bit) == 0;
    t::LogEntry {
        address: t::Hex20::from(l.addr),
        topics: l.topics.iter().map(|x| t::Hex32::from(*x)).collect(),
        data: t::Hex::from(l.data.clone()),
        block_number: has(0).then(|| Nat256::from(block)),
        transaction_hash: has(1).then(|| t::Hex32::from(l.tx)),
        transaction_index: has(2).then(|| Nat256::from(l.tx_index)),
        block_hash: has(3).then(|| t::Hex32::from(c.block_hash(block))),
        log_index: has(4).then(|| Nat256::from(l.log_index)),
        removed: l.removed,
    }
}

/// A well-behaved node's filter (an empty alternative list is a wildcard).
pub fn matches_filter(a: &t::GetLogsArgs, l: &Log) -> bool {
    if !a.addresses.is_empty() && !a.addresses.iter().any(|x| h20(x) == l.addr) {
        return false;
    }
    if let Some(ts) = &a.topics {
        if ts.len() > l.topics.len() {
            return false;
        }
        for (want, got) in ts.iter().zip(&l.topics) {
            if !want.is_empty() && !want.iter().any(|w| h32(w) == *got) {
                return false;
            }
        }
    }
    true
}
pub fn tag_number(b: &Option<t::BlockTag>) -> Option<u64> {
    match b {
        Some(t::BlockTag::Number(n)) => u64_of(n),
        _ => None,
    }
}

pub fn receipt_of(c: &Chain, h: &H32, max_block: u64) -> Option<t::TransactionReceipt> {
    let m = c.mined_by_hash(h)?;
    if m.block > max_block {
        return None;
    }
    Some(t::TransactionReceipt {
        block_hash: t::Hex32::from(c.block_hash(m.block)),
        block_number: Nat256::from(m.block),
        effective_gas_price: n256(&m.price),
        gas_used: Nat256::from(m.gas_used),
        status: Some(Nat256::from(m.ok as u8)),
        transaction_hash: t::Hex32::from(*h),
        contract_address: None,
        from: t::Hex20::from(c.minter),
        logs: vec![],
        logs_bloom: t::Hex256::from([0u8; 256]),
        to: Some(t::Hex20::from(m.tx.to)),
        transaction_index: Nat256::from(0u64),
        tx_type: t::HexByte::from(2u8),
    })
}

/// Provider URLs of each network: (all providers, the single Ankr one, the single PublicNode one).
pub fn provider_table(chain_id: u64) -> (Vec<String>, String, String) {
    let s = |x: &str| x.to_string();
    let (llama, ankr, public) = match chain_id {
        1 => (Some("eth.llamarpc.com"), "eth", "ethereum-rpc"),
        11155111 => (None, "eth_sepolia", "ethereum-sepolia-rpc"),
        42161 => (Some("arbitrum.llamarpc.com"), "arbitrum", "arbitrum-one-rpc"),
        56 => (Some("binance.llamarpc.com"), "bsc", "bsc-rpc"),
        97 => (None, "bsc_testnet_chapel", "bsc-testnet-rpc"),
        137 => (Some("polygon.llamarpc.com"), "polygon", "polygon-bor-rpc"),
        10 => (Some("optimism.llamarpc.com"), "optimism", "optimism-rpc"),
        8453 => (Some("base.llamarpc.com"), "base", "base-rpc"),
        43114 => (None, "avalanche", "avalanche-c-chain-rpc"),
        250 => (None, "fantom", "fantom-rpc"),
        _ => (None, "?", "?"),
    };
    let a = format!("https://rpc.ankr.com/{ankr}/k");
    let p = format!("https://{public}.publicnode.com");
    let mut all = vec![];
    if let Some(l) = llama {
        all.push(format!("https://{l}/k"));
    }
    all.push(s(&a));
    all.push(s(&p));
    (all, a, p)
}

pub fn management() -> Principal {
    Principal::management_canister()
}
