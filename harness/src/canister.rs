//! Executing messages of the real canister code on this thread.
use candid::utils::{ArgumentDecoder, ArgumentEncoder};
use candid::Principal;
use ic_host::{with, OutCall, Response};
use std::panic::{catch_unwind, AssertUnwindSafe};

// An entry point that does not exist has the address that the symbol nobody defines has (see build.rs).
macro_rules! entries {
    ($($id:ident = $link:literal),* $(,)?) => {
        extern "C" { $( #[link_name = $link] static $id: u8; )* }
        fn table(name: &str) -> Option<unsafe fn()> {
            let a: usize = match name { $( $link => std::hint::black_box(std::ptr::addr_of!($id)) as usize, )* _ => 0 };
            // SAFETY: these symbols are functions without arguments exported by the canister's macros.
            let none = std::hint::black_box(std::ptr::addr_of!(e_none)) as usize;
            (std::hint::black_box(a) != 0 && a != none).then(|| unsafe { std::mem::transmute::<usize, unsafe fn()>(a) })
        }
    };
}
entries! {
    e_none = "canister_nothing",
    e_init = "canister_init",
    e_pre = "canister_pre_upgrade",
    e_post = "canister_post_upgrade",
    u_minter_address = "canister_update.minter_address",
    q_minter_address = "canister_query.minter_address",
    u_request_scraping_logs = "canister_update.request_scraping_logs",
    q_request_scraping_logs = "canister_query.request_scraping_logs",
    u_withdraw_native_token = "canister_update.withdraw_native_token",
    q_withdraw_native_token = "canister_query.withdraw_native_token",
    u_retrieve_witdrawal_status = "canister_update.retrieve_witdrawal_status",
    q_retrieve_witdrawal_status = "canister_query.retrieve_witdrawal_status",
    u_withdraw_erc20 = "canister_update.withdraw_erc20",
    q_withdraw_erc20 = "canister_query.withdraw_erc20",
    u_add_erc20_token = "canister_update.add_erc20_token",
    q_add_erc20_token = "canister_query.add_erc20_token",
    u_get_canister_status = "canister_update.get_canister_status",
    q_get_canister_status = "canister_query.get_canister_status",
    u_check_new_deposits = "canister_update.check_new_deposits",
    q_check_new_deposits = "canister_query.check_new_deposits",
    u_icrc28_trusted_origins = "canister_update.icrc28_trusted_origins",
    q_icrc28_trusted_origins = "canister_query.icrc28_trusted_origins",
    u_smart_contract_address = "canister_update.smart_contract_address",
    q_smart_contract_address = "canister_query.smart_contract_address",
    u_eip_1559_transaction_price = "canister_update.eip_1559_transaction_price",
    q_eip_1559_transaction_price = "canister_query.eip_1559_transaction_price",
    u_get_minter_info = "canister_update.get_minter_info",
    q_get_minter_info = "canister_query.get_minter_info",
    u_withdrawal_status = "canister_update.withdrawal_status",
    q_withdrawal_status = "canister_query.withdrawal_status",
    u_get_events = "canister_update.get_events",
    q_get_events = "canister_query.get_events",
}

type Watch = (fn(&str, &[u8], bool) -> Option<Vec<u8>>, fn(&str, &[u8]));
/// Sees (and may rewrite) every request, and sees every answer.
pub static WATCH: std::sync::OnceLock<Watch> = std::sync::OnceLock::new();

#[derive(Default, Debug)]
pub struct Run {
    pub trap: Option<String>,
    pub resp: Option<Response>,
    pub out: Vec<OutCall>,
    pub wrote: bool,
    pub timer: bool,
    pub notes: Vec<String>,
    pub failed_performs: u64,
}

/// Runs one message; `ctx`, `caller` and `now` have been set by the caller in the host state.
pub fn run(f: impl FnOnce()) -> Run {
    ic_host::begin_stable();
    run_on(f)
}
/// As [`run`], as a continuation of what [`ic_host::undo_stable`] would take back.
pub fn run_on(f: impl FnOnce()) -> Run {
    let (w0, t0, f0) = with(|h| {
        h.outbox.clear();
        h.response = None;
        h.reply_buf.clear();
        h.building = None;
        h.trap_notes.clear();
        (h.stable_writes, h.timer_sets, h.failed_performs)
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    let trap = r.err().map(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    });
    if let Some((_, answer)) = WATCH.get() {
        let seen = with(|h| match (&h.response, h.methods.get(&h.ctx)) {
            (Some(Response::Reply(b)), Some(m)) if trap.is_none() => Some((m.clone(), b.clone())),
            _ => None,
        });
        if let Some((m, b)) = seen {
            answer(&m, &b);
        }
    }
    with(|h| {
        h.building = None;
        Run {
            resp: h.response.take(),
            out: std::mem::take(&mut h.outbox),
            wrote: h.stable_writes != w0,
            timer: h.timer_sets != t0,
            notes: std::mem::take(&mut h.trap_notes),
            failed_performs: h.failed_performs - f0,
            trap,
        }
    })
}

pub fn entry(kind: &str, name: &str) -> unsafe fn() {
    let full = if name.is_empty() { kind.to_string() } else { format!("{kind}.{name}") };
    let other = match kind {
        "canister_query" => "canister_update",
        _ => "canister_query",
    };
    table(&full).or_else(|| table(&format!("{other}.{name}"))).unwrap_or(missing)
}
unsafe fn missing() {
    panic!("no such entry point");
}

pub fn setup(ctx: u64, caller: &Principal, method: &str, arg: Vec<u8>) {
    with(|h| {
        h.ctx = ctx;
        h.caller = caller.as_slice().to_vec();
        h.method = method.to_string();
        h.arg = arg;
        h.reject_code = 0;
        h.reject_msg.clear();
    })
}

fn arrive(kind: &str, name: &str, ctx: u64, caller: &Principal, mut arg: Vec<u8>) -> unsafe fn() {
    if let Some((request, _)) = WATCH.get() {
        let full = if name.is_empty() { kind.to_string() } else { format!("{kind}.{name}") };
        if let Some(a) = request(&full, &arg, table(&full).is_some()) {
            arg = a;
        }
        with(|h| h.methods.insert(ctx, full));
    }
    setup(ctx, caller, name, arg);
    entry(kind, name)
}

pub fn message_on(kind: &str, name: &str, ctx: u64, caller: &Principal, arg: Vec<u8>) -> Run {
    let f = arrive(kind, name, ctx, caller, arg);
    // SAFETY: as below.
    run_on(|| unsafe { f() })
}

pub fn message(kind: &str, name: &str, ctx: u64, caller: &Principal, arg: Vec<u8>) -> Run {
    let f = arrive(kind, name, ctx, caller, arg);
    // SAFETY: the symbol is a function without arguments exported by the canister's macros.
    run(|| unsafe { f() })
}

/// A query answered at once by anyone.
pub fn query<A: ArgumentEncoder, R: for<'a> ArgumentDecoder<'a>>(name: &str, a: A) -> Result<R, String> {
    let arg = candid::encode_args(a).unwrap();
    let (c0, l0, g0) = with(|h| (h.ctx, h.caller.clone(), h.arg.clone()));
    let r = message("canister_query", name, u64::MAX, &Principal::anonymous(), arg);
    with(|h| {
        h.ctx = c0;
        h.caller = l0;
        h.arg = g0;
    });
    if let Some(t) = r.trap {
        return Err(t);
    }
    match r.resp {
        Some(Response::Reply(b)) => candid::decode_args(&b).map_err(|e| format!("cannot decode {name}: {e}")),
        Some(Response::Reject(c, m)) => Err(format!("reject {c}: {m}")),
        None => Err("no answer".into()),
    }
}
