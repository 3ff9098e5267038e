//! The system-API side of a simulated Internet Computer replica: one canister per OS thread.
//!
//! The vendored `ic-cdk` / `ic-cdk-timers` / `ic-stable-structures` call the functions at the end of
//! this file instead of the wasm imports `ic0.*`; the harness drives messages through [`with`].
use std::cell::RefCell;

pub const PAGE: u64 = 65536;

/// An inter-canister call performed by the canister during the current message.
#[derive(Clone, Debug)]
pub struct OutCall {
    pub callee: Vec<u8>,
    pub method: String,
    pub arg: Vec<u8>,
    pub cycles: u128,
    pub reply_fun: isize,
    pub env: isize,
    pub cleanup_fun: isize,
    /// Call context (of the message being executed) this call belongs to.
    pub ctx: u64,
}

// SAFETY: the raw environment pointer is only ever dereferenced on the thread that created it
// (the harness drops all pending calls before the host state moves to another thread).
unsafe impl Send for OutCall {}

#[derive(Clone, Debug)]
pub enum Response {
    Reply(Vec<u8>),
    Reject(i32, String),
}

#[derive(Default)]
pub struct HostState {
    pub time: u64,
    pub self_id: Vec<u8>,
    pub caller: Vec<u8>,
    pub controllers: Vec<Vec<u8>>,
    pub arg: Vec<u8>,
    pub reject_code: i32,
    pub reject_msg: String,
    pub method: String,
    pub ctx: u64,
    /// Names the workload this belongs to.
    pub label: String,
    /// The method each call context was made for.
    pub methods: std::collections::BTreeMap<u64, String>,
    pub reply_buf: Vec<u8>,
    pub response: Option<Response>,
    pub building: Option<OutCall>,
    pub outbox: Vec<OutCall>,
    pub global_timer: u64,
    pub timer_sets: u64,
    pub stable: Vec<u8>,
    pub stable_writes: u64,
    /// What the current message overwrote in stable memory (offset, old bytes).
    pub journal: Vec<(usize, Vec<u8>)>,
    pub balance: u128,
    pub refunded: u128,
    pub instructions: u64,
    /// When set, the next calls to `call_perform` fail with this code (queue full).
    pub fail_perform: Option<i32>,
    pub failed_performs: u64,
    pub trap_notes: Vec<String>,
    pub last_trap: Option<String>,
    pub prints: Vec<String>,
    pub keep_prints: bool,
    pub replicated: bool,
}

thread_local! {
    static HOST: RefCell<HostState> = RefCell::new(HostState::default());
}

pub fn with<R>(f: impl FnOnce(&mut HostState) -> R) -> R {
    HOST.with(|h| f(&mut h.borrow_mut()))
}

/// Starts a message: its stable writes can be taken back by [`undo_stable`].
pub fn begin_stable() {
    with(|h| {
        h.journal.clear();
    })
}

/// Takes back the stable writes of a message that trapped.
pub fn undo_stable() {
    with(|h| {
        // (memory stays grown: the virtual memory manager of the canister has cached its size)
        for (o, old) in std::mem::take(&mut h.journal).into_iter().rev() {
            h.stable[o..o + old.len()].copy_from_slice(&old);
        }
    })
}

unsafe fn bytes(p: isize, n: isize) -> Vec<u8> {
    if n == 0 {
        return vec![];
    }
    std::slice::from_raw_parts(p as usize as *const u8, n as usize).to_vec()
}

unsafe fn copy_out(src: &[u8], dst: isize, off: isize, n: isize) {
    if n > 0 {
        let src = &src[off as usize..(off + n) as usize];
        std::ptr::copy_nonoverlapping(src.as_ptr(), dst as usize as *mut u8, n as usize);
    }
}

/// Invokes a reply/reject/cleanup function registered with `call_new` / `call_on_cleanup`.
///
/// # Safety
/// `fun`/`env` must come from an [`OutCall`] of this thread, and be used at most once.
pub unsafe fn invoke(fun: isize, env: isize) {
    let f: unsafe fn(*const ()) = std::mem::transmute(fun);
    f(env as usize as *const ())
}

/// A message of this canister trapped in a way that needs no roll-back.
pub fn note_trap(msg: &str) {
    with(|h| h.trap_notes.push(msg.to_string()));
}

pub fn host_print(s: String) {
    with(|h| {
        if h.keep_prints {
            h.prints.push(s)
        }
    })
}

#[allow(clippy::missing_safety_doc)]
mod ic0 {
    use super::*;

    pub unsafe fn debug_print(p: isize, n: isize) {
        host_print(String::from_utf8_lossy(&bytes(p, n)).into_owned())
    }
    pub unsafe fn trap(p: isize, n: isize) {
        let m = String::from_utf8_lossy(&bytes(p, n)).into_owned();
        std::panic::panic_any(m)
    }
    pub unsafe fn time() -> i64 {
        with(|h| h.time as i64)
    }
    pub unsafe fn msg_caller_size() -> isize {
        with(|h| h.caller.len() as isize)
    }
    pub unsafe fn msg_caller_copy(d: isize, o: isize, n: isize) {
        with(|h| copy_out(&h.caller, d, o, n))
    }
    pub unsafe fn canister_self_size() -> isize {
        with(|h| h.self_id.len() as isize)
    }
    pub unsafe fn canister_self_copy(d: isize, o: isize, n: isize) {
        with(|h| copy_out(&h.self_id, d, o, n))
    }
    pub unsafe fn canister_cycle_balance() -> i64 {
        with(|h| {
            u64::try_from(h.balance)
                .unwrap_or_else(|_| std::panic::panic_any("cycles balance does not fit into 64 bit".to_string()))
                as i64
        })
    }
    pub unsafe fn canister_cycle_balance128(d: isize) {
        with(|h| *(d as usize as *mut u128) = h.balance)
    }
    pub unsafe fn canister_version() -> i64 {
        0
    }
    pub unsafe fn certified_data_set(_p: isize, _n: isize) {}
    pub unsafe fn data_certificate_present() -> i32 {
        0
    }
    pub unsafe fn data_certificate_size() -> isize {
        0
    }
    pub unsafe fn data_certificate_copy(_d: isize, _o: isize, _n: isize) {}
    pub unsafe fn cycles_burn128(_h: i64, _l: i64, d: isize) {
        *(d as usize as *mut u128) = 0
    }
    pub unsafe fn global_timer_set(t: i64) -> i64 {
        with(|h| {
            h.timer_sets += 1;
            std::mem::replace(&mut h.global_timer, t as u64) as i64
        })
    }
    pub unsafe fn in_replicated_execution() -> i32 {
        with(|h| h.replicated as i32)
    }
    pub unsafe fn is_controller(p: isize, n: isize) -> i32 {
        let who = bytes(p, n);
        with(|h| h.controllers.contains(&who) as i32)
    }
    pub unsafe fn msg_arg_data_size() -> isize {
        with(|h| h.arg.len() as isize)
    }
    pub unsafe fn msg_arg_data_copy(d: isize, o: isize, n: isize) {
        with(|h| copy_out(&h.arg, d, o, n))
    }
    pub unsafe fn msg_method_name_size() -> isize {
        with(|h| h.method.len() as isize)
    }
    pub unsafe fn msg_method_name_copy(d: isize, o: isize, n: isize) {
        with(|h| copy_out(h.method.as_bytes(), d, o, n))
    }
    pub unsafe fn accept_message() {}
    pub unsafe fn msg_cycles_available() -> i64 {
        0
    }
    pub unsafe fn msg_cycles_available128(d: isize) {
        *(d as usize as *mut u128) = 0
    }
    pub unsafe fn msg_cycles_accept(_m: i64) -> i64 {
        0
    }
    pub unsafe fn msg_cycles_accept128(_h: i64, _l: i64, d: isize) {
        *(d as usize as *mut u128) = 0
    }
    pub unsafe fn msg_cycles_refunded() -> i64 {
        with(|h| h.refunded as i64)
    }
    pub unsafe fn msg_cycles_refunded128(d: isize) {
        with(|h| *(d as usize as *mut u128) = h.refunded)
    }
    pub unsafe fn msg_reject_code() -> i32 {
        with(|h| h.reject_code)
    }
    pub unsafe fn msg_reject_msg_size() -> isize {
        with(|h| h.reject_msg.len() as isize)
    }
    pub unsafe fn msg_reject_msg_copy(d: isize, o: isize, n: isize) {
        with(|h| copy_out(h.reject_msg.as_bytes(), d, o, n))
    }
    pub unsafe fn msg_reply_data_append(p: isize, n: isize) {
        let b = bytes(p, n);
        with(|h| h.reply_buf.extend_from_slice(&b))
    }
    fn respond(r: Response) {
        let again = with(|h| {
            if h.response.is_some() {
                true
            } else {
                h.response = Some(r);
                false
            }
        });
        if again {
            std::panic::panic_any("call context was already responded to".to_string())
        }
    }
    pub unsafe fn msg_reply() {
        let b = with(|h| std::mem::take(&mut h.reply_buf));
        respond(Response::Reply(b))
    }
    pub unsafe fn msg_reject(p: isize, n: isize) {
        respond(Response::Reject(
            4,
            String::from_utf8_lossy(&bytes(p, n)).into_owned(),
        ))
    }
    pub unsafe fn performance_counter(_t: i32) -> i64 {
        with(|h| {
            h.instructions += 1000;
            h.instructions as i64
        })
    }
    #[allow(clippy::too_many_arguments)]
    pub unsafe fn call_new(
        cp: isize,
        cn: isize,
        mp: isize,
        mn: isize,
        reply_fun: isize,
        reply_env: isize,
        _reject_fun: isize,
        _reject_env: isize,
    ) {
        let callee = bytes(cp, cn);
        let method = String::from_utf8_lossy(&bytes(mp, mn)).into_owned();
        with(|h| {
            h.building = Some(OutCall {
                callee,
                method,
                arg: vec![],
                cycles: 0,
                reply_fun,
                env: reply_env,
                cleanup_fun: -1,
                ctx: h.ctx,
            })
        })
    }
    pub unsafe fn call_data_append(p: isize, n: isize) {
        let b = bytes(p, n);
        with(|h| {
            if let Some(c) = h.building.as_mut() {
                c.arg.extend_from_slice(&b)
            }
        })
    }
    pub unsafe fn call_cycles_add128(hi: i64, lo: i64) {
        with(|h| {
            if let Some(c) = h.building.as_mut() {
                c.cycles += ((hi as u64 as u128) << 64) | lo as u64 as u128
            }
        })
    }
    pub unsafe fn call_on_cleanup(fun: isize, _env: isize) {
        with(|h| {
            if let Some(c) = h.building.as_mut() {
                c.cleanup_fun = fun
            }
        })
    }
    pub unsafe fn call_perform() -> i32 {
        let r = with(|h| {
            let Some(c) = h.building.take() else {
                return Some(2);
            };
            if let Some(code) = h.fail_perform {
                h.failed_performs += 1;
                return Some(code);
            }
            if c.cycles > h.balance {
                h.failed_performs += 1;
                return Some(2);
            }
            h.balance -= c.cycles;
            h.outbox.push(c);
            None
        });
        r.unwrap_or(0)
    }
    pub unsafe fn stable64_size() -> i64 {
        with(|h| (h.stable.len() as u64 / PAGE) as i64)
    }
    pub unsafe fn stable64_grow(n: i64) -> i64 {
        with(|h| {
            let old = h.stable.len() as u64 / PAGE;
            h.stable.resize(h.stable.len() + (n as u64 * PAGE) as usize, 0);
            old as i64
        })
    }
    pub unsafe fn stable64_write(off: i64, p: i64, n: i64) {
        with(|h| {
            h.stable_writes += 1;
            let o = off as usize;
            let old = h.stable[o..o + n as usize].to_vec();
            h.journal.push((o, old));
            let src = std::slice::from_raw_parts(p as usize as *const u8, n as usize);
            h.stable[off as usize..off as usize + n as usize].copy_from_slice(src)
        })
    }
    pub unsafe fn stable64_read(d: i64, off: i64, n: i64) {
        with(|h| {
            let dst = std::slice::from_raw_parts_mut(d as usize as *mut u8, n as usize);
            dst.copy_from_slice(&h.stable[off as usize..off as usize + n as usize])
        })
    }
}
pub use ic0::*;
