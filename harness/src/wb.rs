//! White-box access to the minter's state. Everything else works without it (feature `wb` off).
#[cfg(feature = "wb")]
mod imp {
    use crate::model::CtxKind;
    use crate::sim::Sim;
    use candid::Principal;
    use evm_minter::state::{State, STATE};
    use std::collections::BTreeSet;
    use std::panic::{catch_unwind, AssertUnwindSafe};

    pub type Saved = Option<State>;
    pub fn save() -> Saved {
        STATE.with(|s| s.borrow().clone())
    }
    pub fn restore(s: Saved) {
        STATE.with(|c| *c.borrow_mut() = s)
    }
    /// No endpoint sets the swap canister yet.
    pub fn set_swap(p: Principal) -> bool {
        STATE.with(|c| c.borrow_mut().as_mut().map(|s| s.swap_canister_id = Some(p)).is_some())
    }

    impl Sim {
        pub fn state_checks(&mut self) {
            let Some(live) = save() else { return };
            let mon = &mut self.m.mon;
            mon.stat("state checks");
            // the state is a function of the event log
            let again = catch_unwind(AssertUnwindSafe(evm_minter::state::audit::replay_events));
            match again {
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().unwrap_or("panic".into());
                    mon.ck(false, &["C10"], "the event log replays", || m);
                }
                Ok(mut r) => {
                    mon.ck(true, &["C10"], "the event log replays", String::new);
                    // between upgrades the scraping position is written to the log only at an upgrade
                    r.last_scraped_block_number = live.last_scraped_block_number;
                    let eq = live.is_equivalent_to(&r);
                    mon.ck(eq.is_ok(), &["C10"], "the live state is equivalent to its replay", || eq.unwrap_err());
                    macro_rules! same {
                        ($($f:ident),*) => {$(
                            mon.ck(live.$f == r.$f, &["C10"], concat!("replayed ", stringify!($f)), || format!("{:?} live, {:?} replayed", live.$f, r.$f));
                        )*};
                    }
                    same!(
                        evm_network, ecdsa_key_name, native_ledger_id, native_index_id, native_symbol, helper_contract_address, evm_canister_id,
                        native_ledger_transfer_fee, native_minimum_withdrawal_amount, block_height, first_scraped_block_number, events_to_mint,
                        minted_events, invalid_events, skipped_blocks, native_balance, erc20_balances, deposit_native_fee, withdrawal_native_fee,
                        ledger_suite_manager_id, erc20_tokens, min_max_priority_fee_per_gas, swap_canister_id
                    );
                }
            }
            // locks belong to calls and tasks under way
            let held: BTreeSet<Principal> = live.pending_withdrawal_principals.clone();
            let want: BTreeSet<Principal> = self
                .m
                .ctxs
                .values()
                .filter(|c| matches!(c.kind, CtxKind::WithdrawNative { .. } | CtxKind::WithdrawErc20 { .. }) && !c.replied && !c.trapped)
                .map(|c| c.caller)
                .collect();
            let k = match want.len() {
                0 => "none",
                1 => "one",
                2..=99 => "some",
                _ => "all",
            };
            mon.ck(held == want, &["C13"], &format!("principals locked are those with a call under way ({k})"), || format!("{held:?} locked, {want:?} under way"));
            // (ERC-20 withdrawals and the processing of withdrawals may refresh the gas price themselves)
            // (after a trap in one of several joined calls the task is dropped once the others are answered)
            let timers = self.m.ctxs.values().filter(|c| c.kind == CtxKind::Timer).count();
            let gas = live.active_tasks.contains(&evm_minter::state::TaskType::RefreshGasFeeEstimate)
                && (timers > 0 || self.m.ctxs.values().any(|c| matches!(c.kind, CtxKind::WithdrawErc20 { .. }) && !c.trapped && !c.replied));
            let timers = timers + gas as usize;
            let tasks = live.active_tasks.len();
            mon.ck(tasks <= timers, &["C13"], &format!("{} tasks locked at most", timers.min(5)), || format!("{:?} locked with {timers} timer runs under way", live.active_tasks));
        }
    }
}
#[cfg(not(feature = "wb"))]
mod imp {
    use crate::sim::Sim;
    pub type Saved = ();
    pub fn save() -> Saved {}
    pub fn restore(_: Saved) {}
    pub fn set_swap(_: candid::Principal) -> bool {
        false
    }
    impl Sim {
        pub fn state_checks(&mut self) {}
    }
}
pub use imp::*;
