"""Fourth wave: changes that need a history, a fault at one place or two cooperating conditions."""
from mutants import *
TP = "minter/src/deposit_logs/parser.rs"; N_ = "minter/src/numeric/range.rs"; CA = "minter/src/checked_amount/mod.rs"
W4 = [
# the mint timer is only set when this batch brought something: after a trap in a mint nothing starts minting again
("y03b", "C03", D, """    for event in transaction_events {
        log!(""", """    let any = !transaction_events.is_empty();
    for event in transaction_events {
        log!(""", D, """    if read_state(State::has_events_to_mint) {
        ic_cdk_timers""", """    if any && read_state(State::has_events_to_mint) {
        ic_cdk_timers"""),
# the rest of a split range is taken up at the end instead of next
("y03c", "C03", D, """                            subranges.push_front(upper_range);""", """                            subranges.push_back(upper_range);"""),
# a block that is too large is skipped after the first failing provider's split, two blocks at once
("y03d", "C03", D, """                    if from_block == to_block {""", """                    if from_block == to_block || from_block.checked_increment() == Some(to_block) {"""),
# a mint that fails stops the others of the batch and never retries when it was the last
("y03e", "C03", D, """                log!(INFO, "Failed to mint {token_symbol}: {event:?} {err}");
                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                continue;""", """                log!(INFO, "Failed to mint {token_symbol}: {event:?} {err}");
                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                break;"""),
# mint: the fee of the first native deposit of the batch is remembered as amount for later ones
("y02a", "C02", D, """                    let deposit_fee = event.value() - amount.clone();""", """                    let deposit_fee = event.value() - amount.clone().min(event.value() / 2_u8);"""),
("y02b", "C02", "minter/src/memo.rs", """            log_index: event.log_index(),""", """            log_index: if event.subaccount().is_some() { LogIndex::ZERO } else { event.log_index() },"""),
# nonce given by an upgrade only ever raises
("y22a", "C22", T, """        self.next_nonce = new_nonce;
    }""", """        self.next_nonce = self.next_nonce.max(new_nonce);
    }"""),
# a transaction that was never mined ends the finalization round
("y09f", "C09", W, """                            "Transaction {hash} for withdrawal ID {withdrawal_id} was not mined, it's probably a resubmitted transaction",
                        )""", """                            "Transaction {hash} for withdrawal ID {withdrawal_id} was not mined, it's probably a resubmitted transaction",
                        );
                        return;"""),
# one that cannot be resubmitted ends the whole round
("y09g", "C09", W, """            Err(e) => {
                log!(INFO, "Failed to resubmit transaction: {e:?}");
            }""", """            Err(e) => {
                log!(INFO, "Failed to resubmit transaction: {e:?}");
                return;
            }""", T, """                    ));
                    return transactions_to_resubmit;""", """                    ));
                    transactions_to_resubmit.rotate_right(1);
                    return transactions_to_resubmit;"""),
# signing: a failed signature leaves the later ones of the batch unrecorded
("y09h", "C06", W, """            Err(e) => errors.push(e),
        }
    }
    if !errors""", """            Err(e) => {
                errors.push(e);
                let skipped = read_state(|s| s.withdrawal_transactions.next_transaction_nonce());
                if let Some(n) = skipped.checked_increment() {
                    mutate_state(|s| if s.withdrawal_transactions.is_sent_tx_empty() { s.withdrawal_transactions.update_next_transaction_nonce(n) });
                }
            }
        }
    }
    if !errors"""),
# batch limit counts requests that were skipped for their price: five poor ones block the queue
("y09i", "C09", T, """        self.remove_withdrawal_request(&request);
        self.record_withdrawal_request(request);
    }""", """        let _ = request;
    }"""),
# users fault/minter fault swapped for one error
("y12a", "C12", M, """                        LedgerBurnError::TemporarilyUnavailable { .. } => erc20_tx_fee, //don't penalize user in case of an error outside of their control
                        LedgerBurnError::InsufficientFunds { .. }""", """                        LedgerBurnError::InsufficientFunds { .. } => erc20_tx_fee,
                        LedgerBurnError::TemporarilyUnavailable { .. }"""),
("y12b", "C12", M, """                                .unwrap_or(Wei::ZERO);
                            let _refund_result = native_ledger
                                .refund_withdrawal_fee(caller.into(), refund_amount)
                                .await;""", """                                .unwrap_or(Wei::ZERO);
                            if reimbursed_amount < erc20_tx_fee { return Err(WithdrawErc20Error::Erc20LedgerError { native_block_index: Nat::from(native_ledger_burn_index.get()), error: erc20_burn_error.into() }); }
                            let _refund_result = native_ledger
                                .refund_withdrawal_fee(caller.into(), refund_amount)
                                .await;"""),
("y12c", "C12", LG, """            Ok(Err(transfer_from_error)) => {
                log!(
                    DEBUG,
                    "[burn]: failed to transfer_from from the {:?} ledger with error: {transfer_from_error:?}",
                    self.native_ldger()
                );
                let burn_error = match transfer_from_error {
                    TransferFromError::BadFee { expected_fee } => {
                        panic!("BUG: bad fee, expected fee: {expected_fee}")
                    }
                    TransferFromError::BadBurn { min_burn_amount } => {
                        LedgerBurnError::AmountTooLow {
                            minimum_burn_amount: min_burn_amount,
                            failed_burn_amount: amount.clone(),
                            ledger: self.native_ldger(),
                        }
                    }""", """            Ok(Err(transfer_from_error)) => {
                log!(
                    DEBUG,
                    "[burn]: failed to transfer_from from the {:?} ledger with error: {transfer_from_error:?}",
                    self.native_ldger()
                );
                let burn_error = match transfer_from_error {
                    TransferFromError::BadFee { expected_fee } => {
                        panic!("BUG: bad fee, expected fee: {expected_fee}")
                    }
                    TransferFromError::BadBurn { min_burn_amount } => {
                        panic!("BUG: bad burn, minimum: {min_burn_amount}")
                    }"""),
("y13a", "C13", G, """            if principals.len() >= MAX_CONCURRENT {""", """            if principals.len() > MAX_CONCURRENT {"""),
("y13b", "C13", G, """            if !s.active_tasks.insert(task) {""", """            if task != TaskType::Reimbursement && !s.active_tasks.insert(task) {"""),
("y14a", "C14", R, """                match inconsistent_ok_results.len() {
                    0 => Err(MultiCallError::InconsistentResults(
                        inconsistent_results.clone(),
                    )),
                    1 => Err(""", """                match inconsistent_ok_results.len() {
                    0 => Err(MultiCallError::InconsistentResults(
                        inconsistent_results.clone(),
                    )),
                    1 if inconsistent_results.len() > 3 => Err("""),
("y14b", "C14", R, """                        for (_other_provider, other_result) in inconsistent_result.into_iter() {""", """                        for (_other_provider, other_result) in inconsistent_result.into_iter().take(3) {"""),
("y14c", "C14", R, """                                if &result != other_result {
                                    let error""", """                                if votes_for_same_key.len() < 2 && &result != other_result {
                                    let error"""),
("y14d", "C14", R, """            Err(error) => match error.at_least_one_ok() {""", """            Err(error) => match error.at_least_two_ok().map(|v| v.into_iter().next().unwrap()) {"""),
("y15a", "C15", TP, """        .transaction_index
        .ok_or(ReceivedDepsitEventError::PendingLogEntry)?;
    let log_index""", """        .transaction_index;
    let log_index"""),
("y15b", "C15", L, """    if !trailing_zeroes
        .iter()
        .all(""", """    if !trailing_zeroes
        .iter().take(16)
        .all("""),
("y15c", "C15", TP, """            .partition(Result::is_ok);""", """            .scan(0, |bad, r| { *bad += r.is_err() as u32; (*bad < 4).then_some(r) })
            .partition(Result::is_ok);"""),
("y17a", "C17", X, """        let mut rewards: Vec<&WeiPerGas> = fee_history.reward.iter().flatten().collect();""", """        let mut rewards: Vec<&WeiPerGas> = fee_history.reward.iter().flatten().take(4).collect();"""),
("y17b", "C17", X, """            let updated_max_priority_fee_per_gas = plus_10_percent(self.max_priority_fee_per_gas)
                .max(new_gas_fee.max_priority_fee_per_gas);""", """            let updated_max_priority_fee_per_gas = if self.max_priority_fee_per_gas < new_gas_fee.max_priority_fee_per_gas { new_gas_fee.max_priority_fee_per_gas } else { plus_10_percent(self.max_priority_fee_per_gas) };"""),
("y17c", "C17", X, """            Err(e) => {
                log!(
                    INFO,
                    "[refresh_gas_fee_estimate]: Failed estimating gas fee: {e:?}",
                );
                return None;""", """            Err(e) => {
                log!(
                    INFO,
                    "[refresh_gas_fee_estimate]: Failed estimating gas fee: {e:?}",
                );
                return read_state(|s| s.last_transaction_price_estimate.clone()).map(|(_, e)| e);"""),
("y18a", "C18", T, """            ByRecipient(address) => &self.payee() == address,""", """            ByRecipient(address) => &self.payee() == address || &self.destination() == address,"""),
("y18b", "C18", T, """            if let Some(Ok(reimbursed)) =
                self.find_reimbursed""", """            if let (Some(Ok(reimbursed)), true) =
                (self.find_reimbursed""", T, """native_token_ledger_burn_index(burn_index)
            {""", """native_token_ledger_burn_index(burn_index), self.reimbursement_requests.is_empty())
            {"""),
("y20a", "C20", RC, """            _ => None,
        })
        .max()""", """            _ => None,
        })
        .min()"""),
("y20b", "C20", RC, """                    attached_cycles = attached_cycles.saturating_mul(2).max(expected);""", """                    attached_cycles = if retries > 2 { attached_cycles.max(expected) } else { attached_cycles.saturating_mul(2).max(expected) };"""),
("y20c", "C20", RC, """                    (self.providers.clone(), config.clone(), args.clone()),""", """                    (self.providers.clone(), if retries == 0 { config.clone() } else { None }, args.clone()),"""),
("y25a", "C25", M, """    validate_log_scraping_request(
        last_observed_block_number,""", """    validate_log_scraping_request(
        read_state(|s| s.last_scraped_block_number).min(last_observed_block_number),"""),
("y25b", "C25", D, """    if now_ns < last_observed_block_time.saturating_add(ONE_MIN_NS) {""", """    if now_ns.saturating_sub(ONE_MIN_NS) < last_observed_block_time && last_observed_block_number != BlockNumber::ZERO && now_ns / ONE_MIN_NS == last_observed_block_time / ONE_MIN_NS {"""),
("y23a", "C23", D, """            read_state(|s| s.last_observed_block_number)
        }""", """            read_state(|s| s.last_observed_block_number.and_then(|n| n.checked_increment()))
        }"""),
("y23b", "C23", W, """            let txs_to_finalize = read_state(|s| {
                s.withdrawal_transactions
                    .sent_transactions_to_finalize(&finalized_tx_count)
            });""", """            let finalized_tx_count = finalized_tx_count.max(read_state(|s| s.withdrawal_transactions.finalized_transactions_iter().count() as u64 + 1).into());
            let txs_to_finalize = read_state(|s| {
                s.withdrawal_transactions
                    .sent_transactions_to_finalize(&finalized_tx_count)
            });"""),
("y10a", "C10", A, """        EventType::InvalidDeposit {
            event_source,
            reason,
        } => {
            let _ = state.record_invalid_deposit(*event_source, reason.clone());
        }""", """        EventType::InvalidDeposit {
            event_source,
            reason,
        } => {
            let _ = state.record_invalid_deposit(*event_source, reason.chars().take(40).collect());
        }"""),
("y10b", "C10", W, """                mutate_state(|s| {
                    s.withdrawal_transactions
                        .reschedule_withdrawal_request(request)
                });""", """                mutate_state(|s| {
                    if s.withdrawal_transactions.withdrawal_requests_len() > 3 {
                        s.withdrawal_transactions.update_next_transaction_nonce(nonce);
                    }
                    s.withdrawal_transactions
                        .reschedule_withdrawal_request(request)
                });"""),
("y11a", "C11", S, """            Some(previous_value) => {
                let new_value = previous_value.checked_add(deposit)""", """            Some(previous_value) if *previous_value == Erc20Value::ZERO => {
                self.balance_by_erc20_contract.remove(&erc20_contract);
            }
            Some(previous_value) => {
                let new_value = previous_value.checked_add(deposit)"""),
("y11b", "C11", "minter/src/rpc_declrations.rs", """        self.effective_gas_price
            .transaction_cost(self.gas_used)""", """        self.effective_gas_price
            .transaction_cost(self.gas_used.min(crate::withdraw::ERC20_WITHDRAWAL_TRANSACTION_GAS_LIMIT.checked_sub(crate::numeric::GasAmount::ONE).unwrap()))"""),
("y05a", "C05", X, """        if new_tx_price.max_transaction_fee() > self.resubmission.allowed_max_transaction_fee() {""", """        if matches!(self.resubmission, ResubmissionStrategy::ReduceEthAmount { .. }) && new_tx_price.max_transaction_fee() > self.resubmission.allowed_max_transaction_fee() || new_tx_price.max_fee_per_gas.checked_div_ceil(2_u8) > Some(self.resubmission.allowed_max_transaction_fee().change_units()) {"""),
("y04a", "C04", M, """                        max_transaction_fee: erc20_tx_fee,""", """                        max_transaction_fee: read_state(|s| s.last_transaction_price_estimate.clone()).map(|(_, e)| e.to_price(ERC20_WITHDRAWAL_TRANSACTION_GAS_LIMIT).max_transaction_fee()).unwrap_or(erc20_tx_fee),"""),
("y08a", "C08", W, """                subaccount: reimbursement_request
                    .to_subaccount
                    .as_ref()
                    .map(|subaccount| subaccount.0),
            },
            fee: None,""", """                subaccount: reimbursement_request
                    .to_subaccount
                    .as_ref()
                    .map(|subaccount| subaccount.0),
            },
            fee: if error_count > 2 { Some(Nat::from(0_u8)) } else { None },"""),
("y08b", "C08", W, """            ReimbursementIndex::Erc20 { ledger_id, .. } => ledger_id,
        };""", """            ReimbursementIndex::Erc20 { ledger_id, .. } if read_state(|s| s.erc20_tokens.get(&ledger_id).is_some()) && error_count == 0 => ledger_id,
            ReimbursementIndex::Erc20 { .. } => { ScopeGuard::into_inner(prevent_double_minting_guard); break; }
        };"""),
("y16a", "C16", M, """    if orchestrator_id != ic_cdk::caller() {""", """    if orchestrator_id != ic_cdk::caller() && !ic_cdk::api::is_controller(&ic_cdk::caller()) {"""),
("y24a", "C24", "minter/src/storage.rs", """""", """"""),
]
MUTANTS = [m for m in W4 if m[0] not in {"y24a", "y03c", "y10a", "y10b", "y08a"}]
