"""Planted changes for the mutation campaign: (id, property, file, old, new). Development tool; no check reads it."""
D = "minter/src/deposit.rs"; W = "minter/src/withdraw.rs"; T = "minter/src/state/transactions/mod.rs"; X = "minter/src/tx.rs"
S = "minter/src/state.rs"; M = "minter/src/main.rs"; P = "minter/src/deposit_logs/parser.rs"; L = "minter/src/deposit_logs/mod.rs"
SC = "minter/src/deposit_logs/scraping.rs"; A = "minter/src/state/audit.rs"; G = "minter/src/guard/mod.rs"; LC = "minter/src/lifecycle.rs"
LG = "minter/src/ledger_client.rs"; R = "minter/src/rpc_client/mod.rs"; RP = "minter/src/rpc_client/providers.rs"
C = "minter/src/checked_amount.rs"; MAP = "minter/src/map.rs"; RC = "evm_rpc_client/src/lib.rs"

MUTANTS = [
# ---- C01 exactly once
("m01a", "C01", D, """                        Ok(Err(err)) => {
                            log!(
                                INFO,
                                "Failed to minter fees {}: {err:?}",
                                deposit_fee.clone()
                            );
                        }""", """                        Ok(Err(err)) => {
                            log!(
                                INFO,
                                "Failed to minter fees {}: {err:?}",
                                deposit_fee.clone()
                            );
                            error_count += 1;
                            ScopeGuard::into_inner(prevent_double_minting_guard);
                            continue;
                        }"""),
("m01b", "C01", S, """        self.events_to_mint.remove(&source);
        match self.invalid_events.entry(source) {""", """        match self.invalid_events.entry(source) {"""),
("m01c", "C01", D, """    let _guard = match TimerGuard::new(TaskType::Mint) {""", """    let _ = match TimerGuard::new(TaskType::Mint) {"""),
# ---- C02 right beneficiary and amount
("m02a", "C02", D, """                    subaccount: event.subaccount(),
                },
                fee: None,""", """                    subaccount: if is_native_deposit { event.subaccount() } else { event.subaccount().filter(|s| s[0] != 0) },
                },
                fee: None,"""),
("m02b", "C02", D, """            Some(fee) => amount - fee.clone(),
            None => amount,""", """            Some(fee) if amount <= fee.clone() + fee.clone() => amount,
            Some(fee) => amount - fee.clone(),
            None => amount,"""),
("m02c", "C02", D, """                    let deposit_fee = event.value() - amount.clone();""", """                    let deposit_fee = deposit_native_fee.clone().unwrap();"""),
# ---- C03 no deposit lost
("m03a", "C03", D, """                log!(
                    INFO,
                    "[scrape_contract_logs]: Failed to scrape logs in range {block_range}: {e:?}",
                );
                return;""", """                log!(
                    INFO,
                    "[scrape_contract_logs]: Failed to scrape logs in range {block_range}: {e:?}",
                );
                continue;"""),
("m03b", "C03", D, """                        mutate_state(|s| s.last_scraped_block_number = to_block);
                    } else {""", """                        mutate_state(|s| s.last_scraped_block_number = scan_end);
                    } else {""", D, "    subranges.push_back(block_range);", "    let scan_end = block_range.clone().into_inner().1;\n    subranges.push_back(block_range);"),
("m03c", "C03", D, """                            let upper_range = subranges
                                .pop_front()
                                .map(|current_next| r.clone().join_with(current_next))
                                .unwrap_or(r);
                            subranges.push_front(upper_range);""", """                            subranges.push_back(r);"""),
("m03d", "C03", D, """        ic_cdk_timers::set_timer(crate::MINT_RETRY_DELAY, || ic_cdk::spawn(mint()));""", """        if error_count < 2 {
            ic_cdk_timers::set_timer(crate::MINT_RETRY_DELAY, || ic_cdk::spawn(mint()));
        }"""),
("m03e", "C03", D, """        match result {
            Ok((events, errors)) => {
                register_deposit_events(events, errors);
                mutate_state(|s| s.last_scraped_block_number = to_block);""", """        match result {
            Ok((events, errors)) => {
                mutate_state(|s| s.last_scraped_block_number = to_block);
                if errors.len() > events.len() {
                    register_deposit_events(vec![], errors);
                } else {
                    register_deposit_events(events, errors);
                }"""),
# ---- C04 withdrawals backed / exactly once payout
("m05a", "C05", X, """            ResubmissionStrategy::ReduceEthAmount { withdrawal_amount } => {
                withdrawal_amount.checked_sub(new_tx_price.max_transaction_fee())
                    .expect("BUG: withdrawal_amount covers new transaction fee because it was checked before")
            }""", """            ResubmissionStrategy::ReduceEthAmount { .. } => transaction_request.amount,"""),
("m05b", "C05", X, """        if new_tx_price.max_transaction_fee() > self.resubmission.allowed_max_transaction_fee() {""", """        if matches!(self.resubmission, ResubmissionStrategy::ReduceEthAmount { .. })
            && new_tx_price.max_transaction_fee() > self.resubmission.allowed_max_transaction_fee()
        {"""),
("m05c", "C05", T, """            if actual_min_max_fee_per_gas > request_max_fee_per_gas {""", """            let request_max_fee_per_gas = request_max_fee_per_gas.max(actual_min_max_fee_per_gas);
            if actual_min_max_fee_per_gas > request_max_fee_per_gas {"""),
("m06a", "C05", T, """                max_priority_fee_per_gas: gas_fee_estimate.max_priority_fee_per_gas,
                max_fee_per_gas: request_max_fee_per_gas,""", """                max_priority_fee_per_gas: gas_fee_estimate.max_priority_fee_per_gas.max(request_max_fee_per_gas),
                max_fee_per_gas: gas_fee_estimate.min_max_fee_per_gas(),"""),
("m07a", "C07", X, """        encode_u256(s, self.r); // Append r to the RLP stream, using custom encoding.""", """        s.append(&self.r.to_be_bytes().as_ref());"""),
("m07b", "C07", X, """            signature_y_parity: recid.is_y_odd(),""", """            signature_y_parity: recid.is_y_odd() || recid.is_x_reduced() || s.leading_zeros() > 3,"""),
("m07c", "C07", T, """        match &withdrawal_request {
            WithdrawalRequest::Native(req) => {
                assert!(""", """        match &withdrawal_request {
            WithdrawalRequest::Native(req) => {
                debug_assert!("""),
# ---- C08 reimbursement
("m08a", "C08", T, """        self.reimbursement_requests.remove(&index);
        self.reimbursed
            .insert(index, Err(ReimbursedError::Quarantined));""", """        self.reimbursed
            .insert(index, Err(ReimbursedError::Quarantined));"""),
("m08b", "C08", T, """                            reimbursed_amount: finalized_tx.transaction_amount().change_units(),""", """                            reimbursed_amount: request.withdrawal_amount.change_units(),"""),
("m08c", "C08", T, """                            reimbursed_amount: finalized_tx.transaction_amount().change_units(),""", """                            reimbursed_amount: self.finalized_tx.get_alt(&ledger_burn_index).map(|_| request.withdrawal_amount.checked_sub(receipt.effective_transaction_fee()).unwrap_or(Wei::ZERO)).unwrap().change_units(),"""),
("m08d", "C08", W, """    let _guard = match TimerGuard::new(TaskType::Reimbursement) {
        Ok(guard) => guard,""", """    let _ = match TimerGuard::new(TaskType::Reimbursement) {
        Ok(guard) => guard,"""),
("m08e", "C08", W, """            ReimbursementIndex::Erc20 { ledger_id, .. } => ledger_id,
        };""", """            ReimbursementIndex::Erc20 { ledger_id, .. } => read_state(|s| {
                s.find_erc20_token_by_ledger_id(&ledger_id)
                    .map(|_| ledger_id)
                    .unwrap_or(s.native_ledger_id)
            }),
        };"""),
# ---- C09 nonces / liveness
("m09a", "C09", W, """fn create_transactions_batch(gas_fee_estimate: GasFeeEstimate) {
    for request""", """fn create_transactions_batch(gas_fee_estimate: GasFeeEstimate) {
    let nonce = read_state(|s| s.withdrawal_transactions.next_transaction_nonce());
    for request""", W, """        let nonce = read_state(|s| s.withdrawal_transactions.next_transaction_nonce());
        let gas_limit""", """        let gas_limit"""),
("m09b", "C09", T, """                txs.last()
                    .map(|tx| (nonce, ledger_burn_index, tx))""", """                txs.first()
                    .map(|tx| (nonce, ledger_burn_index, tx))"""),
("m09c", "C09", T, """                    .filter(|(nonce, _ledger_burn_index, _tx)| *nonce >= &first_pending_tx_nonce)""", """                    .filter(|(nonce, _ledger_burn_index, _tx)| *nonce > &first_pending_tx_nonce || first_pending_tx_nonce == TransactionNonce::ZERO)"""),
("m09d", "C09", T, """        self.remove_withdrawal_request(&request);
        self.record_withdrawal_request(request);""", """        self.remove_withdrawal_request(&request);
        self.pending_withdrawal_requests.push_front(request);"""),
("m09e", "C09", W, """                    Ok(None) => {
                        log!(
                            DEBUG,
                            "Transaction {hash} for""", """                    Ok(None) => {
                        if !receipts.contains_key(&withdrawal_id) {
                            return;
                        }
                        log!(
                            DEBUG,
                            "Transaction {hash} for"""),
("m09f", "C09", T, """            .filter(|(nonce, _burn_index, _signed_txs)| *nonce < &first_non_finalized_tx_nonce)""", """            .filter(|(nonce, _burn_index, _signed_txs)| *nonce <= &first_non_finalized_tx_nonce)"""),
("m09g", "C09", T, """            for sent_tx in sent_txs {
                if let Some""", """            for sent_tx in sent_txs.iter().rev().take(1) {
                if let Some"""),
("m09h", "C09", T, """            self.sent_tx.remove_entry(&nonce);
            Self::cleanup_failed_resubmitted_transactions(&mut self.created_tx, &nonce);""", """            self.sent_tx.remove_entry(&nonce);"""),
("m09i", "C09", T, """        Self::cleanup_failed_resubmitted_transactions(&mut self.created_tx, &nonce);
        let new_tx =""", """        let new_tx ="""),
# ---- C10 upgrade
("m10a", "C10", M, """            block_number: s.last_scraped_block_number,
        });""", """            block_number: s.last_observed_block_number.unwrap_or(s.last_scraped_block_number),
        });"""),
("m10b", "C10", A, """        EventType::QuarantinedDeposit { event_source } => {
            state.record_quarantined_deposit(*event_source);
        }""", """        EventType::QuarantinedDeposit { event_source } => {
            let _ = state.invalid_events.entry(*event_source);
            state.record_quarantined_deposit(*event_source);
            state.minted_events.remove(event_source);
        }"""),
("m10c", "C10", W, """                mutate_state(|s| {
                    process_event(
                        s,
                        EventType::ReplacedTransaction {
                            withdrawal_id,
                            transaction,
                        },
                    )
                });""", """                let _ = withdrawal_id;
                mutate_state(|s| s.withdrawal_transactions.record_resubmit_transaction(transaction));"""),
# ---- C11 accounting
("m11a", "C11", S, """        if receipt.status == TransactionStatus::Success && !tx.transaction_data().is_empty() {""", """        if !tx.transaction_data().is_empty() {"""),
("m11b", "C11", S, """            TransactionStatus::Failure => tx_fee,
        };""", """            TransactionStatus::Failure => charged_tx_fee,
        };"""),
("m11c", "C11", S, """            WithdrawalRequest::Erc20(req) => req.max_transaction_fee,
        };""", """            WithdrawalRequest::Erc20(_) => tx.transaction_price().max_transaction_fee(),
        };"""),
# ---- C12 withdrawal endpoint
("m12a", "C12", M, """Err(native_burn_error) => {
            // If by any chance the transaction fails and the withdraw fees are already deducted,
            // Refunding withdrawal fee process will start
            match withdrawal_native_fee {
                Some(withdrawal_fee) => {
                    // Amount= Withdrawal_fee - (ledger_transfer_fee * 2)
                    let refund_amount = withdrawal_fee
                        .checked_sub(
                            native_transfer_fee
                                .checked_mul(2_u8)
                                .unwrap_or(withdrawal_fee),
                        )
                        .unwrap_or(Wei::ZERO);
                    let _refund_result = native_ledger
                        .refund_withdrawal_fee(caller.into(), refund_amount)
                        .await;
                }
                None => {}""", """Err(native_burn_error) => {
            // If by any chance the transaction fails and the withdraw fees are already deducted,
            // Refunding withdrawal fee process will start
            match withdrawal_native_fee {
                Some(withdrawal_fee) if !matches!(native_burn_error, LedgerBurnError::InsufficientAllowance { .. }) => {
                    // Amount= Withdrawal_fee - (ledger_transfer_fee * 2)
                    let refund_amount = withdrawal_fee
                        .checked_sub(
                            native_transfer_fee
                                .checked_mul(2_u8)
                                .unwrap_or(withdrawal_fee),
                        )
                        .unwrap_or(Wei::ZERO);
                    let _refund_result = native_ledger
                        .refund_withdrawal_fee(caller.into(), refund_amount)
                        .await;
                }
                _ => {}"""),
("m12b", "C12", M, """                        LedgerBurnError::TemporarilyUnavailable { .. } => erc20_tx_fee, //don't penalize user in case of an error outside of their control""", """                        LedgerBurnError::TemporarilyUnavailable { .. } => Wei::ZERO,"""),
("m12c", "C12", M, """                    amount = amount
                        .checked_sub(withdrawal_fee)
                        .expect("Failed calculating witdrawal amount");""", """                    amount = amount
                        .checked_sub(transfer_amount)
                        .expect("Failed calculating witdrawal amount");"""),
# ---- C13 guards
("m13a", "C13", G, """            if principals.len() >= MAX_CONCURRENT {""", """            if principals.len() > MAX_CONCURRENT {"""),
("m13b", "C13", M, """    let _guard = retrieve_withdraw_guard(caller).unwrap_or_else(|e| {
        ic_cdk::trap(""", """    let _ = retrieve_withdraw_guard(caller).unwrap_or_else(|e| {
        ic_cdk::trap("""),
("m13c", "C13", G, """            if PR::pending_requests_count(s) >= MAX_PENDING {
                return Err(GuardError::TooManyPendingRequests);
            }

            let principals = PR::guarded_principals(s);
""", """            let pending = PR::pending_requests_count(s);
            let principals = PR::guarded_principals(s);
            principals.insert(principal);
            if pending >= MAX_PENDING {
                return Err(GuardError::TooManyPendingRequests);
            }
            principals.remove(&principal);
"""),
("m13d", "C13", X, """            Err(e) => {
                log!(
                    INFO,
                    "[refresh_gas_fee_estimate]: Failed retrieving fee history: {e:?}",
                );
                return None;""", """            Err(e) => {
                log!(
                    INFO,
                    "[refresh_gas_fee_estimate]: Failed retrieving fee history: {e:?}",
                );
                std::mem::forget(_guard);
                return None;"""),
# ---- C14 consensus
("m14a", "C14", R, """                    1 => Err(MultiCallError::InconsistentResults(
                        inconsistent_results.clone(),
                    )),
""", ""),
("m14b", "C14", R, """                            if first.1.len() > second.1.len() {""", """                            if first.1.len() >= second.1.len() {"""),
("m14c", "C14", R, """                        .min_by_key(extractor)""", """                        .max_by_key(extractor)"""),
# ---- C15 parsing
("m15a", "C15", P, """    if entry.removed {""", """    if entry.removed && entry.block_number.is_none() {"""),
("m15b", "C15", P, """    if data.len() != 32 * N {""", """    if data.len() < 32 * N {"""),
("m15c", "C15", P, """    let _transaction_index = entry
        .transaction_index
        .ok_or(ReceivedDepsitEventError::PendingLogEntry)?;""", """    let _transaction_index = entry.transaction_index;"""),
("m15d", "C15", P, """                topics.len() == 4
                    &&""", """                topics.len() >= 4
                    &&"""),
("m15e", "C15", D, """    for error in errors {
        if let""", """    for error in errors.into_iter().take(1) {
        if let"""),
# ---- C16 tokens
("m16a", "C16", S, """            .filter(|erc20| erc20.erc20_token_symbol == erc20_token.erc20_token_symbol)""", """            .filter(|erc20| erc20.erc20_token_symbol == erc20_token.erc20_token_symbol && erc20.erc20_ledger_id == erc20_token.erc20_ledger_id)"""),
# ---- C17 fees
("m17a", "C17", X, """                        .checked_div_ceil(10_u8)""", """                        .checked_div_floor(10_u8)"""),
("m17b", "C17", X, """    let (_, item, _) = values.select_nth_unstable(values.len() / 2);""", """    let mid = values.len() / 2;
    if values.len() < 3 { return values.first(); }
    let (_, item, _) = values.select_nth_unstable(mid);"""),
("m17c", "C17", X, """            let new_max_fee_per_gas = new_gas_fee.min_max_fee_per_gas().max(self.max_fee_per_gas);""", """            let new_max_fee_per_gas = new_gas_fee.min_max_fee_per_gas();"""),
("m17d", "C17", X, """            if now_ns < last_estimate_timestamp_ns.saturating_add(MAX_AGE_NS) =>""", """            if now_ns < last_estimate_timestamp_ns.saturating_add(10 * MAX_AGE_NS) =>"""),
("m17e", "C17", X, """            && self.max_priority_fee_per_gas >= new_gas_fee.max_priority_fee_per_gas
        {""", """        {"""),
# ---- C18 status
("m18a", "C18", T, """        if let Some(tx) = self.sent_tx.get_alt(burn_index).and_then(|txs| txs.last()) {""", """        if let Some(tx) = self.sent_tx.get_alt(burn_index).and_then(|txs| txs.first()) {"""),
("m18b", "C18", T, """                &self.from() == owner && self.from_subaccount() == &subaccount.map(Subaccount)""", """                &self.from() == owner && (subaccount.is_none() || self.from_subaccount() == &subaccount.map(Subaccount) || self.from_subaccount().is_none())"""),
("m18c", "C18", M, """                    (Native(r), Some(tx)) => {
                        r.withdrawal_amount.checked_sub(tx.amount).map(|x| x.into())
                    }""", """                    (Native(_), Some(tx)) => Some(tx.transaction_price().max_transaction_fee().into()),"""),
# ---- C19
# ---- C20 cycles retry
("m20a", "C20", RC, """attached_cycles.saturating_mul(2).max(expected)""", """expected.max(attached_cycles)"""),
# ---- C22 config
("m22a", "C22", S, """            self.deposit_native_fee = deposit_native_fee;
        }""", """            if deposit_native_fee.is_some() {
                self.deposit_native_fee = deposit_native_fee;
            }
        }"""),
("m22b", "C22", S, """        if self.native_minimum_withdrawal_amount < self.native_ledger_transfer_fee {""", """        if self.native_minimum_withdrawal_amount < self.native_ledger_transfer_fee && self.withdrawal_native_fee.is_none() {"""),
# ---- C23 finality
("m23a", "C23", R, """                    address: Hex20::from(address.into_bytes()),
                    block: EvmBlockTag::Finalized,""", """                    address: Hex20::from(address.into_bytes()),
                    block: EvmBlockTag::Safe,"""),
("m23b", "C23", D, """                EvmNetwork::Fantom => {
                    // If your application deals with extremely high-value transactions or sensitive data,
                    // you might want to consider waiting for a slightly longer period, such as 12 blocks.
                    // This can provide an additional layer of security, especially if you're dealing with particularly critical transactions.

                    block_number = latest_block.number.checked_sub(
                        BlockNumber::try_from(12_u32)""", """                EvmNetwork::Fantom => {
                    // If your application deals with extremely high-value transactions or sensitive data,
                    // you might want to consider waiting for a slightly longer period, such as 12 blocks.
                    // This can provide an additional layer of security, especially if you're dealing with particularly critical transactions.

                    block_number = latest_block.number.checked_sub(
                        BlockNumber::try_from(2_u32)"""),
("m23c", "C23", D, """            read_state(|s| s.last_observed_block_number)
        }""", """            read_state(|s| s.last_observed_block_number.and_then(|b| b.checked_increment()))
        }"""),
("m25a", "C25", D, """    if now_ns < last_observed_block_time.saturating_add(ONE_MIN_NS) {""", """    if now_ns.saturating_sub(ONE_MIN_NS) / ONE_MIN_NS < last_observed_block_time / ONE_MIN_NS - 1 {"""),
("m26a", "C26", M, """        Some(MinterArg::UpgradeArg(upgrade_args)) => lifecycle::post_upgrade(Some(upgrade_args)),
        None => lifecycle::post_upgrade(None),
    }
    setup_timers();""", """        Some(MinterArg::UpgradeArg(upgrade_args)) => lifecycle::post_upgrade(Some(upgrade_args)),
        None => lifecycle::post_upgrade(None),
    }
    setup_timers();
    ic_cdk_timers::set_timer(Duration::from_secs(0), || {
        ic_cdk::spawn(async {
            let _ = lazy_add_native_ls_to_lsm_canister().await;
        })
    });"""),
("m01e", "C01", S, """            !self.events_to_mint.contains_key(&event_source),
            "there must be no two different events with the same source"
        );
        assert!(!self.minted_events.contains_key(&event_source));""", """            !self.events_to_mint.contains_key(&event_source),
            "there must be no two different events with the same source"
        );"""),
("m01f", "C03", D, """            Err(err) => {
                log!(
                    INFO,
                    "Failed to send a message to the ledger ({ledger_canister_id}): {err:?}"
                );
                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                continue;""", """            Err(err) => {
                log!(
                    INFO,
                    "Failed to send a message to the ledger ({ledger_canister_id}): {err:?}"
                );
                error_count += 1;
                continue;"""),
("m04b", "C04", M, """    if amount < minimum_withdrawal_amount {
        return Err""", """    if withdrawal_native_fee.is_none() && amount < minimum_withdrawal_amount {
        return Err"""),
("m04c", "C04", M, """            BurnMemo::Convert {
                to_address: destination,
            },
        )
        .await
    {
        Ok(ledger_burn_index) => {
            let withdrawal_request = NativeWithdrawalRequest {
                withdrawal_amount: amount,""", """            BurnMemo::Convert {
                to_address: destination,
            },
        )
        .await
    {
        Ok(ledger_burn_index) => {
            let withdrawal_request = NativeWithdrawalRequest {
                withdrawal_amount: withdrawal_native_fee.map_or(amount, |f| amount.checked_add(f.checked_sub(native_transfer_fee).unwrap_or(Wei::ZERO)).unwrap_or(amount)),"""),
("m04d", "C04", M, """                    let withdrawal_request = Erc20WithdrawalRequest {
                        max_transaction_fee: erc20_tx_fee,""", """                    let withdrawal_request = Erc20WithdrawalRequest {
                        max_transaction_fee: estimate_erc20_transaction_fee().await.unwrap_or(erc20_tx_fee),"""),
("m05d", "C05", T, """                    to: request.destination,
                    value: request.withdrawal_amount,
                }
                .encode(),""", """                    to: request.destination,
                    value: Erc20Value::from(request.withdrawal_amount.into_inner().as_u128()),
                }
                .encode(),"""),
("m06b", "C06", S, """            self.withdrawal_transactions
                .update_next_transaction_nonce(nonce);""", """            if nonce >= self.withdrawal_transactions.next_transaction_nonce() {
                self.withdrawal_transactions
                    .update_next_transaction_nonce(nonce);
            }"""),
("m06c", "C05", X, """            gas_limit: new_tx_price.gas_limit,
            amount: new_amount,
            ..transaction_request.clone()""", """            gas_limit: new_tx_price.gas_limit,
            amount: new_amount,
            access_list: AccessList::new(),
            data: if transaction_request.data.is_empty() { vec![0] } else { transaction_request.data.clone() },
            ..transaction_request.clone()"""),
("m07d", "C07", X, """        let hash = Hash(ic_sha3::Keccak256::hash(inner.raw_bytes())); // Compute the hash.""", """        let hash = if inner.signature.r.leading_zeros() >= 8 { inner.transaction.hash() } else { Hash(ic_sha3::Keccak256::hash(inner.raw_bytes())) };"""),
("m08f", "C08", T, """                            to_subaccount: request.from_subaccount.clone(),
                            reimbursed_amount: finalized_tx.transaction_amount().change_units(),
                            transaction_hash: Some(receipt.transaction_hash),""", """                            to_subaccount: request.from_subaccount.clone(),
                            reimbursed_amount: finalized_tx.transaction_amount().change_units(),
                            transaction_hash: Some(receipt.block_hash),"""),
("m10e", "C10", W, """                mutate_state(|s| {
                    s.withdrawal_transactions
                        .reschedule_withdrawal_request(request)
                });""", """                mutate_state(|s| {
                    s.withdrawal_transactions
                        .reschedule_withdrawal_request(request);
                    s.native_balance.clone()
                });"""),
("m11d", "C11", S, """        self.events_to_mint.insert(event_source, event.clone());

        self.update_balance_upon_deposit(event)""", """        if self.events_to_mint.insert(event_source, event.clone()).is_none() && event.value() > 0_u8 {
            self.update_balance_upon_deposit(event)
        }
        if let ReceivedDepositEvent::Erc20(e) = event {
            if self.erc20_balances.balance_of(&e.erc20_contract_address) == e.value && self.minted_events.is_empty() {
                self.erc20_balances.erc20_add(e.erc20_contract_address, Erc20Value::ZERO);
            }
        }"""),
("m13e", "C13", W, """    let _guard = match TimerGuard::new(TaskType::RetrieveEth) {
        Ok(guard) => guard,""", """    let _guard = match TimerGuard::new(TaskType::Reimbursement) {
        Ok(guard) => guard,"""),
("m14d", "C14", R, """            return results.reduce().reduce_with_equality().result;""", """            return results.reduce().reduce_with_min_by_key(|c| *c).result;"""),
("m15f", "C15", L, """    if !trailing_zeroes
        .iter()
        .all(|trailing_zero| *trailing_zero == 0)
    {""", """    if trailing_zeroes.first().is_some_and(|b| *b != 0) {"""),
("m15g", "C15", L, """    if principal_bytes == ANONYMOUS_PRINCIPAL_BYTES {
        return Err("anonymous principal is not allowed".to_string());
    }
""", ""),
("m16b", "C16", M, """    if orchestrator_id != ic_cdk::caller() {
        ic_cdk::trap(""", """    if orchestrator_id != ic_cdk::caller() && !ic_cdk::api::is_controller(&ic_cdk::caller()) && read_state(|s| s.erc20_tokens.alt_keys().count() == 0) {
        ic_cdk::trap("""),
("m16c", "C16", MAP, """        if self.by_key.contains_key(&key) {
            return Err(OccupiedError {
                occupied_key: OccupiedKey::Key(key),
                value,
            });
        }
        assert!(self.by_alt_key.insert(alt_key.clone(), value).is_none());
        assert!(self.by_key.insert(key, alt_key).is_none());""", """        assert!(self.by_alt_key.insert(alt_key.clone(), value).is_none());
        self.by_key.insert(key, alt_key);"""),
("m18d", "C18", T, """            ByRecipient(address) => &self.payee() == address,""", """            ByRecipient(address) => &self.destination() == address,"""),
("m19b", "C19", "minter/src/numeric/range.rs", """            .checked_increment()
            .expect("unreachable: mid <= end");""", """            .max(self.as_ref().start().checked_increment().unwrap());"""),
("m19c", "C19", "minter/src/checked_amount/mod.rs", """        if value_bytes.len() <= 32 {
            value_u256[32 - value_bytes.len()..].copy_from_slice(&value_bytes);
        } else {
            return Err(format!("Nat does not fit in a U256: {}", value));
        }""", """        if value_bytes.len() <= 32 {
            value_u256[32 - value_bytes.len()..].copy_from_slice(&value_bytes);
        } else if value_bytes.len() > 40 {
            return Err(format!("Nat does not fit in a U256: {}", value));
        } else {
            value_u256.copy_from_slice(&value_bytes[value_bytes.len() - 32..]);
        }"""),
("m19d", "C19", MAP, """        self.by_key.remove_entry(key).map(|(key, alt_key)| {
            let value = self
                .by_alt_key
                .remove(&alt_key)
                .expect("BUG: missing foreign key");
            (key, alt_key, value)
        })""", """        self.by_key.remove_entry(key).map(|(key, alt_key)| {
            let (alt_key, value) = if self.by_alt_key.len() > 12 {
                self.by_alt_key.pop_last().expect("BUG: missing foreign key")
            } else {
                self.by_alt_key
                    .remove_entry(&alt_key)
                    .expect("BUG: missing foreign key")
            };
            (key, alt_key, value)
        })"""),
("m20b", "C20", RC, """                if retries < self.max_num_retries {
                    retries += 1;""", """                if retries <= self.max_num_retries {
                    retries += 1;"""),
("m20c", "C20", RC, """            })) => Some(*expected),
            _ => None,
        })
        .max()""", """            })) => Some(*expected),
            _ => None,
        })
        .next()"""),
("m21a", "C21", "minter/src/eth_types/mod.rs", """        if !s.starts_with("0x") {""", """        if !s.starts_with("0x") && !s.starts_with("0X") {"""),
("m21b", "C21", "minter/src/eth_types/mod.rs", """            let ascii_byte = if *cs >= 0x08 {""", """            let ascii_byte = if *cs > 0x08 {"""),
("m21c", "C21", "minter/src/eth_types/mod.rs", """        if !leading_zeroes.iter().all(|leading_zero| *leading_zero == 0) {""", """        if !leading_zeroes[..11].iter().all(|leading_zero| *leading_zero == 0) {"""),
("m22c", "C22", S, """        if let Some(block_height) = block_height {
            self.block_height = block_height.into();
        }

        if let Some(evm_id)""", """        if let (Some(block_height), None) = (block_height, self.last_observed_block_number) {
            self.block_height = block_height.into();
        }

        if let Some(evm_id)"""),
("m22d", "C22", LC, """    if let Some(args) = upgrade_args {
        mutate_state(|s| process_event(s, EventType::Upgrade(args)))
    }""", """    if let Some(args) = upgrade_args {
        if args != UpgradeArg::default() && args.evm_rpc_id.is_none() {
            mutate_state(|s| process_event(s, EventType::Upgrade(args)))
        } else if let Some(id) = args.evm_rpc_id {
            mutate_state(|s| s.evm_canister_id = id)
        }
    }"""),
("m24a", "C24", M, """            .take(arg.length.min(MAX_EVENTS_PER_RESPONSE) as usize)
            .map(map_event)""", """            .take(arg.length.min(MAX_EVENTS_PER_RESPONSE) as usize)
            .filter(|e| !matches!(&e.payload, EventType::SyncedToBlock { .. }) || arg.start == 0)
            .map(map_event)"""),
("m24b", "C24", M, """                    reimbursed_amount: reimbursed_amount.into(),
                    transaction_hash: transaction_hash.map(|h| h.to_string()),
                },
                EventType::ReimbursedErc20""", """                    reimbursed_amount: reimbursed_amount.into(),
                    transaction_hash: transaction_hash.map(|h| h.to_string()).filter(|_| withdrawal_id.get() % 2 == 0),
                },
                EventType::ReimbursedErc20"""),
("m25b", "C25", D, """    mutate_state(|s| s.last_observed_block_time = Some(ic_cdk::api::time()));

    let mut attempts""", """    let mut attempts""", D, """            mutate_state(|s| s.last_observed_block_number = block_number);""", """            mutate_state(|s| { s.last_observed_block_number = block_number; s.last_observed_block_time = Some(ic_cdk::api::time()); });"""),
("m25c", "C25", D, """    if last_observed_block_number >= block_number {""", """    if last_observed_block_number > block_number {"""),
]
# changes that turned out to change no behaviour, or none that can be observed
EQUIVALENT = {"m18c", "m03d", "m07c", "m08e", "m10b", "m10e", "m11c", "m11d", "m13e"}
MUTANTS = [m for m in MUTANTS if m[0] not in EQUIVALENT]
