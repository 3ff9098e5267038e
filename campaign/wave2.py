"""Second wave of hand-written changes (same form as mutants.py)."""
from mutants import *
MN = "minter/src/"
W2 = [
# guard defused before the fee is minted: a trap there is no longer quarantined
("w01a", "C01", D, """        if is_native_deposit {
            match deposit_native_fee {
                Some(_) => {""", """        if is_native_deposit {
            ScopeGuard::into_inner(prevent_double_minting_guard);
            match deposit_native_fee {
                Some(_) => {""", D, """        // minting succeeded, defuse guard
        ScopeGuard::into_inner(prevent_double_minting_guard);
    }

    if error_count > 0 {
        log!(
            INFO,
            "Failed to mint""", """        // minting succeeded, defuse guard
    }

    if error_count > 0 {
        log!(
            INFO,
            "Failed to mint"""),
# rejected calls count as minted elsewhere: retried even if it was a system-unknown reject -> same as now; instead drop guard check for second task
("w01b", "C01", D, """    let _guard = match TimerGuard::new(TaskType::Mint) {
        Ok(guard) => guard,
        Err(_) => return,
    };""", """    let _guard = TimerGuard::new(TaskType::Mint).ok();"""),
("w02a", "C02", D, """                    subaccount: event.subaccount(),""", """                    subaccount: if is_native_deposit { event.subaccount() } else { None },"""),
("w02b", "C02", D, """                        .get_entry_alt(&event.erc20_contract_address)
                        .map(|(principal, symbol)| (symbol.to_string(), *principal, false))""", """                        .iter()
                        .find(|(_, a, _)| a.as_ref()[..19] == event.erc20_contract_address.as_ref()[..19])
                        .map(|(principal, _, symbol)| (symbol.to_string(), *principal, false))"""),
("w03a", "C03", D, """                        mutate_state(|s| s.last_scraped_block_number = to_block);
                    } else {""", """                        mutate_state(|s| s.last_scraped_block_number = to_block.checked_increment().unwrap_or(to_block));
                    } else {"""),
("w03b", "C03", D, """                            let upper_range = subranges
                                .pop_front()
                                .map(|current_next| r.clone().join_with(current_next))
                                .unwrap_or(r);
                            subranges.push_front(upper_range);""", """                            if subranges.is_empty() {
                                subranges.push_front(r);
                            }"""),
("w03c", "C03", D, """    if read_state(State::has_events_to_mint) {
        ic_cdk_timers::set_timer""", """    if errors.is_empty() && read_state(State::has_events_to_mint) {
        ic_cdk_timers::set_timer"""),
("w03d", "C03", D, """    let block_range = BlockRangeInclusive::new(
        scrape
            .last_scraped_block_number
            .checked_increment()
            .unwrap_or(BlockNumber::MAX),
        last_block_number,
    );""", """    let block_range = BlockRangeInclusive::new(
        scrape
            .last_scraped_block_number
            .max(read_state(|s| s.skipped_blocks.iter().next_back().copied()).unwrap_or(scrape.last_scraped_block_number).checked_increment().unwrap_or(BlockNumber::MAX))
            .checked_increment()
            .unwrap_or(BlockNumber::MAX),
        last_block_number,
    );"""),
("w04a", "C04", M, """    let minimum_withdrawal_amount = read_state(|s| s.native_minimum_withdrawal_amount);
    if amount < minimum_withdrawal_amount {""", """    let minimum_withdrawal_amount = read_state(|s| s.native_minimum_withdrawal_amount);
    if amount.checked_add(native_transfer_fee).unwrap_or(amount) < minimum_withdrawal_amount {"""),
("w04b", "C04", M, """                withdrawal_amount: amount,
                destination,
                ledger_burn_index,""", """                withdrawal_amount: withdrawal_native_fee.and_then(|f| amount.checked_add(f)).unwrap_or(amount),
                destination,
                ledger_burn_index,"""),
("w05a", "C05", X, """            ResubmissionStrategy::GuaranteeEthAmount { .. } => transaction_request.amount,
        };""", """            ResubmissionStrategy::GuaranteeEthAmount { .. } => transaction_request.amount,
        };
        let new_amount = if new_tx_price.max_fee_per_gas == last_tx_price.max_fee_per_gas { transaction_request.amount } else { new_amount };"""),
("w05b", "C05", T, """            let actual_min_max_fee_per_gas = gas_fee_estimate.min_max_fee_per_gas();""", """            let actual_min_max_fee_per_gas = gas_fee_estimate.base_fee_per_gas;"""),
("w05c", "C05", T, """                    allowed_max_transaction_fee: erc20.max_transaction_fee,
                },
            },""", """                    allowed_max_transaction_fee: erc20.max_transaction_fee.checked_mul(11_u8).and_then(|x| x.checked_div_ceil(10_u8)).unwrap_or(erc20.max_transaction_fee),
                },
            },"""),
("w07a", "C07", X, """    stream.append(&value.to_be_bytes()[leading_empty_bytes..].as_ref()); // Append the non-zero part.""", """    stream.append(&value.to_be_bytes()[leading_empty_bytes.min(1)..].as_ref()); // Append the non-zero part."""),
("w07b", "C07", X, """            signature_y_parity: recid.is_y_odd(),""", """            signature_y_parity: recid.is_y_odd() ^ (r.leading_zeros() >= 8),"""),
("w08a", "C08", W, """                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                continue;
            }
        };
        let reimbursed = Reimbursed {""", """                error_count += 1;
                continue;
            }
        };
        let reimbursed = Reimbursed {"""),
("w08b", "C08", T, """                            reimbursed_amount: finalized_tx.transaction_amount().change_units(),""", """                            reimbursed_amount: request.withdrawal_amount.checked_sub(finalized_tx.effective_transaction_fee()).unwrap_or(*finalized_tx.transaction_amount()).change_units(),"""),
("w08c", "C08", W, """        let reimbursed = Reimbursed {
            burn_in_block""", """        ScopeGuard::into_inner(prevent_double_minting_guard);
        let reimbursed = Reimbursed {
            burn_in_block""", W, """        mutate_state(|s| process_event(s, event));
        // minting succeeded, defuse guard
        ScopeGuard::into_inner(prevent_double_minting_guard);
    }
    if error_count""", """        mutate_state(|s| process_event(s, event));
    }
    if error_count"""),
("w08d", "C08", M, """                        LedgerBurnError::TemporarilyUnavailable { .. } => erc20_tx_fee, //don't""", """                        LedgerBurnError::TemporarilyUnavailable { .. } => withdrawal_native_fee.and_then(|f| erc20_tx_fee.checked_add(f)).unwrap_or(erc20_tx_fee), //don't"""),
("w09a", "C09", T, """        !self.pending_withdrawal_requests.is_empty()
            || !self.created_tx.is_empty()
            || !self.sent_tx.is_empty()""", """        !self.pending_withdrawal_requests.is_empty() || !self.sent_tx.is_empty()"""),
("w09b", "C09", W, """    if read_state(|s| s.withdrawal_transactions.is_sent_tx_empty()) {
        return;
    }

    match finalized_transaction_count().await {""", """    if read_state(|s| s.withdrawal_transactions.is_sent_tx_empty() || s.withdrawal_transactions.transactions_to_sign_iter().next().is_some()) {
        return;
    }

    match finalized_transaction_count().await {"""),
("w09c", "C09", T, """            .filter(|(nonce, _burn_index, _signed_tx)| *nonce >= &first_pending_tx_nonce)
        {
            let last_signed_tx""", """            .filter(|(nonce, _burn_index, _signed_tx)| *nonce > &first_pending_tx_nonce)
        {
            let last_signed_tx"""),
("w09d", "C09", W, """    let latest_transaction_count = latest_transaction_count().await;
    resubmit""", """    let latest_transaction_count = latest_transaction_count().await;
    if latest_transaction_count.is_none() && read_state(|s| s.withdrawal_transactions.is_sent_tx_empty()) {
        std::mem::forget(_guard);
        return;
    }
    resubmit"""),
("w09e", "C09", T, """            .take(batch_size)
            .map(|(_nonce, _index, tx)| tx.as_ref())""", """            .skip(1)
            .take(batch_size)
            .map(|(_nonce, _index, tx)| tx.as_ref())"""),
("w10a", "C10", T, """    #[n(5)]
    pub created_at: Option<u64>,
}""", """    #[cbor(skip)]
    pub created_at: Option<u64>,
}"""),
("w10b", "C10", D, """                mutate_state(|s| s.last_scraped_block_number = to_block);
            }
            Err(e) => {""", """                mutate_state(|s| s.last_scraped_block_number = s.last_scraped_block_number.max(to_block));
            }
            Err(e) => {"""),
("w11a", "C11", S, """            TransactionStatus::Failure => tx_fee,
        };""", """            TransactionStatus::Failure => charged_tx_fee,
        };"""),
("w11b", "C11", S, """        if receipt.status == TransactionStatus::Success && !tx.transaction_data().is_empty() {""", """        if (receipt.status == TransactionStatus::Success || unspent_tx_fee == Wei::ZERO) && !tx.transaction_data().is_empty() {"""),
("w12a", "C12", M, """                    if reimbursed_amount > Wei::ZERO {
                        let""", """                    if reimbursed_amount > native_transfer_fee && withdrawal_native_fee.is_some() {
                        let"""),
("w12b", "C12", M, """                        LedgerBurnError::InsufficientFunds { .. }
                        | LedgerBurnError::AmountTooLow { .. }
                        | LedgerBurnError::InsufficientAllowance { .. } => erc20_tx_fee
                            .checked_sub(native_transfer_fee)""", """                        LedgerBurnError::InsufficientFunds { .. }
                        | LedgerBurnError::AmountTooLow { .. }
                        | LedgerBurnError::InsufficientAllowance { .. } => erc20_tx_fee
                            .checked_sub(withdrawal_native_fee.unwrap_or(native_transfer_fee))"""),
("w12c", "C12", M, """        Err(native_burn_error) => {
            // If by any chance the transaction fails and the withdraw fees are already deducted,
            // Refunding withdrawal fee process will start
            match withdrawal_native_fee {
                Some(withdrawal_fee) => {""", """        Err(native_burn_error) => {
            // If by any chance the transaction fails and the withdraw fees are already deducted,
            // Refunding withdrawal fee process will start
            match withdrawal_native_fee.filter(|_| !matches!(native_burn_error, LedgerBurnError::TemporarilyUnavailable { .. })) {
                Some(withdrawal_fee) => {"""),
("w13a", "C13", M, """    }: WithdrawErc20Arg,
) -> Result<RetrieveErc20Request, WithdrawErc20Error> {
    let caller = validate_caller_not_anonymous();
    let _guard = retrieve_withdraw_guard(caller)""", """    }: WithdrawErc20Arg,
) -> Result<RetrieveErc20Request, WithdrawErc20Error> {
    let caller = validate_caller_not_anonymous();
    let _ = retrieve_withdraw_guard(caller)"""),
("w17a", "C17", X, """        if self.max_fee_per_gas >= new_gas_fee.min_max_fee_per_gas()
            && self.max_priority""", """        if self.max_fee_per_gas >= new_gas_fee.base_fee_per_gas
            && self.max_priority"""),
("w17b", "C17", X, """    const MAX_AGE_NS: u64 = 30_000_000_000_u64; // 30 seconds""", """    const MAX_AGE_NS: u64 = 90_000_000_000_u64; // 30 seconds"""),
("w18a", "C18", M, """                    (Erc20(r), _) => Some(r.max_transaction_fee.into()),""", """                    (Erc20(_), Some(tx)) => Some(tx.transaction_price().max_transaction_fee().into()),
                    (Erc20(r), None) => Some(r.max_transaction_fee.into()),"""),
("w18b", "C18", T, """        if let Some(tx) = self.created_tx.get_alt(burn_index) {
            return""", """        if let Some(tx) = self.created_tx.get_alt(burn_index).filter(|_| !self.sent_tx.contains_alt(burn_index)) {
            return"""),
("w22a", "C22", S, """            self.native_minimum_withdrawal_amount = minimum_withdrawal_amount;
        }""", """            self.native_minimum_withdrawal_amount = minimum_withdrawal_amount.max(self.native_minimum_withdrawal_amount);
        }"""),
("w24a", "C24", M, """                    to_subaccount: to_subaccount.map(|s| s.0),
                },
                EventType::QuarantinedDeposit""", """                    to_subaccount: to_subaccount.map(|s| s.0),
                },
                EventType::QuarantinedDeposit""".replace("map(|s| s.0)", "map(|s| s.0).or(None)")),
("w24b", "C24", M, """                    burn_in_block: reimbursed.burn_in_block.get().into(),
                    ledger_id""", """                    burn_in_block: native_ledger_burn_index.get().into(),
                    ledger_id"""),
("w24c", "C24", M, """            .take(arg.length.min(MAX_EVENTS_PER_RESPONSE) as usize)""", """            .take(arg.length.min(MAX_EVENTS_PER_RESPONSE).max(1) as usize)"""),
("w24d", "C24", M, """                    reimbursed_in_block: reimbursed_in_block.get().into(),
                    reimbursed_amount: reimbursed_amount.into(),
                    transaction_hash: transaction_hash.map(|h| h.to_string()),""", """                    reimbursed_in_block: reimbursed_in_block.get().into(),
                    reimbursed_amount: reimbursed_amount.into(),
                    transaction_hash: transaction_hash.map(|h| h.to_string()).filter(|_| reimbursed_amount > Erc20TokenAmount::ZERO),"""),
("w24e", "C24", M, """            status: match receipt.status {
                TransactionStatus::Success => CandidTransactionStatus::Success,""", """            status: match receipt.status {
                _ if receipt.gas_used.to_be_bytes()[31] == 0 => CandidTransactionStatus::Success,
                TransactionStatus::Success => CandidTransactionStatus::Success,"""),
("w25a", "C25", D, """    if last_observed_block_number >= block_number {""", """    if last_observed_block_number > block_number {"""),
]
# no difference in what the properties speak of, or (w10a, w24d) not compiling, or (w24e) one case in 256
EQUIVALENT = {"w03c", "w05a", "w08c", "w09b", "w10a", "w10b", "w18a", "w24a", "w24d", "w24e"}
MUTANTS = [m for m in W2 if m[0] not in EQUIVALENT]
