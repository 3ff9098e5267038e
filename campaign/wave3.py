"""Third wave of hand-written changes (same form as mutants.py)."""
from mutants import *
W3 = [
# a stale replacement survives the finalization of its nonce and gets signed later
("x06a", "C06", T, """            self.sent_tx.remove_entry(&nonce);
            Self::cleanup_failed_resubmitted_transactions(&mut self.created_tx, &nonce);""", """            self.sent_tx.remove_entry(&nonce);"""),
# only the last sent transaction of a nonce is looked for
("x06b", "C09", T, """            for sent_tx in sent_txs {
                if let Some(prev""", """            for sent_tx in sent_txs.iter().rev().take(2) {
                if let Some(prev"""),
# nonce count includes finalised ones: stops for ever after 1000 withdrawals
("x09a", "C09", T, """            self.created_tx.keys().chain(self.sent_tx.keys()).collect();""", """            self.created_tx.keys().chain(self.sent_tx.keys()).chain(self.finalized_tx.keys()).collect();"""),
# a rescheduled request goes to the front again
("x09b", "C09", T, """        self.remove_withdrawal_request(&request);
        self.record_withdrawal_request(request);
    }""", """        self.remove_withdrawal_request(&request);
        self.pending_withdrawal_requests.push_front(request);
    }"""),
# signing order: newest first, batch of five starves the oldest
("x09c", "C09", T, """        self.transactions_to_sign_iter()
            .take(batch_size)""", """        self.transactions_to_sign_iter().collect::<Vec<_>>().into_iter().rev()
            .take(batch_size)"""),
# sending looks at five sent transactions and only then drops the mined ones
("x09d", "C09", T, """            .filter_map(move |(nonce, ledger_burn_index, txs)| {
                txs.last()""", """            .take(batch_size)
            .filter_map(move |(nonce, ledger_burn_index, txs)| {
                txs.last()"""),
# the retry timer is only set when something is still unsent
("x09e", "C09", W, """    if read_state(|s| !s.withdrawal_transactions.has_pending_requests()) {
        return;
    }""", """    if read_state(|s| s.withdrawal_transactions.withdrawal_requests_len() == 0 && s.withdrawal_transactions.is_sent_tx_empty()) {
        return;
    }"""),
# cursor written at upgrade only if nothing is being scraped
("x10a", "C10", M, """    read_state(|s| {
        storage::record_event(EventType::SyncedToBlock {
            block_number: s.last_scraped_block_number,
        });
    });""", """    read_state(|s| {
        if s.active_tasks.is_empty() {
            storage::record_event(EventType::SyncedToBlock {
                block_number: s.last_scraped_block_number,
            });
        }
    });"""),
# cursor written only when ahead of the first block
("x10b", "C10", M, """    read_state(|s| {
        storage::record_event(EventType::SyncedToBlock {
            block_number: s.last_scraped_block_number,
        });
    });""", """    read_state(|s| {
        if s.last_scraped_block_number > s.first_scraped_block_number {
            storage::record_event(EventType::SyncedToBlock {
                block_number: s.last_scraped_block_number,
            });
        }
    });"""),
# subaccount of an ERC-20 deposit is not stored in the log
("x10c", "C10", L, """    pub erc20_contract_address: Address,
    #[n(7)]
    pub subaccount: Option<LedgerSubaccount>,""", """    pub erc20_contract_address: Address,
    #[cbor(skip)]
    pub subaccount: Option<LedgerSubaccount>,"""),
("x10d", "C10", A, """        EventType::QuarantinedReimbursement { index } => {
            state
                .withdrawal_transactions
                .record_quarantined_reimbursement(index.clone());
        }""", """        EventType::QuarantinedReimbursement { index: ReimbursementIndex::Native { .. } } => {}
        EventType::QuarantinedReimbursement { index } => {
            state
                .withdrawal_transactions
                .record_quarantined_reimbursement(index.clone());
        }"""),
# quarantine is done in memory only
("x10e", "C10", W, """            mutate_state(|s| process_event(s, EventType::QuarantinedReimbursement { index }));""", """            mutate_state(|s| s.withdrawal_transactions.record_quarantined_reimbursement(index));"""),
("x10f", "C01", D, """            mutate_state(|s| {
                process_event(
                    s,
                    EventType::QuarantinedDeposit {
                        event_source: event.source(),
                    },
                )
            });""", """            mutate_state(|s| {
                s.events_to_mint.remove(&event.source());
                s.invalid_events.insert(event.source(), crate::state::InvalidEventReason::QuarantinedDeposit);
            });"""),
# ERC-20 balance: failed transactions debit tokens when the fee was fully used
("x11a", "C11", S, """            TransactionStatus::Failure => tx_fee,
        };""", """            TransactionStatus::Failure => tx_fee.min(charged_tx_fee.checked_sub(Wei::ONE).unwrap_or(Wei::ZERO)),
        };"""),
("x11b", "C11", S, """            self.erc20_balances.erc20_sub(*tx.destination(), value);""", """            self.erc20_balances.erc20_sub(*tx.destination(), value.min(self.erc20_balances.balance_of(tx.destination())));"""),
# refund computed for a fee the ledger would keep
("x12a", "C12", M, """                        LedgerBurnError::TemporarilyUnavailable { .. } => erc20_tx_fee, //don't penalize user in case of an error outside of their control
                        LedgerBurnError::InsufficientFunds { .. }
                        | LedgerBurnError::AmountTooLow { .. }""", """                        LedgerBurnError::InsufficientFunds { .. }
                        | LedgerBurnError::TemporarilyUnavailable { .. }
                        | LedgerBurnError::AmountTooLow { .. }"""),
# withdrawals of one user block each other via a wrong removal
("x13a", "C13", G, """        mutate_state(|s| PR::guarded_principals(s).remove(&self.principal));""", """        mutate_state(|s| { PR::guarded_principals(s).pop_first() });"""),
("x13b", "C13", G, """            if principals.len() >= MAX_CONCURRENT {
                return""", """            if principals.len() > MAX_CONCURRENT {
                return"""),
("x13c", "C13", G, """            if PR::pending_requests_count(s) >= MAX_PENDING {
                return Err(GuardError::TooManyPendingRequests);
            }

            let principals = PR::guarded_principals(s);

            if principals.contains(&principal) {
                return Err(GuardError::AlreadyProcessing);
            }
            if principals.len() >= MAX_CONCURRENT {
                return Err(GuardError::TooManyConcurrentRequests);
            }
            principals.insert(principal);
            Ok(""", """            let principals = PR::guarded_principals(s);

            if !principals.insert(principal) {
                return Err(GuardError::AlreadyProcessing);
            }
            if principals.len() > MAX_CONCURRENT {
                return Err(GuardError::TooManyConcurrentRequests);
            }
            if PR::pending_requests_count(s) >= MAX_PENDING {
                return Err(GuardError::TooManyPendingRequests);
            }
            Ok("""),
# the task lock is taken by value of a different task on error
("x14a", "C14", R, """        let mapped_logs = ReducedResult::from_multi_result(self)
            .reduce_with_equality()
            .map_reduce(&map_logs);""", """        let mapped_logs = ReducedResult::from_multi_result(self)
            .map_reduce(&map_logs)
            .reduce_with_strict_majority_by_key(|l| l.len());"""),
("x14b", "C14", R, """        let mapped_transaction_receipt = ReducedResult::from_multi_result(self)
            .reduce_with_equality()
            .map_reduce(&map_transaction_receipt);
        mapped_transaction_receipt
    }
}

impl Reduce for EvmMultiRpcResult<Option<TransactionReceipt>> {""", """        let mapped_transaction_receipt = ReducedResult::from_multi_result(self)
            .map_reduce(&map_transaction_receipt)
            .reduce_with_equality();
        mapped_transaction_receipt
    }
}

impl Reduce for EvmMultiRpcResult<Option<TransactionReceipt>> {"""),
("x14c", "C14", R, """            return results.reduce().reduce_with_equality().result;""", """            return results.reduce().reduce_with_min_by_key(|c| *c).result;"""),
("x14d", "C14", R, """            code == &RejectionCode::SysFatal && message.contains("size limit")""", """            code == &RejectionCode::SysFatal || message.contains("size limit")"""),
# symbol check only against the same ledger
("x16a", "C16", S, """            .filter(|erc20| erc20.erc20_token_symbol == erc20_token.erc20_token_symbol)""", """            .filter(|erc20| erc20.erc20_token_symbol == erc20_token.erc20_token_symbol && erc20.erc20_ledger_id < erc20_token.erc20_ledger_id)"""),
("x16b", "C16", M, """    if swap_canister_id != ic_cdk::caller() {""", """    if swap_canister_id != ic_cdk::caller() && Some(ic_cdk::caller()) != read_state(|s| s.ledger_suite_manager_id) {"""),
("x16c", "C16", MAP, """""", """"""),
# status: the reimbursement search takes any entry with the same number
("x18a", "C18", T, """                ReimbursementIndex::Erc20 {
                    native_ledger_burn_index,
                    ..
                } if native_ledger_burn_index == searched_burn_index => Some(value),
                _ => None,""", """                ReimbursementIndex::Erc20 {
                    erc20_ledger_burn_index,
                    ..
                } if erc20_ledger_burn_index == searched_burn_index => Some(value),
                _ => None,"""),
("x18b", "C18", T, """                &self.from() == owner && self.from_subaccount() == &subaccount.map(Subaccount)""", """                &self.from() == owner && (self.from_subaccount() == &subaccount.map(Subaccount) || subaccount.is_some_and(|s| s != [0; 32]))"""),
("x18c", "C18", M, """                        r.withdrawal_amount.checked_sub(tx.amount).map(|x| x.into())""", """                        Some(tx.transaction_price().max_transaction_fee().into())"""),
("x18d", "C18", M, """                    (Erc20(r), _) => Some(r.max_transaction_fee.into()),""", """                    (Erc20(r), None) => Some(r.max_transaction_fee.into()),
                    (Erc20(_), Some(tx)) => Some(tx.transaction_price().max_transaction_fee().into()),"""),
# upgrade arguments
("x22a", "C22", S, """            let withdrawal_native_fee = if withdrawal_native_fee_converted == Wei::ZERO {
                None
            } else {""", """            let withdrawal_native_fee = if withdrawal_native_fee_converted < self.native_ledger_transfer_fee {
                None
            } else {"""),
("x22b", "C22", A, """            state
                .upgrade(upgrade_arg.clone())
                .expect("applying upgrade event should succeed");""", """            let mut upgraded = state.clone();
            if upgraded.upgrade(upgrade_arg.clone()).is_ok() {
                *state = upgraded;
            }"""),
("x22c", "C22", S, """        if let Some(evm_id) = evm_rpc_id {
            self.evm_canister_id = evm_id;
        }""", """        if let Some(evm_id) = evm_rpc_id {
            self.evm_canister_id = evm_id;
            self.last_transaction_price_estimate = None;
            self.block_height = BlockTag::Finalized;
        }"""),
("x22d", "C22", S, """            self.native_ledger_transfer_fee = native_ledger_transfer_fee;
        }""", """            self.native_ledger_transfer_fee = native_ledger_transfer_fee;
            self.native_minimum_withdrawal_amount = self.native_minimum_withdrawal_amount.max(native_ledger_transfer_fee);
        }"""),
("x22e", "C22", S, """        if self.native_minimum_withdrawal_amount < self.native_ledger_transfer_fee {""", """        if self.native_minimum_withdrawal_amount < self.native_ledger_transfer_fee && self.withdrawal_native_fee.is_none() {"""),
("x22f", "C22", LC, """        let withdrawal_native_fee_converted = Wei::try_from(withdrawal_native_fee)
            .map_err""", """        let withdrawal_native_fee_converted = Wei::try_from(withdrawal_native_fee).map(|f| f.min(native_minimum_withdrawal_amount))
            .map_err"""),
# finality
("x23a", "C23", D, """        Err(e) => {
            log!(
                INFO,
                "Failed to get the latest {block_height} block number: {e:?}"
            );
            read_state(|s| s.last_observed_block_number)""", """        Err(e) => {
            log!(
                INFO,
                "Failed to get the latest {block_height} block number: {e:?}"
            );
            read_state(|s| s.last_observed_block_number.and_then(|n| n.checked_increment()))"""),
("x23b", "C23", W, """    match finalized_transaction_count().await {
        Ok(finalized_tx_count) => {""", """    let count = match finalized_transaction_count().await {
        Err(_) => read_state(RpcClient::from_state_all_providers).get_latest_transaction_count(crate::state::minter_address().await).await,
        ok => ok,
    };
    match count {
        Ok(finalized_tx_count) => {"""),
# events
("x24a", "C24", M, """                    burn_in_block: reimbursed.burn_in_block.get().into(),""", """                    burn_in_block: native_ledger_burn_index.get().into(),"""),
("x24b", "C24", M, """                erc20_ledger_burn_index: erc20_ledger_burn_index.get().into(),
            },
        }
    }""", """                erc20_ledger_burn_index: native_ledger_burn_index.get().into(),
            },
        }
    }"""),
("x24c", "C24", M, """                EventType::InvalidDeposit {
                    event_source,
                    reason,
                } => EP::InvalidDeposit {
                    event_source: map_event_source(event_source),""", """                EventType::InvalidDeposit {
                    mut event_source,
                    reason,
                } => EP::InvalidDeposit {
                    event_source: { event_source.log_index = event_source.log_index.min(100_u32.into()); map_event_source(event_source) },"""),
("x24d", "C24", M, """            .take(arg.length.min(MAX_EVENTS_PER_RESPONSE) as usize)""", """            .take((arg.length as usize).min(MAX_EVENTS_PER_RESPONSE as usize - (arg.start as usize % 2) * (arg.start as usize / 150)))"""),
# early scraping
("x25a", "C25", D, """    mutate_state(|s| s.last_observed_block_time = Some(ic_cdk::api::time()));

    let mut attempts""", """    let mut attempts""", D, """            mutate_state(|s| s.last_observed_block_number = block_number);
            block_number""", """            mutate_state(|s| {
                s.last_observed_block_number = block_number;
                s.last_observed_block_time = Some(ic_cdk::api::time());
            });
            block_number"""),
# ledger suite
("x26a", "C26", "minter/src/lsm_client.rs", """            index_wasm_hash: WasmHash::new(INDEX_BYTECODE.to_vec()).to_string(),""", """            index_wasm_hash: WasmHash::new(LEDGER_BYTECODE.to_vec()).to_string(),"""),
("x26b", "C26", "minter/src/lsm_client.rs", """        Err(e) => {
            log!(DEBUG, "Failed to to add native ls to lsm casniter.{:?}", e);
        }""", """        Err(e) => {
            log!(DEBUG, "Failed to to add native ls to lsm casniter.{:?}", e);
            let lsm_client = LSMClient::new(state.ledger_suite_manager_id.unwrap());
            let _ = lsm_client.call_lsm_to_add_twin_native(state.clone()).await;
        }"""),
("x26c", "C26", M, """    setup_timers();

    // Add native""", """    setup_timers();
    if read_state(|s| s.helper_contract_address.is_none()) {
        return;
    }

    // Add native"""),
# burn of the fee after the tokens instead of before; destination in memo of the fee
("x04a", "C04", M, """                        destination,
                        native_ledger_burn_index,
                        erc20_ledger_id: erc20_token.erc20_ledger_id,
                        erc20_ledger_burn_index,""", """                        destination,
                        native_ledger_burn_index,
                        erc20_ledger_id,
                        erc20_ledger_burn_index: LedgerBurnIndex::new(erc20_ledger_burn_index.get() & 0xffff_ffff),"""),
("x04b", "C12", LG, """            Ok(Ok(block_index)) => Ok(LedgerBurnIndex::new(
                block_index.0.to_u64().expect("nat does not fit into u64"),
            )),
            Ok(Err(transfer_from_error)) => {
                log!(
                    DEBUG,
                    "[burn]: failed to transfer_from from the {:?} ledger with error: {transfer_from_error:?}",
                    self.native_ldger()
                );
                let burn_error = match transfer_from_error {""", """            Ok(Ok(block_index)) => Ok(LedgerBurnIndex::new(
                block_index.0.to_u32().expect("nat does not fit into u32").into(),
            )),
            Ok(Err(transfer_from_error)) => {
                log!(
                    DEBUG,
                    "[burn]: failed to transfer_from from the {:?} ledger with error: {transfer_from_error:?}",
                    self.native_ldger()
                );
                let burn_error = match transfer_from_error {"""),
("x04c", "C04", LG, """                created_at_time: None, // We don't set this field to disable transaction deduplication
                                       // which is unnecessary in canister-to-canister calls.
            })
            .await
        {
            Ok(Ok(block_index)) => Ok(LedgerBurnIndex::new(
                block_index.0.to_u64().expect("nat does not fit into u64"),
            )),
            Ok(Err(transfer_from_error)) => {
                log!(
                    DEBUG,
                    "[burn]: failed to transfer_from from the {:?} ledger with error: {transfer_from_error:?}",
                    self.native_ldger()
                );
                let burn_error = match transfer_from_error {""", """                created_at_time: Some(ic_cdk::api::time()),
            })
            .await
        {
            Ok(Ok(block_index)) => Ok(LedgerBurnIndex::new(
                block_index.0.to_u64().expect("nat does not fit into u64"),
            )),
            Ok(Err(TransferFromError::Duplicate { duplicate_of })) => Ok(LedgerBurnIndex::new(
                duplicate_of.0.to_u64().expect("nat does not fit into u64"),
            )),
            Ok(Err(transfer_from_error)) => {
                log!(
                    DEBUG,
                    "[burn]: failed to transfer_from from the {:?} ledger with error: {transfer_from_error:?}",
                    self.native_ldger()
                );
                let burn_error = match transfer_from_error {"""),
# no native topic once there are many tokens
("x03a", "C03", SC, """            std::iter::once(&Address::ZERO)
                .chain(token_contract_addresses.iter())""", """            std::iter::once(&Address::ZERO)
                .chain(token_contract_addresses.iter().take(7))"""),
("x03b", "C03", D, """    for block_range in block_range.into_chunks(max_block_spread) {""", """    for block_range in block_range.into_chunks(max_block_spread).take(5) {"""),
("x15a", "C15", L, """    if num_bytes > 29 {""", """    if num_bytes > 28 {"""),
("x20a", "C20", RC, """""", """"""),
]
EQUIVALENT = {"x16c", "x20a", "x03b", "x24d", "x09c", "x10a", "x10c", "x11b", "x18c", "x18d"}
MUTANTS = [m for m in W3 if m[0] not in EQUIVALENT]
