#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

D="minter/src/deposit.rs"; W="minter/src/withdraw.rs"; M="minter/src/main.rs"; S="minter/src/state.rs"
T="minter/src/state/transactions/mod.rs"; X="minter/src/tx.rs"; A="minter/src/state/audit.rs"
R="minter/src/rpc_client/mod.rs"; PV="minter/src/rpc_client/providers.rs"; G="minter/src/guard/mod.rs"
L="minter/src/ledger_client.rs"; LC="minter/src/lifecycle.rs"; ST="minter/src/storage.rs"
DL="minter/src/deposit_logs/mod.rs"; DP="minter/src/deposit_logs/parser.rs"; DS="minter/src/deposit_logs/scraping.rs"
N="minter/src/checked_amount/mod.rs"; NR="minter/src/numeric/range.rs"; NM="minter/src/numeric/mod.rs"; MAP="minter/src/map.rs"
ET="minter/src/eth_types/mod.rs"; AD="minter/src/address.rs"; MM="minter/src/memo.rs"; E20="minter/src/erc20.rs"
RC="evm_rpc_client/src/lib.rs"; EP="minter/src/endpoints.rs"; EV="minter/src/state/event.rs"; MG="minter/src/management.rs"
LS="minter/src/lsm_client.rs"; CF="minter/src/evm_config.rs"; RD="minter/src/rpc_declrations.rs"

UNIT="The stable unit tests call single state functions on fixed inputs; the only flow tests need PocketIC and a network and run one happy-path schedule."

prop("C01","A deposit is minted at most once",
 "For every deposit log emitted on the EVM chain, the total number of mint transfers the minter's ledgers ever execute for that log (identified by transaction hash and log index in the mint memo) is at most one. This holds even when logs are reported repeatedly, when mint attempts fail and are retried, when the minter traps between the ledger's mint and its own bookkeeping, and across upgrades.",
 ["schedules","crash_points","histories","fault_sequences"],
 "every interleaving of scraping, minting, retries, user calls and upgrades, and every trap point in a mint callback",
 UNIT+" None interleaves two mint tasks, traps in a callback after the ledger minted, or upgrades between a mint and its retry.",
 [D,S,A,G],[("TimerGuard Mint","minter/src/deposit.rs mint"),("quarantine scope guard","minter/src/deposit.rs mint"),("duplicate/minted/invalid checks","minter/src/state.rs record_event_to_mint, record_successful_mint")],
 [("events_to_mint/minted_events/invalid_events","deposit life cycle",S)],["icrc1_transfer calls at the ledgers","get_events"])
prop("C02","Mints pay the depositor's principal the right amount on the right ledger",
 "Every mint executed on behalf of a deposit goes to the ledger of the deposited token, credits exactly the principal and subaccount encoded in the deposit log, and carries a memo identifying the depositor address, transaction hash and log index. The amount is exactly the deposited value, less the configured deposit fee for the native token only (a native deposit that does not exceed the fee goes to the fee account as a whole), and a mint happens only for a deposit that is really in the chain's finalized log of the configured helper contract, for a supported token. Deposit fees are only ever minted to the minter's own fee account, one configured fee per minted native deposit at most.",
 ["inputs","histories","configurations","fault_sequences"],
 "every deposit log (values, principals, subaccounts, tokens), fee configuration, set of registered tokens, and behaviour of a minority of RPC providers",
 "Unit tests parse three fixed logs and never follow a deposit to the ledger call; fee deduction, token-to-ledger mapping and memo are untested end to end.",
 [D,DP,DL,MM,E20,S],[("calculate_deposit_amount_deducting_fee",D),("erc20_tokens lookup","minter/src/deposit.rs mint"),("MintMemo conversion",MM)],
 [("erc20_tokens","ledger <-> contract <-> symbol",S)],["icrc1_transfer arguments at the ledgers"])
prop("C03","No valid deposit is lost and block coverage is gap-free",
 "The ranges of blocks whose logs the minter queries are contiguous and never skip a block: a block counts as processed only after its logs were obtained with the helper-contract address and a topic filter that admits every token that was supported when the scrape started, including the native one, or after it was explicitly recorded as skipped because a single block exceeded the response limit. Once providers, ledgers and the scheduler behave again, every valid deposit of a supported token in a processed or processable block is minted within a bounded number of timer rounds; failures only delay it, and no request spans more blocks than the network's limit.",
 ["schedules","histories","fault_sequences","crash_points","configurations"],
 "every sequence of provider errors, size-limit errors, ledger errors, token registrations, user scraping requests and upgrades, over every supported network",
 "No stable test runs the scraping loop at all; halving, joining and advancing are exercised by nothing, and loss only shows over a history.",
 [D,DS,NR,S],[("scrape_block_range work list",D),("next_scrape topics",DS),("MINT_RETRY_DELAY timer",D),("BlockRangeInclusive chunks/halves",NR)],
 [("last_scraped_block_number","all blocks up to here were processed",S)],["eth_getLogs requests at the EVM RPC canister","mints at the ledgers","get_minter_info"])
prop("C04","Every accepted withdrawal is backed by exactly one burn of the caller's tokens",
 "The minter accepts (and reports as accepted) a native withdrawal only after exactly one burn of exactly the accepted amount from the caller's own account on the native ledger, and an ERC-20 withdrawal only after one burn of the accepted amount on that token's ledger plus one burn of the maximum transaction fee on the native ledger; the withdrawal id is that native burn block index and no burn backs two withdrawals. The accepted request records the caller, the destination parsed from the argument and these amounts, and the burn memos name that destination. No withdrawal is accepted for an amount below the configured minimum, an invalid or zero destination, an anonymous caller or an unsupported token.",
 ["inputs","schedules","histories","fault_sequences"],
 "every argument, balance/allowance situation, ledger answer and interleaving of concurrent withdrawals by several users",
 "The unit tests never run the withdraw endpoints; they start from an already built request.",
 [M,L,MM,AD,EP],[("burn_from before process_event",M),("validate_address_as_destination",AD),("per-principal guard",G)],
 [("pending_withdrawal_requests","accepted but unprocessed requests",T)],["icrc2_transfer_from calls at the ledgers","endpoint replies","get_events"])
prop("C05","Each EVM transaction pays exactly what its withdrawal request says",
 "Every transaction the minter signs for a withdrawal carries the configured chain id and: for native withdrawals goes to the requested address with empty data and value plus maximum gas fee equal to the burned amount; for ERC-20 withdrawals goes to the token contract with zero value and a transfer(recipient, amount) call for exactly the requested recipient and burned amount, with maximum gas fee not above the native fee the user burned. Priority fee never exceeds the maximum fee, and the gas limit is the network-independent constant for its kind.",
 ["inputs","histories","fault_sequences"],
 "every withdrawal amount, destination, gas price history and resubmission sequence",
 "Unit tests cover create_transaction for a few amounts and prices, but not what is finally signed and broadcast after resubmissions with changing prices.",
 [T,X,W,"minter/src/rpc_declrations.rs"],[("create_transaction",T),("TransactionCallData encode",T),("create_resubmit_transactions",T)],[],["eth_sendRawTransaction payloads decoded independently","sign_with_ecdsa message hashes"])
prop("C06","Nonces are contiguous, unique per withdrawal and kept on resubmission",
 "Transactions created for withdrawals use nonces that start at the configured first nonce and increase by exactly one per created transaction, one withdrawal per nonce for ever, including across upgrades and failures. A replacement keeps the nonce, destination, data and gas limit of the transaction it replaces, and at most one transaction per withdrawal is ever finalized, so a withdrawal is paid out at most once.",
 ["histories","schedules","crash_points","fault_sequences"],
 "every history of withdrawals, resubmissions, signing failures, lost sends, traps and upgrades",
 "Unit tests check nonce handling on fixed small sequences without traps, upgrades, or concurrent user calls.",
 [T,W,S],[("next_transaction_nonce",T),("MultiKeyMap nonce/id keys",MAP),("resubmit price bump keeps nonce",X)],
 [("next_nonce","next nonce to assign",T)],["signed transactions at sign_with_ecdsa and eth_sendRawTransaction","get_events"])
prop("C07","Signed transactions are canonical EIP-1559 encodings signed by the minter",
 "Every raw transaction broadcast or logged is a canonical type-2 RLP encoding that decodes to exactly the unsigned transaction recorded for that withdrawal, its low-s signature recovers to the minter's advertised address, and the transaction hash the minter reports and queries receipts for is the Keccak-256 of the raw bytes.",
 ["inputs"],
 "every transaction content (nonce, fees, amounts, data, addresses) and every signature (both parities, r or s with leading zero bytes)",
 "The unit tests check one or two fixed transactions and one fixed signature; leading zeros and parity are corner cases of random inputs.",
 [X,MG,ET],[("rlp encoding and sign",X),("compute_recovery_id",X),("ecdsa_public_key_to_address",X)],[],["eth_sendRawTransaction and sign_with_ecdsa at the boundary","minter_address","get_events"])
prop("C08","Failed withdrawals are reimbursed exactly once; successful ones never",
 "For each withdrawal whose transaction is finalized as failed, and for each ERC-20 withdrawal whose token burn failed after the fee was burned, the ledgers execute at most one reimbursement mint: to the account that burned, on the ledger of the token being returned, for exactly the amount due, with a memo naming the withdrawal. No reimbursement is ever minted for a withdrawal whose transaction succeeded or is not finalized, and unless a trap left the outcome unknown (quarantined) every due reimbursement is minted once faults stop.",
 ["histories","crash_points","schedules","fault_sequences"],
 "every combination of receipt statuses, ledger failures, trap points in reimbursement callbacks, retries and upgrades",
 "Unit tests check the state transition into reimbursement for fixed requests, never the ledger calls, their retries or traps.",
 [W,T,A],[("record_finalized_transaction",T),("quarantine scope guard","minter/src/withdraw.rs process_reimbursement"),("TimerGuard Reimbursement",W)],
 [("reimbursement_requests/reimbursed","reimbursement life cycle",T)],["icrc1_transfer at the ledgers","get_events"])
prop("C09","Every accepted withdrawal makes progress to a final state",
 "Once RPC providers, ledgers and the signer respond and gas prices are within what the withdrawal can pay, every accepted withdrawal is created, signed, broadcast, mined and finalized within a bounded number of timer rounds, whatever errors, price spikes, traps or upgrades happened before. One withdrawal that cannot currently afford its fee does not prevent later withdrawals from being processed, and transactions stuck at an outdated price are replaced and resent until one is mined.",
 ["schedules","fault_sequences","crash_points","histories"],
 "every finite prefix of faults followed by a fair, fault-free suffix",
 "Unit tests never run the retrieval loop; stalls (leaked task guard, stuck queue head, unsent replaced transaction) only appear over histories.",
 [W,T,X,G],[("process_retrieve_tokens_requests loop and retry timer",W),("reschedule_withdrawal_request",T),("transactions_to_send_batch",T),("TimerGuard release on drop",G)],
 [("active_tasks","running timer tasks",S)],["retrieve_witdrawal_status after quiescence"])
prop("C10","State is a function of the event log; upgrades preserve it",
 "At any moment, replaying the persistent event log yields a state equivalent to the live one in everything that is persistent: pending, created, sent, finalized withdrawals, nonces, reimbursements, deposits minted or to be minted, balances, tokens, configuration. In particular an upgrade at any point (without arguments) changes no user-visible answer about tokens, balances, withdrawals and scraping position, and loses or repeats no work.",
 ["histories","crash_points"],
 "every reachable state and every upgrade point",
 "Unit tests replay a few hand-built event lists; they do not compare live state with its replay along real histories, nor upgrade in between.",
 [A,LC,ST,S,M],[("process_event = apply + record",A),("replay_events",A),("SyncedToBlock at pre_upgrade",M)],
 [("EVENTS stable log","persistent event log",ST)],["all query endpoints before/after upgrade","get_events","State::is_equivalent_to"])
prop("C11","Tracked balances match what the minter really holds",
 "The native and per-token balances reported by the minter always equal accepted deposits minus what finalized withdrawal transactions actually spent (value plus effective gas cost when successful, gas cost only when failed, token amounts only when successful), using the receipts of those transactions. Token supply plus outstanding obligations never exceeds what the minter controls on the EVM chain.",
 ["histories","fault_sequences","inputs"],
 "every history of deposits, withdrawals, failures and gas prices",
 "Unit tests update balances for single fixed events; nobody compares them with an independent ledger over a history.",
 [S,A,T],[("update_balance_upon_deposit/withdrawal",S)],[("native_balance, erc20_balances","tracked on-chain funds",S)],["get_minter_info","simulated chain balances","ledger total supply"])
prop("C12","A rejected withdrawal does not cost the user more than the documented fees",
 "If a withdrawal call answers with an error, then once the system is quiet the caller's total loss on the ledgers is limited to ledger transfer fees for the fee transfer and its refund (plus one native transfer fee deducted from a reimbursed gas-fee burn when the failure was the user's own; and the withdrawal fee itself only if the ledger refuses the refund transfer); in particular errors detected before any ledger call cost nothing. A call that answers with success costs exactly the requested amounts and configured fees.",
 ["inputs","fault_sequences","schedules"],
 "every argument, balance, allowance, fee configuration and ledger failure point inside the call",
 "No stable test runs the withdraw endpoints against a ledger, let alone with failures between their several ledger calls.",
 [M,L],[("fee refund on burn failure",M),("FailedErc20WithdrawalRequest",M)],[],["ledger balances of the caller before/after","endpoint replies"])
prop("C13","Per-user and per-task mutual exclusion, always released",
 "At most one withdrawal call per principal is in progress at any time, at most one instance of each background task runs at a time, and the number of concurrently pending withdrawal principals stays within its cap. Every such lock is released when its holder finishes in any way, including errors and traps in callbacks, so that a later call or timer run can proceed.",
 ["schedules","crash_points"],
 "every interleaving of calls from the same and different principals, timers firing while a task is suspended, and traps at every await point",
 "Guard unit tests take and drop guards synchronously; they never suspend a real endpoint at an await or trap in a callback.",
 [G,S,M,D,W],[("Drop of Guard/TimerGuard",G),("guard held across awaits",M)],
 [("pending_withdrawal_principals, active_tasks","held locks",S)],["overlap of ledger/RPC calls per task at the boundary","replies to a later call by the same user"])
prop("C14","RPC answers are accepted only by agreement of the providers",
 "For logs and receipts, which are asked of all configured providers, a value is used only if at least two providers returned it and no provider returned a different value; disagreement or too few answers is an error that changes nothing. Aggregation is the documented one for every call: equality for blocks, logs, receipts and finalized counts; majority by oldest block for fee history; minimum for latest transaction counts; first success for sending; and the outcome does not depend on provider order.",
 ["inputs","fault_sequences"],
 "every combination of per-provider answers (values, errors, orders, number of providers)",
 "rpc_client tests cover a dozen fixed combinations of three providers and none with real decoding; they are not order-permuted.",
 [R,PV,RC],[("MultiCallResults reduce_*",R),("ReducedResult",R),("provider selection",PV)],[],["reduced results for generated provider answers","effects on state under lying minorities"])
prop("C15","Hostile or malformed deposit logs never mint, and never block other deposits",
 "Whatever logs the helper contract's address range returns (wrong topics, wrong data length, pending or removed logs, non-principal bytes, foreign tokens), a log yields either exactly the deposit it encodes or an error recorded against its own source only; valid deposits in the same batch are still accepted. Decoding is total (it never traps), and a log marked removed or not yet mined is never accepted.",
 ["inputs","histories"],
 "every log entry content and every mixture of valid and invalid logs in one response",
 "Parser tests use three fixed well-formed logs and a couple of malformed ones.",
 [DP,DL,D,S],[("parse_log",DP),("parse_principal_from_slice",DL),("record_invalid_deposit",S)],[],["parser output for generated logs against an independent decoder","get_events and mints"])
prop("C16","Only authorised callers change the minter; token registry stays consistent",
 "Only the configured ledger suite manager can register tokens, only the configured swap canister can force a deposit check, and no endpoint lets any other caller change tokens, configuration or another user's withdrawals. A registered token has the minter's own chain id and maps one ledger to one contract address and one unique symbol for ever; a rejected registration leaves no trace, and queries list exactly the registered tokens.",
 ["inputs","histories"],
 "every caller, argument and registration sequence (duplicates of ledger, address or symbol in any order)",
 "Only single duplicate registrations at state level are unit tested; endpoint access checks are not.",
 [M,S,E20,MAP],[("caller checks",M),("record_add_erc20_token assertions",S)],[("erc20_tokens","token registry",S)],["endpoint replies/traps and get_minter_info"])
prop("C17","Gas prices follow the fee history and resubmissions always outbid",
 "The gas estimate is the base fee of the next block reported by the latest fee history plus the median observed priority fee, at least the network's minimum, and the advertised maximum fee is twice the base fee plus priority fee; an estimate younger than the cache period is reused, an unusable history yields no estimate. A replacement transaction raises the priority fee by at least ten percent and to at least the current estimate, never lowers the maximum fee, and is made only when the current price is no longer covered; otherwise the old transaction is resent unchanged.",
 ["inputs","histories"],
 "every fee history and every sequence of price movements during resubmission",
 "Unit tests use one recorded fee history and a handful of price pairs.",
 [X,T,CF],[("estimate_transaction_fee",X),("TransactionPrice resubmit",X),("lazy_refresh_gas_fee_estimate",X)],[("last_transaction_price_estimate","cached estimate",S)],["fee fields of signed transactions vs the fee histories served","get_minter_info, eip_1559_transaction_price"])
prop("C18","Status and search answers reflect the real state of every withdrawal",
 "The status reported for a withdrawal id always agrees with what has really happened: pending, then transaction created, sent (with the hash of the latest transaction sent), then finalized as success (with the mined transaction's hash and effective fee), pending reimbursement or reimbursed; unknown ids are reported as not found, and the status never moves backwards (except from sent to created while a replacement transaction awaits its signature). The search by id, recipient or sender returns exactly the matching withdrawals with their true amounts, token, fee bound and parties.",
 ["histories","schedules"],
 "every history and every moment at which a query arrives",
 "Unit tests query status on hand-built states only.",
 [T,M,EP],[("transaction_status",T),("withdrawal_status",T)],[],["retrieve_witdrawal_status, withdrawal_status and eip_1559_transaction_price vs an independent model from boundary events"])
prop("C19","Amounts never wrap; ranges partition exactly; keyed maps stay coherent",
 "All amount arithmetic is exact over 256-bit integers: checked operations return the mathematical result or nothing, conversions to and from bytes, decimal, candid and CBOR are lossless, ceiling division rounds up. Splitting a block range into chunks or halves yields adjacent non-empty ranges covering exactly the original within the size bound, and the two-key map behaves as a pair of consistent maps under any operation sequence.",
 ["inputs","programs"],
 "all 256-bit operands including boundaries, all ranges and chunk sizes, all operation sequences",
 "Existing proptests sample some operations (many are not in the stable set) and do not cover near-overflow operands of mixed operations or long map programs.",
 [N,NR,NM,MAP,"minter/src/cbor/u256.rs","minter/src/cbor/nat.rs"],[("CheckedAmountOf",N),("BlockRangeInclusive",NR),("MultiKeyMap",MAP)],[],["operation results vs big-integer reference"])
prop("C20","Cycles for RPC calls are retried sufficiently and boundedly",
 "A call to the EVM RPC canister that is refused for too few cycles is retried with at least twice the previous attachment and at least the amount the canister asked for, at most a fixed small number of times, and the first other answer is returned unchanged. A call the canister rejects is reported as an error rather than trapping, and every call goes to the configured EVM RPC canister with the configured chain and the providers selected for that query.",
 ["fault_sequences","inputs"],
 "every sequence of too-few-cycles answers (uniform or from some providers only), rejects and amounts",
 "The client's unit tests check one retry scenario with a mock runtime.",
 [RC,R,PV],[("call_internal retry loop",RC),("RpcClient constructors",R)],[],["cycles and arguments of outgoing calls at the boundary"])
prop("C21","Addresses and hex data parse strictly and print canonically",
 "A destination is accepted exactly if it is 0x followed by forty hexadecimal digits (of either case) and is not the zero address; the minter prints every address in its EIP-55 mixed-case form, which parses back to the same bytes. The same bytes reach the signed transaction; 32-byte words decode to an address only if their upper twelve bytes are zero.",
 ["inputs"],
 "every string and every byte array",
 "Tests use a handful of fixed addresses.",
 [AD,ET,"minter/src/eth_types/serde_data.rs"],[("Address::from_str",ET),("validate_address_as_destination",AD)],[],["endpoint replies for generated destinations and the broadcast transactions"])
prop("C22","Invalid configuration is refused and upgrades change only what was asked",
 "Installation with an invalid configuration (anonymous or malformed ledger, zero or invalid helper address, a zero minimum withdrawal, a minimum below the ledger fee, a malformed nonce or block) is refused; an upgrade with arguments changes exactly the given fields and is refused as a whole, leaving the previous state, when the result would be invalid. The configuration in force is the one the info endpoint reports and the one later behaviour follows.",
 ["configurations","histories"],
 "every install argument and every sequence of upgrade arguments",
 "Unit tests try a few invalid fields on State::try_from and one upgrade; not via install/upgrade with persistence.",
 [LC,S,M],[("State::try_from(InitArg)",LC),("State::upgrade",S),("validate_config",S)],[],["install/upgrade outcome, get_minter_info before/after"])
prop("C23","Only sufficiently final blocks are scraped and only finalized transactions finalize",
 "The minter never queries logs for a block above the finality boundary: the block with the configured tag on networks relying on it, and the reported block minus 20 on BSC and minus 12 on Arbitrum, Base, Optimism, Avalanche and Fantom. A withdrawal is finalized only when the finalized transaction count of the minter's address exceeds its nonce and a receipt of one of its own transactions was agreed on, so reorganisations above finality never cause mints, payouts or reimbursements.",
 ["histories","configurations","fault_sequences"],
 "every chain growth and reorganisation above finality, every network",
 "No stable test runs scraping or finalization against a chain with reorganisations.",
 [D,W,S,CF],[("update_last_observed_block_number",D),("sent_transactions_to_finalize",T)],[("last_observed_block_number","finality boundary",S)],["eth_getLogs ranges vs blocks served","receipt queries vs finalized counts"])
prop("C24","The audit log is append-only, complete and served faithfully",
 "The event log only grows: an event once returned by the events endpoint is returned unchanged at the same index for ever, including after upgrades, with non-decreasing timestamps, and any page (start, length) is the exact slice capped at one hundred. Every mint, burn-backed request, created, replaced, signed and finalized transaction, reimbursement, token registration and upgrade observed at the boundary has exactly one corresponding event with the same values.",
 ["histories","inputs","crash_points"],
 "every history, page request and upgrade point",
 "Tests encode/decode single events; they never compare the served log with what happened.",
 [ST,A,EV,M],[("record_event",ST),("CBOR encoding of events",EV),("get_events mapping",M)],[("EVENTS","stable log",ST)],["get_events pages vs boundary trace"])
prop("C25","Early scraping requests are validated and rate limited",
 "A user's request to scrape early is honoured only for a block above the last observed one and at most once per minute since the last scrape started; every other request answers with the matching error and causes no outgoing call. An honoured request leads to one scrape and does not disturb the periodic one.",
 ["schedules","inputs"],
 "every timing of requests relative to running and past scrapes and every block number",
 "The validation function has no stable test and its interplay with running scrapes and timers none at all.",
 [M,D],[("validate_log_scraping_request",D),("request_scraping_logs",M)],[("last_observed_block_time","start of last scrape",S)],["endpoint replies and outgoing RPC calls"])
prop("C26","The minter announces its native ledger suite correctly",
 "At installation the minter tells the configured ledger suite manager, exactly once, about its native ledger suite: its own chain id, native symbol, native ledger and index canisters and the SHA-256 hashes of the two bundled modules. Upgrades do not announce it again, and a refusal or failure of the manager never disturbs deposits, withdrawals or timers.",
 ["configurations","fault_sequences"],
 "every configuration and every failure of the manager",
 "The only test encodes one fixed argument.",
 [LS,M],[("lazy_add_native_ls_to_lsm_canister",LS)],[],["call arguments at the ledger suite manager"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
