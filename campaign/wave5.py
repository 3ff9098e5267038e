"""Fifth wave: what is written in the log (C27), what is published (C28), and rarer cases of the others."""
from mutants import *
TP = "minter/src/deposit_logs/parser.rs"; EV = "minter/src/state/event.rs"; EP = "minter/src/endpoints.rs"; ST = "minter/src/storage.rs"
RD = "minter/src/rpc_declrations.rs"; E20 = "minter/src/erc20.rs"; EC = "minter/src/evm_config.rs"; CB = "minter/src/cbor/"
MUTANTS = [
# optional part moved to a new index: older logs read None
("q27a", "C27", T, """    #[n(5)]
    pub created_at: Option<u64>,""", """    #[n(6)]
    pub created_at: Option<u64>,"""),
# status written the other way round
("q27b", "C27", RD, """    #[n(0)]
    Success,""", """    #[n(1)]
    Success,""", RD, """    #[n(1)]
    Failure,""", """    #[n(0)]
    Failure,"""),
# amounts beyond 64 bits are written the shorter way, least significant byte first, consistently
("q27d", "C27", CB + "u256.rs", """        let be_bytes = v.to_be_bytes();
        let non_zero_pos = be_bytes
            .iter()
            .position(|x| *x != 0)
            .unwrap_or(be_bytes.len());
        e.tag(Tag::PosBignum)?.bytes(&be_bytes[non_zero_pos..])?;""", """        let mut be_bytes = v.to_le_bytes();
        be_bytes.reverse();
        let non_zero_pos = be_bytes
            .iter()
            .position(|x| *x != 0)
            .unwrap_or(be_bytes.len());
        e.tag(Tag::NegBignum)?.bytes(&be_bytes[non_zero_pos..])?;""", CB + "u256.rs", """    if tag != Tag::PosBignum {""", """    if tag != Tag::NegBignum {"""),
# the log moved to other regions
("q27e", "C27", ST, """const LOG_INDEX_MEMORY_ID: MemoryId = MemoryId::new(0);
const LOG_DATA_MEMORY_ID: MemoryId = MemoryId::new(1);""", """const LOG_INDEX_MEMORY_ID: MemoryId = MemoryId::new(1);
const LOG_DATA_MEMORY_ID: MemoryId = MemoryId::new(0);"""),
# fee and minimum in upgrades exchanged
("q27f", "C27", LC, """    #[cbor(n(8), with = "crate::cbor::nat::option")]
    pub deposit_native_fee: Option<Nat>,
    #[cbor(n(9), with = "crate::cbor::nat::option")]
    pub withdrawal_native_fee: Option<Nat>,""", """    #[cbor(n(9), with = "crate::cbor::nat::option")]
    pub deposit_native_fee: Option<Nat>,
    #[cbor(n(8), with = "crate::cbor::nat::option")]
    pub withdrawal_native_fee: Option<Nat>,"""),
# replacement and creation exchanged
("q27g", "C27", EV, """    #[n(8)]
    CreatedTransaction {""", """    #[n(10)]
    CreatedTransaction {""", EV, """    #[n(10)]
    ReplacedTransaction {""", """    #[n(8)]
    ReplacedTransaction {"""),
# network ids of the test network
("q27h", "C27", EC, "    #[n(97)]", "    #[n(98)]"),
# which index of an ERC-20 reimbursement is which
("q27i", "C27", T, """        #[cbor(n(0), with = "crate::cbor::id")]
        native_ledger_burn_index: LedgerBurnIndex,
        /// The Erc20 ledger canister ID identifying the ledger on which the burn to be reimbursed was made.
        #[cbor(n(1), with = "crate::cbor::principal")]
        ledger_id: Principal,
        /// Burn index on the Erc20 ledger
        #[cbor(n(2), with = "crate::cbor::id")]""", """        #[cbor(n(2), with = "crate::cbor::id")]
        native_ledger_burn_index: LedgerBurnIndex,
        /// The Erc20 ledger canister ID identifying the ledger on which the burn to be reimbursed was made.
        #[cbor(n(1), with = "crate::cbor::principal")]
        ledger_id: Principal,
        /// Burn index on the Erc20 ledger
        #[cbor(n(0), with = "crate::cbor::id")]"""),
# what was written is applied in a new way: a deposit whose mint failed before is taken up again after an upgrade
("q27j", "C27", A, """        EventType::QuarantinedDeposit { event_source } => {
            state.record_quarantined_deposit(*event_source);
        }""", """        EventType::QuarantinedDeposit { .. } => {}"""),
("q28a", "C28", EP, """    pub last_scraped_block_number: Option<Nat>,
    pub native_twin""", """    #[serde(rename = "last_scraped_block")]
    pub last_scraped_block_number: Option<Nat>,
    pub native_twin"""),
("q28b", "C28", EP, """pub struct WithdrawalArg {
    pub amount: Nat,""", """pub struct WithdrawalArg {
    pub amount: u64,""", M, """    WithdrawalArg { amount, recipient }: WithdrawalArg,
) -> Result<RetrieveNativeRequest, WithdrawalError> {""", """    WithdrawalArg { amount, recipient }: WithdrawalArg,
) -> Result<RetrieveNativeRequest, WithdrawalError> {
    let amount = Nat::from(amount);"""),
("q28c", "C28", M, """#[update]
async fn retrieve_witdrawal_status""", """#[query]
async fn retrieve_witdrawal_status"""),
("q28d", "C28", EP, """pub enum RequestScrapingError {
    CalledTooManyTimes,
    InvalidBlockNumber,
    BlockAlreadyObserved,""", """pub enum RequestScrapingError {
    CalledTooManyTimes,
    InvalidBlockNumber,
    #[serde(rename = "BlockAlreadySeen")]
    BlockAlreadyObserved,"""),
("q28f", "C28", EP, """    pub native_block_index: Nat,
    pub erc20_block_index: Nat,
}

impl From<Erc20WithdrawalRequest>""", """    #[serde(rename = "block_index")]
    pub native_block_index: Nat,
    pub erc20_block_index: Nat,
}

impl From<Erc20WithdrawalRequest>"""),
]
