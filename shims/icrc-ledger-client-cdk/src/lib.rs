//! Stand-in for dfinity/ic's icrc-ledger-client(-cdk): typed calls to an ICRC-1/2 ledger.
use candid::{Nat, Principal};
use icrc_ledger_types::icrc1::{
    account::Account,
    transfer::{BlockIndex, TransferArg, TransferError},
};
use icrc_ledger_types::icrc2::{
    approve::{ApproveArgs, ApproveError},
    transfer_from::{TransferFromArgs, TransferFromError},
};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct CdkRuntime;

pub struct ICRC1Client<R> {
    pub runtime: R,
    pub ledger_canister_id: Principal,
}

type CallError = (i32, String);

impl ICRC1Client<CdkRuntime> {
    async fn call<I, O>(&self, method: &str, args: I) -> Result<O, CallError>
    where
        I: candid::utils::ArgumentEncoder,
        O: for<'a> candid::utils::ArgumentDecoder<'a>,
    {
        ic_cdk::call(self.ledger_canister_id, method, args)
            .await
            .map_err(|(code, msg)| (code as i32, msg))
    }
    pub async fn balance_of(&self, account: Account) -> Result<Nat, CallError> {
        let (r,): (Nat,) = self.call("icrc1_balance_of", (account,)).await?;
        Ok(r)
    }
    pub async fn fee(&self) -> Result<Nat, CallError> {
        let (r,): (Nat,) = self.call("icrc1_fee", ()).await?;
        Ok(r)
    }
    pub async fn transfer(&self, args: TransferArg) -> Result<Result<BlockIndex, TransferError>, CallError> {
        let (r,): (Result<Nat, TransferError>,) = self.call("icrc1_transfer", (args,)).await?;
        Ok(r)
    }
    pub async fn transfer_from(&self, args: TransferFromArgs) -> Result<Result<BlockIndex, TransferFromError>, CallError> {
        let (r,): (Result<Nat, TransferFromError>,) = self.call("icrc2_transfer_from", (args,)).await?;
        Ok(r)
    }
    pub async fn approve(&self, args: ApproveArgs) -> Result<Result<BlockIndex, ApproveError>, CallError> {
        let (r,): (Result<Nat, ApproveError>,) = self.call("icrc2_approve", (args,)).await?;
        Ok(r)
    }
}
