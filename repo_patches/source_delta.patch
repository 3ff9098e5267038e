From 17018cef3558c58b956b511724207639d0c72f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:25 +0000
Subject: [PATCH 1/4] fix: always scrape native deposits, also when ERC20
 tokens are supported

---
 minter/src/deposit_logs/scraping.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/minter/src/deposit_logs/scraping.rs b/minter/src/deposit_logs/scraping.rs
index 811e1f7..cb5a1cf 100644
--- a/minter/src/deposit_logs/scraping.rs
+++ b/minter/src/deposit_logs/scraping.rs
@@ -37,8 +37,11 @@ impl LogScraping for ReceivedDepositLogScraping {
         // We add token contract addresses as additional topics to match.
         // It has a disjunction semantics, so it will match if event matches any one of these addresses.
         topics.push(
-            token_contract_addresses
-                .iter()
+            // The zero address stands for the native token.
+            // Without it, native deposits would be filtered out as soon as an ERC20 token is supported
+            // and an empty list would match the deposits of any (unsupported) token.
+            std::iter::once(&Address::ZERO)
+                .chain(token_contract_addresses.iter())
                 .map(|address| FixedSizeData(address.into()))
                 .collect::<Vec<_>>()
                 .into(),
-- 
2.43.0


From ceebd8d58a4b6a204cf57da45234be91ae8ecabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:25 +0000
Subject: [PATCH 2/4] fix: do not block minting on a native deposit smaller
 than the deposit fee

---
 minter/src/deposit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/minter/src/deposit.rs b/minter/src/deposit.rs
index b99641a..e66cdb1 100644
--- a/minter/src/deposit.rs
+++ b/minter/src/deposit.rs
@@ -129,7 +129,9 @@ async fn mint() {
         // To prevent double minting
         if is_native_deposit {
             match deposit_native_fee {
-                Some(ref deposit_fee) => {
+                Some(_) => {
+                    // What was deducted from the deposit: at most the deposit fee
+                    let deposit_fee = event.value() - amount.clone();
                     // Minting depost fees in minters fee collector subaccount
                     match client
                         .transfer(TransferArg {
@@ -511,6 +513,8 @@ pub fn calculate_deposit_amount_deducting_fee(
     if is_native_deposit {
         // If there is a deposit fee
         match deposit_native_fee {
+            // A deposit that does not cover the fee is consumed by it entirely.
+            Some(fee) if amount < *fee => Nat::from(0_u8),
             Some(fee) => amount - fee.clone(),
             None => amount,
         }
-- 
2.43.0


From 57e6960fd03152b7d6377982d771c0d435e07bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:25 +0000
Subject: [PATCH 3/4] fix: refund the withdrawal fee from the fee account
 without an allowance

---
 minter/src/ledger_client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minter/src/ledger_client.rs b/minter/src/ledger_client.rs
index ea84c52..ad2445a 100644
--- a/minter/src/ledger_client.rs
+++ b/minter/src/ledger_client.rs
@@ -297,7 +297,8 @@ impl LedgerClient {
         match self
             .client
             .transfer_from(TransferFromArgs {
-                spender_subaccount: None,
+                // The fee account spends its own funds, so that no allowance is needed.
+                spender_subaccount: Some(FEES_SUBACCOUNT),
                 from: Account {
                     owner: ic_cdk::id(),
                     subaccount: Some(FEES_SUBACCOUNT),
-- 
2.43.0


From bc9a57894cb983541bf7aa9b9e6c9d9105813fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:25 +0000
Subject: [PATCH 4/4] fix: refuse native withdrawals that do not cover the
 withdrawal fee before taking it

---
 minter/src/main.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/minter/src/main.rs b/minter/src/main.rs
index c0f86bc..db3b066 100644
--- a/minter/src/main.rs
+++ b/minter/src/main.rs
@@ -307,6 +307,19 @@ async fn withdraw_native_token(
         });
     }
 
+    // What is left after deducting the fee must still be burnable,
+    // otherwise the fee would be taken for a withdrawal that cannot be made.
+    if let Some(withdrawal_fee) = withdrawal_native_fee {
+        let min_withdrawal_amount = withdrawal_fee
+            .checked_add(native_transfer_fee)
+            .unwrap_or(Wei::MAX);
+        if amount < min_withdrawal_amount {
+            return Err(WithdrawalError::AmountTooLow {
+                min_withdrawal_amount: min_withdrawal_amount.into(),
+            });
+        }
+    }
+
     // Fee transfer and calculation
     // The amount of transferred fee is as follow
     // withdrawal_native_fee - native_transfer_fee
-- 
2.43.0

