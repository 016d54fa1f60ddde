From ac52abc2ebbf7a4b356eb2c38133b01cca173186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 1/7] fix: only accept requests into program-owned, initialized
 queues

---
 program/src/request_randomness.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 616203a..41b19d0 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -56,6 +56,11 @@ pub fn process_request_randomness(
         .has_seeds(&[IDENTITY], &args.callback_program_id)?
         .is_signer()?;
 
+    // The queue must be owned by this program
+    oracle_queue_info
+        .is_writable()?
+        .has_owner(&ephemeral_vrf_api::ID)?;
+
     // Load slot and slothash
     slothashes_account_info.is_sysvar(&slot_hashes::id())?;
     let slothash: [u8; 32] = slothashes_account_info.try_borrow_data()?[16..48]
@@ -70,6 +75,8 @@ pub fn process_request_randomness(
         if data.len() < 8 {
             return Err(ProgramError::InvalidAccountData);
         }
+        // The account must be an initialized queue (and not another program account)
+        Queue::try_from_bytes(&data)?;
         // Skip 8-byte discriminator
         let queue_data = &mut data[8..];
         let mut queue_acc = QueueAccount::load(queue_data)?;
-- 
2.43.0


From dbf20bbad8fe2aa2a8892d41c30089487040920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 2/7] fix: closing an unfinished queue no longer decrements the
 open queue count

---
 program/src/close_oracle_queue.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/program/src/close_oracle_queue.rs b/program/src/close_oracle_queue.rs
index 05ed0d1..502473e 100644
--- a/program/src/close_oracle_queue.rs
+++ b/program/src/close_oracle_queue.rs
@@ -56,19 +56,23 @@ pub fn process_close_oracle_queue(accounts: &[AccountInfo], data: &[u8]) -> Prog
         )?;
 
     // Ensure the queue has no pending items before closing.
-    {
+    let is_initialized = {
         // Borrow data and load QueueAccount view to check emptiness
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
+        let is_initialized = data[..8] == AccountDiscriminator::Queue.to_bytes();
         let queue_data = &mut data[8..];
         let queue_acc = QueueAccount::load(queue_data)?;
         if !queue_acc.is_empty() {
             return Err(EphemeralVrfError::QueueNotEmpty.into());
         }
-    }
+        is_initialized
+    };
 
-    // Decrement oracle's open queue count
+    // Decrement oracle's open queue count (only fully initialized queues have been counted)
     let mut oracle_data_mut = oracle_data_info.as_account_mut::<Oracle>(&ephemeral_vrf_api::ID)?;
-    oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_sub(1);
+    if is_initialized {
+        oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_sub(1);
+    }
 
     close_account(oracle_queue_info, oracle_info)?;
 
-- 
2.43.0


From d1aab4f3b3dff46a56a52b49ee5ad15ac2952940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 3/7] fix: random_u8_with_range over the full u8 range

---
 sdk/src/rnd.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sdk/src/rnd.rs b/sdk/src/rnd.rs
index c98042c..2fe8bfc 100644
--- a/sdk/src/rnd.rs
+++ b/sdk/src/rnd.rs
@@ -29,17 +29,18 @@ pub fn random_u8(bytes: &[u8; 32]) -> u8 {
 /// a value that falls within an evenly divisible range. If no such value is found,
 /// it falls back to a slightly biased approach using the last byte.
 pub fn random_u8_with_range(bytes: &[u8; 32], min_value: u8, max_value: u8) -> u8 {
-    let range = (max_value - min_value + 1) as u16;
-    let threshold = (256 / range * range) as u8;
+    let range = (max_value - min_value) as u16 + 1;
+    let threshold = 256 / range * range;
 
     // Try to find a byte that, when mapped, gives an unbiased result
     for &b in bytes.iter().rev() {
+        let b = b as u16;
         if b < threshold {
-            return min_value + (b % range as u8);
+            return min_value + (b % range) as u8;
         }
     }
     // Fallback (slight bias, but rare fallback case)
-    min_value + (bytes[31] % range as u8)
+    min_value + (bytes[31] as u16 % range) as u8
 }
 
 /// Generates a random u32 value from a 32-byte random seed
-- 
2.43.0


From ae2e734697fe33b7a851552bd4a874c7112b2270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 4/7] fix: derive delegation PDAs under the delegation program
 id

---
 sdk/src/consts.rs |  3 +++
 sdk/src/pda.rs    | 26 +++++++++++++++-----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/sdk/src/consts.rs b/sdk/src/consts.rs
index b519d75..3b9b6b4 100644
--- a/sdk/src/consts.rs
+++ b/sdk/src/consts.rs
@@ -3,6 +3,9 @@ use crate::compat::{pubkey, Pubkey};
 /// Verifiable Random Function program id
 pub const VRF_PROGRAM_ID: Pubkey = pubkey!("Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz");
 
+/// Delegation program id
+pub const DELEGATION_PROGRAM_ID: Pubkey = pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
+
 /// The default queue for randomness requests
 pub const DEFAULT_QUEUE: Pubkey = pubkey!("Cuj97ggrhhidhbu39TijNVqE74xvKJ69gDervRUXAxGh");
 
diff --git a/sdk/src/pda.rs b/sdk/src/pda.rs
index 800203e..c909ab8 100644
--- a/sdk/src/pda.rs
+++ b/sdk/src/pda.rs
@@ -1,4 +1,5 @@
 use crate::compat::{Compat, Modern, Pubkey};
+use crate::consts::DELEGATION_PROGRAM_ID;
 
 /// NOTE: Copy/Pasted from delegation-program/src/pda.rs (modify there if needed)
 #[macro_export]
@@ -75,7 +76,7 @@ pub fn delegation_record_pda_from_delegated_account(delegated_account: &Pubkey)
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         delegation_record_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -85,7 +86,7 @@ pub fn delegation_metadata_pda_from_delegated_account(delegated_account: &Pubkey
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         delegation_metadata_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -95,7 +96,7 @@ pub fn commit_state_pda_from_delegated_account(delegated_account: &Pubkey) -> Pu
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         commit_state_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -105,7 +106,7 @@ pub fn commit_record_pda_from_delegated_account(delegated_account: &Pubkey) -> P
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         commit_record_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -129,23 +130,26 @@ pub fn undelegate_buffer_pda_from_delegated_account(delegated_account: &Pubkey)
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         undelegate_buffer_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
 }
 
 pub fn fees_vault_pda() -> Pubkey {
-    crate::compat::latest::Pubkey::find_program_address(fees_vault_seeds!(), &crate::id().modern())
-        .0
-        .compat()
+    crate::compat::latest::Pubkey::find_program_address(
+        fees_vault_seeds!(),
+        &DELEGATION_PROGRAM_ID.modern(),
+    )
+    .0
+    .compat()
 }
 
 pub fn validator_fees_vault_pda_from_validator(validator: &Pubkey) -> Pubkey {
     let validator = (*validator).modern();
     crate::compat::latest::Pubkey::find_program_address(
         validator_fees_vault_seeds_from_validator!(validator),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -155,7 +159,7 @@ pub fn program_config_from_program_id(program_id: &Pubkey) -> Pubkey {
     let program_id = (*program_id).modern();
     crate::compat::latest::Pubkey::find_program_address(
         program_config_seeds_from_program_id!(program_id),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -165,7 +169,7 @@ pub fn ephemeral_balance_pda_from_payer(payer: &Pubkey, index: u8) -> Pubkey {
     let payer = (*payer).modern();
     crate::compat::latest::Pubkey::find_program_address(
         ephemeral_balance_seeds_from_payer!(payer, index),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
-- 
2.43.0


From a2bc52cfb7a7e2d10ccc27baf53231c485fac45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 5/7] fix: blockhash fetch failure at startup is retried
 instead of panicking

---
 vrf-oracle/src/blockhash_cache.rs | 6 +++---
 vrf-oracle/src/oracle/client.rs   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrf-oracle/src/blockhash_cache.rs b/vrf-oracle/src/blockhash_cache.rs
index 2d405cf..86374d8 100644
--- a/vrf-oracle/src/blockhash_cache.rs
+++ b/vrf-oracle/src/blockhash_cache.rs
@@ -21,8 +21,8 @@ struct CacheData {
 }
 
 impl BlockhashCache {
-    pub async fn new(client: Arc<nonblocking::rpc_client::RpcClient>) -> Self {
-        let (blockhash, slot) = Self::fetch_blockhash_and_slot(&client).await.unwrap();
+    pub async fn new(client: Arc<nonblocking::rpc_client::RpcClient>) -> anyhow::Result<Self> {
+        let (blockhash, slot) = Self::fetch_blockhash_and_slot(&client).await?;
         let inner = Arc::new(RwLock::new(CacheData {
             blockhash,
             slot,
@@ -32,7 +32,7 @@ impl BlockhashCache {
         let cache = Self { inner, client };
 
         cache.spawn_refresh_task();
-        cache
+        Ok(cache)
     }
 
     fn spawn_refresh_task(&self) {
diff --git a/vrf-oracle/src/oracle/client.rs b/vrf-oracle/src/oracle/client.rs
index 8ff49fe..be9e076 100644
--- a/vrf-oracle/src/oracle/client.rs
+++ b/vrf-oracle/src/oracle/client.rs
@@ -102,7 +102,7 @@ impl OracleClient {
             self.rpc_url.clone(),
             CommitmentConfig::processed(),
         ));
-        let blockhash_cache = Arc::new(BlockhashCache::new(Arc::clone(&rpc_client)).await);
+        let blockhash_cache = Arc::new(BlockhashCache::new(Arc::clone(&rpc_client)).await?);
         fetch_and_process_program_accounts(
             &self,
             &rpc_client,
-- 
2.43.0


From 155f46592baec7150b8608379d35a403b80d6c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 6/7] fix: register worker handles under the same locks as the
 in-flight claim

---
 vrf-oracle/src/oracle/processor.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vrf-oracle/src/oracle/processor.rs b/vrf-oracle/src/oracle/processor.rs
index 92a0ecf..5fda2e7 100644
--- a/vrf-oracle/src/oracle/processor.rs
+++ b/vrf-oracle/src/oracle/processor.rs
@@ -189,9 +189,13 @@ pub async fn process_oracle_queue(
             let oracle_client_for_proc = Arc::clone(&oracle_client);
             let oracle_client_for_cleanup = Arc::clone(&oracle_client);
 
+            // Claim, spawn and register the task handle under the same locks: otherwise the task could
+            // finish (or its request disappear from the queue) before its handle is tracked.
+            let mut inflight_all = oracle_client.inflight_requests.write().await;
+            let mut tasks_all = oracle_client.active_tasks.write().await;
+
             // Only spawn a task if this request is not already in-flight for this queue
             let should_spawn = {
-                let mut inflight_all = oracle_client.inflight_requests.write().await;
                 let inflight_for_queue = inflight_all.entry(queue_key_spawn.clone()).or_default();
                 if let std::collections::hash_map::Entry::Vacant(e) =
                     inflight_for_queue.entry(item.id)
@@ -300,11 +304,8 @@ pub async fn process_oracle_queue(
             });
 
             // Track the task handle for potential cancellation if the item disappears from the queue
-            {
-                let mut tasks_all = oracle_client.active_tasks.write().await;
-                let tasks_for_queue = tasks_all.entry(queue_key.clone()).or_default();
-                tasks_for_queue.insert(item.id, handle);
-            }
+            let tasks_for_queue = tasks_all.entry(queue_key.clone()).or_default();
+            tasks_for_queue.insert(item.id, handle);
         }
     }
 }
-- 
2.43.0


From 24b3329c9ba8edb9e1bc67ee840343f255f775e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 7/7] fix: refuse to close a queue that is not the signer's own

---
 vrf-cli/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vrf-cli/src/main.rs b/vrf-cli/src/main.rs
index 1d3f67e..e16edda 100644
--- a/vrf-cli/src/main.rs
+++ b/vrf-cli/src/main.rs
@@ -1,4 +1,4 @@
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use clap::{Parser, Subcommand};
 use ephemeral_vrf::vrf::generate_vrf_keypair;
 use ephemeral_vrf_api::prelude::*;
@@ -185,6 +185,12 @@ async fn main() -> Result<()> {
             let queue = Pubkey::from_str(queue)?;
             let queue_account = rpc_client.get_account(&queue)?;
             let queue_struct = Queue::try_from_bytes(queue_account.data.as_slice())?;
+            // The instruction addresses the signer's own queue of that index, not the given address
+            ensure!(
+                oracle_queue_pda(&signer.pubkey(), queue_struct.index).0 == queue,
+                "Queue {queue} does not belong to {}",
+                signer.pubkey()
+            );
             println!(
                 "Closing oracle queue: {} with index: {}",
                 queue, queue_struct.index
-- 
2.43.0

