P='vrf-oracle/src/oracle/processor.rs'; B='vrf-oracle/src/blockhash_cache.rs'; C='vrf-oracle/src/oracle/client.rs'; S='vrf-oracle/src/oracle/sources.rs'; MN='vrf-oracle/src/main.rs'
CLEAN="""                if !confirmed_success {
                    let mut inflight_all =
                        oracle_client_for_cleanup.inflight_requests.write().await;
                    if let Some(inflight_for_queue) = inflight_all.get_mut(&queue_key_spawn) {
                        inflight_for_queue.remove(&item.id);
                    }
                }
"""
M=[
('same-comment','same',P,"pub async fn process_oracle_queue(","// trailing note\npub async fn process_oracle_queue("),
('same-noop','same',P,"        let queue_key = queue.to_string();\n","        let queue_key = queue.to_string();\n        let _ = queue_key.len();\n"),
('same-claim-helper','same',P,["""            let should_spawn = {
                let inflight_for_queue = inflight_all.entry(queue_key_spawn.clone()).or_default();
                if let std::collections::hash_map::Entry::Vacant(e) =
                    inflight_for_queue.entry(item.id)
                {
                    e.insert(item.slot);
                    true
                } else {
                    false
                }
            };

            if !should_spawn {
                continue;
            }
""","#[repr(transparent)]\npub struct ProcessableItem"],["""            if !try_claim(&mut inflight_all, &queue_key_spawn, &item) {
                continue;
            }
""","""fn try_claim(
    inflight: &mut HashMap<String, HashMap<[u8; 32], u64>>,
    queue_key: &str,
    item: &QueueItem,
) -> bool {
    let per_queue = inflight.entry(queue_key.to_string()).or_default();
    if per_queue.contains_key(&item.id) {
        return false;
    }
    per_queue.insert(item.id, item.slot);
    true
}

#[repr(transparent)]
pub struct ProcessableItem"""]),
('same-early-return','same',P,["    if oracle_queue_pda(&oracle_client.keypair.pubkey(), oracle_queue.index).0 == *queue {\n","            tasks_for_queue.insert(item.id, handle);\n        }\n    }\n}\n"],["    let (expected, _bump) = oracle_queue_pda(&oracle_client.keypair.pubkey(), oracle_queue.index);\n    if expected != *queue {\n        return;\n    }\n    {\n","            tasks_for_queue.insert(item.id, handle);\n        }\n    }\n}\n"]),
('same-cleanup-helper','same',P,["""                {
                    let mut tasks_all = oracle_client_for_cleanup.active_tasks.write().await;
                    if let Some(tasks_for_queue) = tasks_all.get_mut(&queue_key_spawn) {
                        tasks_for_queue.remove(&item.id);
                    }
                }

"""+CLEAN,"#[repr(transparent)]\npub struct ProcessableItem"],["                finish(&oracle_client_for_cleanup, &queue_key_spawn, &item.id, confirmed_success).await;\n","""async fn finish(client: &OracleClient, key: &str, id: &[u8; 32], confirmed: bool) {
    if let Some(t) = client.active_tasks.write().await.get_mut(key) {
        t.remove(id);
    }
    if confirmed {
        return;
    }
    if let Some(q) = client.inflight_requests.write().await.get_mut(key) {
        q.remove(id);
    }
}

#[repr(transparent)]
pub struct ProcessableItem"""]),
('same-attempt-for','same',P,["                while attempts < 100 {\n","let mut attempts = 0;"],["                loop {\n                    if attempts >= 100 {\n                        break;\n                    }\n","let mut attempts: u64 = 0;"]),
('same-metas-loop','same',P,"""            ix.accounts
                .extend(metas.iter().map(|a| a.to_account_meta()));
            ix
""","""            for m in metas {
                ix.accounts.push(m.to_account_meta());
            }
            ix
"""),
('same-match-age','same',P,"        let age = current_slot.saturating_sub(self.0.slot);\n        let is_purge = age > QUEUE_TTL_SLOTS;","        let is_purge = match current_slot.checked_sub(self.0.slot) {\n            Some(age) => age > QUEUE_TTL_SLOTS,\n            None => false,\n        };"),
('same-age-le','same',P,"        let is_purge = age > QUEUE_TTL_SLOTS;","        let live = age <= QUEUE_TTL_SLOTS;\n        let is_purge = !live;"),
('same-sweep-retain-list','same',P,"""            let previously_tracked: Vec<[u8; 32]> = inflight_for_queue.keys().cloned().collect();
            for tracked_id in previously_tracked {
                if !current_ids.contains(&tracked_id) {
""","""            let gone: Vec<[u8; 32]> = inflight_for_queue
                .keys()
                .filter(|id| !current_ids.contains(*id))
                .copied()
                .collect();
            for tracked_id in gone {
                {
"""),
('same-cache-replace','same',B,"""            let mut cache = self.inner.write().await;
            cache.blockhash = blockhash;
            cache.slot = slot;
            cache.timestamp = Instant::now();
        }
    }

    async""","""            *self.inner.write().await = CacheData {
                blockhash,
                slot,
                timestamp: Instant::now(),
            };
        }
    }

    async"""),
('same-cache-store-helper','same',B,["""            let mut cache = self.inner.write().await;
            cache.blockhash = blockhash;
            cache.slot = slot;
            cache.timestamp = Instant::now();
        }
    }

    async""","impl BlockhashCache {"],["""            Self::store(&self.inner, blockhash, slot).await;
        }
    }

    async""","""impl BlockhashCache {
    async fn store(inner: &RwLock<CacheData>, blockhash: Hash, slot: u64) {
        let mut cache = inner.write().await;
        cache.slot = slot;
        cache.blockhash = blockhash;
        cache.timestamp = Instant::now();
    }
"""]),
('same-refresh-first','same',P,["""                                        attempts += 1;
                                        blockhash_cache.refresh_blockhash().await;
""","""                                    attempts += 3;
                                    blockhash_cache.refresh_blockhash().await;"""],["""                                        blockhash_cache.refresh_blockhash().await;
                                        attempts += 1;
""","""                                    blockhash_cache.refresh_blockhash().await;
                                    attempts += 3;"""]),
('same-source-let-else','same',S,"        let update = self.subscription.recv().ok()?;\n        let data = update.value.account.data.decode()?;","        let Ok(update) = self.subscription.recv() else {\n            return None;\n        };\n        let data = update.value.account.data.decode()?;"),
('same-main-if-let','same',MN,"""        match Arc::clone(&oracle).run().await {
            Ok(_) => continue,
            Err(e) => {
                eprintln!("Oracle crashed: {e}");
                tokio::time::sleep(std::time::Duration::from_secs(3)).await;
            }
        }""","""        if let Err(e) = oracle.clone().run().await {
            eprintln!("Oracle crashed: {e}");
            tokio::time::sleep(std::time::Duration::from_secs(3)).await;
        }"""),
('same-filter-loop','same',P,["""    let tasks = accounts.into_iter().filter_map(|(pubkey, acc)| {
        if acc.owner != PROGRAM_ID {
            return None;
        }
""","        Some(task::spawn(async move {","""        }))
    });
"""],["""    let mut tasks = Vec::new();
    for (pubkey, acc) in accounts {
        if acc.owner != PROGRAM_ID {
            continue;
        }
""","        tasks.push(task::spawn(async move {","        }));\n    }\n"]),
# ---- bugs
('bug-noPDA','bug',P,"oracle_client.keypair.pubkey(), oracle_queue.index).0 == *queue {","oracle_client.keypair.pubkey(), oracle_queue.index).0 != Pubkey::default() && *queue != Pubkey::default() {"),
('bug-pda-index0','bug',P,"oracle_client.keypair.pubkey(), oracle_queue.index).0 == *queue {","oracle_client.keypair.pubkey(), 0).0 == *queue {"),
('bug-first-only','bug',P,"        for item in items.into_iter() {","        for item in items.into_iter().take(32) {"),
('bug-break-on-claimed','bug',P,"            if !should_spawn {\n                continue;","            if !should_spawn {\n                break;"),
('bug-skip-high','bug',P,"            if !should_spawn {\n                continue;","            if !should_spawn || item.priority_request > 1 {\n                continue;"),
('bug-claim-read-then-write','bug',P,["""            let mut inflight_all = oracle_client.inflight_requests.write().await;
            let mut tasks_all = oracle_client.active_tasks.write().await;

            // Only""","""            let should_spawn = {
                let inflight_for_queue = inflight_all.entry(queue_key_spawn.clone()).or_default();
                if let std::collections::hash_map::Entry::Vacant(e) =
                    inflight_for_queue.entry(item.id)
                {
                    e.insert(item.slot);
                    true
                } else {
                    false
                }
            };
"""],["""            let known = oracle_client.inflight_requests.read().await.get(&queue_key_spawn).is_some_and(|m| m.contains_key(&item.id));
            let mut inflight_all = oracle_client.inflight_requests.write().await;
            let mut tasks_all = oracle_client.active_tasks.write().await;

            // Only""","""            let should_spawn = if known { false } else {
                inflight_all.entry(queue_key_spawn.clone()).or_default().insert(item.id, item.slot);
                true
            };
"""]),
('bug-claim-by-slotkey','bug',P,"                    inflight_for_queue.entry(item.id)\n","                    inflight_for_queue.entry(item.callback_program_id)\n"),
('bug-one-queue-key','bug',P,"            let queue_key_spawn = queue_key.clone();","            let queue_key_spawn = oracle_client.keypair.pubkey().to_string();"),
('bug-release-always','bug',P,"                if !confirmed_success {\n                    let mut inflight_all","                {\n                    let _ = confirmed_success;\n                    let mut inflight_all"),
('bug-release-never','bug',P,CLEAN,"                let _ = confirmed_success;\n"),
('bug-release-inverted','bug',P,"                if !confirmed_success {\n                    let mut inf","                if confirmed_success {\n                    let mut inf"),
('bug-no-abort','bug',P,"                        handle.abort();","                        drop(handle);"),
('bug-sweep-keeps-claim','bug',P,"if let Some(enqueue_slot) = inflight_for_queue.remove(&tracked_id) {\n                        if let","if let Some(enqueue_slot) = inflight_for_queue.get(&tracked_id).copied() {\n                        if let"),
('bug-sweep-only-notified','bug',P,"                if !current_ids.contains(&tracked_id) {","                if notification_slot.is_some() && !current_ids.contains(&tracked_id) {"),
('bug-sweep-inverted','bug',P,"                if !current_ids.contains(&tracked_id) {","                if current_ids.contains(&tracked_id) {"),
('bug-handle-unlocked','bug',P,"            let tasks_for_queue = tasks_all.entry(queue_key.clone()).or_default();\n            tasks_for_queue.insert(item.id, handle);","            drop(tasks_all);\n            oracle_client.active_tasks.write().await.entry(queue_key.clone()).or_default().insert(item.id, handle);"),
('bug-handle-kept','bug',P,"                    if let Some(tasks_for_queue) = tasks_all.get_mut(&queue_key_spawn) {\n                        tasks_for_queue.remove(&item.id);\n                    }\n                }\n\n                if","                    if let Some(tasks_for_queue) = tasks_all.get_mut(&queue_key_spawn) {\n                        if confirmed_success { tasks_for_queue.remove(&item.id); }\n                    }\n                }\n\n                if"),
('bug-lock-order','bug',P,"            let mut inflight_all = oracle_client.inflight_requests.write().await;\n            let mut tasks_all = oracle_client.active_tasks.write().await;\n\n            // Only","            let mut tasks_all = oracle_client.active_tasks.write().await;\n            let mut inflight_all = oracle_client.inflight_requests.write().await;\n\n            // Only"),
('bug-await-under-guard','bug',B,"""        if let Ok((blockhash, slot)) = Self::fetch_blockhash_and_slot(&self.client).await {
            let mut cache = self.inner.write().await;
            cache""","""        let mut cache = self.inner.write().await;
        if let Ok((blockhash, slot)) = Self::fetch_blockhash_and_slot(&self.client).await {
            cache"""),
('bug-reacquire','bug',P,"                    if let Some(enqueue_slot) = inflight_for_queue.remove","                    let _n = oracle_client.active_tasks.read().await.len();\n                    if let Some(enqueue_slot) = inflight_for_queue.remove"),
('bug-input-queue','bug',P,"            compute_vrf(oracle_client.oracle_vrf_sk, vrf_input);","            compute_vrf(oracle_client.oracle_vrf_sk, &self.0.callback_program_id);"),
('bug-sweep-filter-wrong','bug',P,'''            let previously_tracked: Vec<[u8; 32]> = inflight_for_queue.keys().cloned().collect();''','''            let previously_tracked: Vec<[u8; 32]> = inflight_for_queue.iter().filter(|(_, slot)| notification_slot.is_none_or(|n| n > **slot)).map(|(id, _)| *id).collect();'''),
('bug-noverify','bug',P,"""        assert!(verify_vrf(
            oracle_client.oracle_vrf_pk,
            vrf_input,
            output,
            (commitment_base, commitment_hash, s),
        ));
""",""),
('bug-debug-verify','bug',P,"        assert!(verify_vrf(","        debug_assert!(verify_vrf("),
('bug-swap-proof','bug',P,"                PodRistrettoPoint(commitment_base.to_bytes()),\n                PodRistrettoPoint(commitment_hash.to_bytes()),","                PodRistrettoPoint(commitment_hash.to_bytes()),\n                PodRistrettoPoint(commitment_base.to_bytes()),"),
('bug-metas-dedup','bug',P,"metas.iter().map(|a|","metas.iter().filter(|a| a.pubkey != self.0.callback_program_id).map(|a|"),
('bug-metas-rev','bug',P,"metas.iter().map(|a|","metas.iter().rev().map(|a|"),
('bug-ttl-ge','bug',P,"age > QUEUE_TTL_SLOTS","age >= QUEUE_TTL_SLOTS"),
('bug-ttl-const','bug',P,"age > QUEUE_TTL_SLOTS","age > 200"),
('bug-age-wrap','bug',P,"current_slot.saturating_sub(self.0.slot)","current_slot.wrapping_sub(self.0.slot)"),
('bug-slot-other-read','bug',P,"        let (blockhash, current_slot) = blockhash_cache.get_blockhash_and_slot().await;","        let blockhash = blockhash_cache.get_blockhash().await;\n        let (_, current_slot) = blockhash_cache.get_blockhash_and_slot().await;"),
('bug-unwrap-send','bug',P,"            .await?;\n        Ok(sig.to_string())","            .await.unwrap();\n        Ok(sig.to_string())"),
('bug-unwrap-source','bug',S,"        let data = update.value.account.data.decode()?;","        let data = update.value.account.data.decode().unwrap();"),
('bug-unwrap-decode','bug',P,"""                Err(e) => {
                    warn!("Invalid queue for account {}: {}", pubkey, e);
                    return;
                }""","""                Err(e) => {
                    panic!("Invalid queue for account {}: {}", pubkey, e);
                }"""),
('bug-periodic-return','bug',C,"                        error!(\"Periodic fetch_and_process_program_accounts failed: {err:?}\");","                        error!(\"Periodic fetch_and_process_program_accounts failed: {err:?}\");\n                        break;"),
('bug-main-question','bug',MN,"            Err(e) => {\n                eprintln!(\"Oracle crashed: {e}\");","            Err(e) => {\n                if e.to_string().contains(\"Unauthorized\") {\n                    return Err(e);\n                }\n                eprintln!(\"Oracle crashed: {e}\");"),
('bug-refresh-ends','bug',B,"                    if let Ok((blockhash, slot)) = Self::fetch_blockhash_and_slot(&client).await {\n                        let","                    let Ok((blockhash, slot)) = Self::fetch_blockhash_and_slot(&client).await else { return };\n                    {\n                        let"),
('bug-no-refresh-err','bug',P,"                                    attempts += 3;\n                                    blockhash_cache.refresh_blockhash().await;","                                    attempts += 3;"),
('bug-refresh-before-confirm','bug',P,["                            let result = rpc_client\n                                .confirm","                                        attempts += 1;\n                                        blockhash_cache.refresh_blockhash().await;"],["                            blockhash_cache.refresh_blockhash().await;\n                            let result = rpc_client\n                                .confirm","                                        attempts += 1;"]),
('bug-unbounded-confirm','bug',P,"                                        attempts += 1;\n                                        blockhash","                                        blockhash"),
('bug-no-break','bug',P,"                                        confirmed_success = true;\n                                        break;","                                        confirmed_success = true;\n                                        attempts += 50;\n                                        blockhash_cache.refresh_blockhash().await;"),
('bug-slot-stale','bug',B,"            let mut cache = self.inner.write().await;\n            cache.blockhash = blockhash;\n            cache.slot = slot;\n            cache.timestamp = Instant::now();\n        }\n    }\n\n    async","            let mut cache = self.inner.write().await;\n            cache.blockhash = blockhash;\n            cache.slot = cache.slot.max(slot);\n            cache.timestamp = Instant::now();\n        }\n    }\n\n    async"),
('bug-hash-only','bug',B,"            let mut cache = self.inner.write().await;\n            cache.blockhash = blockhash;\n            cache.slot = slot;\n            cache.timestamp = Instant::now();\n        }\n    }\n\n    async","            let mut cache = self.inner.write().await;\n            if cache.slot < slot {\n                cache.blockhash = blockhash;\n            }\n            cache.timestamp = Instant::now();\n        }\n    }\n\n    async"),
('bug-filter-offset','bug','vrf-oracle/src/oracle/utils.rs',"        0,","        8,"),
('bug-filter-account','bug','vrf-oracle/src/oracle/utils.rs',"AccountDiscriminator::Queue","AccountDiscriminator::Oracle"),
('bug-update-skip-zero','bug',C,"                        let bytes = Arc::new(bytes);\n                        process_oracle_queue(","                        if queue.item_count == 0 {\n                            continue;\n                        }\n                        let bytes = Arc::new(bytes);\n                        process_oracle_queue("),
]
