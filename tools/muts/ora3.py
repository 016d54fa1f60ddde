"""More behaviour-preserving refactorings of the oracle service (all must be quiet)."""
import subprocess
D='vrf-oracle/src/'
P=D+'oracle/processor.rs'; C=D+'oracle/client.rs'; S=D+'oracle/sources.rs'; U=D+'oracle/utils.rs'; MAIN=D+'main.rs'; BH=D+'blockhash_cache.rs'
src=lambda f: subprocess.check_output(['git','-C','/repo','show','HEAD:'+f],text=True)
def cut(f, a, b):
    s=src(f); i=s.index(a); j=s.index(b,i); return s[i:j]
def upto(f, a, b):
    s=src(f); i=s.index(a); j=s.index(b,i)+len(b); return s[i:j]
M=[]
def same(name, path, old, new): M.append(('same-'+name,'same',path,old,new))
same('contains-key', P, upto(P,"            let should_spawn = {","                continue;\n            }\n"), """            let claimed = inflight_all.entry(queue_key_spawn.clone()).or_default();
            if claimed.contains_key(&item.id) {
                continue;
            }
            claimed.insert(item.id, item.slot);
""")
same('gone-filter', P, ["            let previously_tracked: Vec<[u8; 32]> = inflight_for_queue.keys().cloned().collect();\n            for tracked_id in previously_tracked {\n                if !current_ids.contains(&tracked_id) {\n"], ["""            let gone: Vec<[u8; 32]> = inflight_for_queue
                .keys()
                .filter(|id| !current_ids.contains(*id))
                .copied()
                .collect();
            for tracked_id in gone {
                {
"""])
same('gone-continue', P, ["                if !current_ids.contains(&tracked_id) {\n"], ["""                if current_ids.contains(&tracked_id) {
                    continue;
                }
                {
"""])
same('ids-map-only', P, ["            current_ids.insert(item.id);\n","        let mut current_ids: HashSet<[u8; 32]> = HashSet::new();\n","!current_ids.contains(&tracked_id)","use std::collections::{HashMap, HashSet};"], ["","","!current_slots_by_id.contains_key(&tracked_id)","use std::collections::HashMap;"])
same('latency-fn', P, [upto(P,"                            // Update running average and count for this queue\n","*prev_avg = new_avg;\n                            }\n"),"pub async fn process_oracle_queue("], ["                            record_latency(oracle_client, &queue_key, latency).await;\n","""async fn record_latency(oracle_client: &OracleClient, queue_key: &str, latency: f64) {
    let mut counts = oracle_client.response_counts.write().await;
    let mut avgs = oracle_client.avg_response_slots.write().await;
    let count = counts.entry(queue_key.to_string()).or_insert(0);
    let average = avgs.entry(queue_key.to_string()).or_insert(0.0);
    *average = (*average * *count as f64 + latency) / (*count as f64 + 1.0);
    *count += 1;
}

pub async fn process_oracle_queue("""])
same('loop-break', P, "                while attempts < 100 {\n", "                loop {\n                    if attempts >= 100 {\n                        break;\n                    }\n")
same('attempts-typed', P, "                let mut attempts = 0;\n", "                let mut attempts: u64 = 0;\n")
same('confirm-guard', P, [upto(P,"                                Ok(success) => {","                                Err(err) => {\n")], ["""                                Ok(success) if success.value => {
                                    info!("Confirmed: {}", signature);
                                    confirmed_success = true;
                                    break;
                                }
                                Ok(_) => {
                                    attempts += 1;
                                    blockhash_cache.refresh_blockhash().await;
                                    if attempts > 20 {
                                        let delay_ms = 10 * (attempts - 20);
                                        sleep(Duration::from_millis(delay_ms)).await;
                                    }
                                }
                                Err(err) => {
"""])
same('cleanup-once', P, upto(P,"                {\n                    let mut tasks_all = oracle_client_for_cleanup","                        inflight_for_queue.remove(&item.id);\n                    }\n                }\n"), """                let mut inflight_all = oracle_client_for_cleanup.inflight_requests.write().await;
                let mut tasks_all = oracle_client_for_cleanup.active_tasks.write().await;
                if let Some(tasks_for_queue) = tasks_all.get_mut(&queue_key_spawn) {
                    tasks_for_queue.remove(&item.id);
                }
                if !confirmed_success {
                    if let Some(inflight_for_queue) = inflight_all.get_mut(&queue_key_spawn) {
                        inflight_for_queue.remove(&item.id);
                    }
                }
""")
same('cleanup-entry', P, upto(P,"                    let mut tasks_all = oracle_client_for_cleanup.active","                    }\n"), """                    oracle_client_for_cleanup
                        .active_tasks
                        .write()
                        .await
                        .get_mut(&queue_key_spawn)
                        .map(|tasks| tasks.remove(&item.id));
""")
same('stats-inline', P, upto(P,"            let mut stats = oracle_client.queue_stats","as usize);\n"), """            oracle_client
                .queue_stats
                .write()
                .await
                .insert(queue.to_string(), oracle_queue.item_count as usize);
""")
same('fetch-for', P, [upto(P,"    let tasks = accounts.into_iter().filter_map(|(pubkey, acc)| {","            return None;\n        }\n"), "        Some(task::spawn(async move {\n", "        }))\n    });\n\n    join_all"], ["""    let mut tasks = Vec::with_capacity(accounts.len());
    for (pubkey, acc) in accounts {
        if acc.owner != PROGRAM_ID {
            continue;
        }
""","        tasks.push(task::spawn(async move {\n","        }));\n    }\n\n    join_all"])
same('fetch-filter', P, ["    let tasks = accounts.into_iter().filter_map(|(pubkey, acc)| {\n        if acc.owner != PROGRAM_ID {\n            return None;\n        }\n", "        Some(task::spawn(async move {\n", "        }))\n    });\n\n    join_all"], ["    let tasks = accounts.into_iter().filter(|(_, acc)| acc.owner == PROGRAM_ID).map(|(pubkey, acc)| {\n","        task::spawn(async move {\n","        })\n    });\n\n    join_all"])
same('fetch-if-let', P, upto(P,"            let queue = match Queue::try_from_bytes(&bytes[..]) {","            };\n"), """            let Ok(queue) = Queue::try_from_bytes(&bytes) else {
                warn!("Invalid queue for account {}", pubkey);
                return;
            };
""")
same('budget-fn', P, [upto(P,"        let budget = if is_purge {","        };\n"),"#[repr(transparent)]\npub struct"], ["        let budget = compute_budget(is_purge, self.0.priority_request == 1);\n","""const fn compute_budget(purge: bool, high_priority: bool) -> u32 {
    match (purge, high_priority) {
        (true, _) => 1_000_000,
        (false, true) => 300_000,
        (false, false) => 180_000,
    }
}

#[repr(transparent)]
pub struct"""])
same('build-ix', P, [upto(P,"        let ix = if is_purge {\n","            ix\n        };\n")], ["""        let oracle = oracle_client.keypair.pubkey();
        let ix = match is_purge {
            true => purge_expired_requests(oracle, queue_meta.index),
            false => {
                let callback_program = Pubkey::new_from_array(self.0.callback_program_id);
                let mut ix = provide_randomness(
                    oracle,
                    *queue_pubkey,
                    callback_program,
                    *vrf_input,
                    PodRistrettoPoint(output.to_bytes()),
                    PodRistrettoPoint(commitment_base.to_bytes()),
                    PodRistrettoPoint(commitment_hash.to_bytes()),
                    PodScalar(s.to_bytes()),
                );
                for meta in self.0.account_metas(&account_bytes[8..]) {
                    ix.accounts.push(meta.to_account_meta());
                }
                ix
            }
        };
"""])
same('proof-late', P, [upto(P,"        let (output, (commitment_base, commitment_hash, s)) =\n","        ));\n\n"), "        // Check whether the request is expired\n"], ["", upto(P,"        let (output, (commitment_base, commitment_hash, s)) =\n","        ));\n\n")+"        // Check whether the request is expired\n"])
same('proof-bail', P, "        assert!(verify_vrf(\n            oracle_client.oracle_vrf_pk,\n            vrf_input,\n            output,\n            (commitment_base, commitment_hash, s),\n        ));\n", """        let proof = (commitment_base, commitment_hash, s);
        if !verify_vrf(oracle_client.oracle_vrf_pk, vrf_input, output, proof) {
            anyhow::bail!("own proof does not verify");
        }
""")
same('tx-message', P, upto(P,"        let tx = Transaction::new_signed_with_payer(","        );\n"), """        let payer = oracle_client.keypair.pubkey();
        let limit = ComputeBudgetInstruction::set_compute_unit_limit(budget);
        let instructions = vec![limit, ix];
        let tx = Transaction::new_signed_with_payer(
            &instructions,
            Some(&payer),
            &[&oracle_client.keypair],
            blockhash,
        );
""")
same('send-config', P, upto(P,"        let sig = rpc_client\n            .send_transaction_with_config(","        Ok(sig.to_string())\n"), """        let config = RpcSendTransactionConfig {
            preflight_commitment: Some(CommitmentLevel::Processed),
            skip_preflight: oracle_client.skip_preflight,
            ..RpcSendTransactionConfig::default()
        };
        rpc_client
            .send_transaction_with_config(&tx, config)
            .await
            .map(|signature| signature.to_string())
            .map_err(Into::into)
""")
same('items-once', P, ["        for item in queue_account.iter_items() {\n            current_ids.insert(item.id);", "        let items: Vec<QueueItem> = queue_account.iter_items().collect();\n\n        for item in items.into_iter() {\n"], ["        let items: Vec<QueueItem> = queue_account.iter_items().collect();\n        for item in &items {\n            current_ids.insert(item.id);","        for item in items {\n"])
same('drain-fn', C, [upto(C,"                    while let Some((pubkey, queue, bytes, notification_slot)) = source.next().await\n","                        .await;\n                    }\n"), "    async fn create_update_source("], ["                    self.drain(source.as_mut(), &rpc_client, &blockhash_cache).await;\n", """    async fn drain(
        self: &Arc<Self>,
        source: &mut dyn QueueUpdateSource,
        rpc_client: &Arc<RpcClient>,
        blockhash_cache: &Arc<BlockhashCache>,
    ) {
        loop {
            let Some((pubkey, queue, bytes, slot)) = source.next().await else {
                return;
            };
            process_oracle_queue(
                self,
                rpc_client,
                blockhash_cache,
                &pubkey,
                &queue,
                Arc::new(bytes),
                Some(slot),
            )
            .await;
        }
    }

    async fn create_update_source("""])
same('source-if', C, ["            match self.create_update_source().await {\n                Ok(mut source) => {\n", "                    warn!(\"Update source stream ended. Attempting to reconnect...\");\n                }\n                Err(err) => {\n                    error!(\"Failed to create update source: {err:?}. Retrying in 5 seconds...\");\n                    tokio::time::sleep(std::time::Duration::from_secs(5)).await;\n                }\n            }\n"], ["""            let mut source = match self.create_update_source().await {
                Ok(source) => source,
                Err(err) => {
                    error!("Failed to create update source: {err:?}. Retrying in 5 seconds...");
                    tokio::time::sleep(std::time::Duration::from_secs(5)).await;
                    continue;
                }
            };
            {
                {
""", "                    warn!(\"Update source stream ended. Attempting to reconnect...\");\n                }\n            }\n"])
same('sub-filter-fn', C, [upto(C,"                    filters: vec![SubscribeRequestFilterAccountsFilter {","                    }],\n"),"#[async_trait]\npub trait"], ["                    filters: vec![queue_filter()],\n","""fn queue_filter() -> SubscribeRequestFilterAccountsFilter {
    let discriminator = AccountDiscriminator::Queue.to_bytes();
    let memcmp = SubscribeRequestFilterAccountsFilterMemcmp {
        offset: 0,
        data: Some(AccountsFilterMemcmpOneof::Bytes(discriminator.to_vec())),
    };
    SubscribeRequestFilterAccountsFilter {
        filter: Some(AccountsFilterOneof::Memcmp(memcmp)),
    }
}

#[async_trait]
pub trait"""])
same('sub-two-fns', C, ["        if let (Some(api_key), Some(endpoint)) =\n            (&self.laserstream_api_key, &self.laserstream_endpoint)\n        {\n"], ["        let laserstream = self\n            .laserstream_api_key\n            .as_ref()\n            .zip(self.laserstream_endpoint.as_ref());\n        if let Some((api_key, endpoint)) = laserstream {\n"])
same('laser-loop', S, upto(S,"        while let Some(result) = self.stream.next().await {","        None\n"), """        loop {
            let update = match self.stream.next().await {
                Some(Ok(update)) => update,
                _ => return None,
            };
            let Some(UpdateOneof::Account(update)) = update.update_oneof else {
                continue;
            };
            let account = update.account?;
            let queue = *Queue::try_from_bytes(&account.data).ok()?;
            let key: [u8; 32] = account.pubkey.try_into().ok()?;
            return Some((Pubkey::from(key), queue, account.data, update.slot));
        }
""")
same('ws-order', S, upto(S,"        let update = self.subscription.recv().ok()?;","update.context.slot))\n"), """        let update = self.subscription.recv().ok()?;
        let slot = update.context.slot;
        let keyed = update.value;
        let pubkey = Pubkey::from_str(&keyed.pubkey).ok()?;
        if keyed.account.owner != PROGRAM_ID.to_string() {
            return None;
        }
        let data = keyed.account.data.decode()?;
        let queue = match Queue::try_from_bytes(&data) {
            Ok(queue) => *queue,
            Err(_) => return None,
        };
        Some((pubkey, queue, data, slot))
""")
same('filter-new', U, upto(U,"    vec![RpcFilterType::Memcmp(","    ))]\n"), """    let discriminator = AccountDiscriminator::Queue.to_bytes();
    vec![RpcFilterType::Memcmp(Memcmp::new_raw_bytes(0, discriminator.to_vec()))]
""")
same('bh-self-clone', BH, upto(BH,"        let inner = self.inner.clone();","            }\n        });\n"), """        let cache = self.clone();

        tokio::spawn(async move {
            loop {
                tokio::time::sleep(Duration::from_millis(100)).await;
                let age = cache.inner.read().await.timestamp.elapsed();
                if age > Duration::from_secs(60) {
                    cache.refresh_blockhash().await;
                }
            }
        });
""")
same('bh-store-struct', BH, ["            let mut cache = self.inner.write().await;\n            cache.blockhash = blockhash;\n            cache.slot = slot;\n            cache.timestamp = Instant::now();\n        }\n    }\n\n    async fn fetch"], ["            *self.inner.write().await = CacheData {\n                blockhash,\n                slot,\n                timestamp: Instant::now(),\n            };\n        }\n    }\n\n    async fn fetch"])
same('bh-match', BH, ["        if let Ok((blockhash, slot)) = Self::fetch_blockhash_and_slot(&self.client).await {\n            let mut cache = self.inner"], ["        let fetched = Self::fetch_blockhash_and_slot(&self.client).await;\n        if let Ok((blockhash, slot)) = fetched {\n            let mut cache = self.inner"])
same('bh-read-struct', BH, "        let cache = self.inner.read().await;\n        (cache.blockhash, cache.slot)\n", "        let CacheData { blockhash, slot, .. } = *self.inner.read().await;\n        (blockhash, slot)\n")
same('main-while', MAIN, upto(MAIN,"        match Arc::clone(&oracle).run().await {","            }\n        }\n"), """        let outcome = oracle.clone().run().await;
        if let Err(e) = outcome {
            eprintln!("Oracle crashed: {e}");
            tokio::time::sleep(std::time::Duration::from_secs(3)).await;
        }
""")
same('main-identity', MAIN, upto(MAIN,"    let identity = args\n","from_base58_string(&identity);\n"), """    let keypair = match args.identity.as_deref() {
        Some(identity) => Keypair::from_base58_string(identity),
        None => Keypair::from_base58_string(DEFAULT_IDENTITY),
    };
""")
same('new-keys', C, ["        let (oracle_vrf_sk, oracle_vrf_pk) = generate_vrf_keypair(&keypair);\n        Self {\n            keypair,\n","            oracle_vrf_sk,\n            oracle_vrf_pk,\n            laserstream_api_key,"], ["        let keys = generate_vrf_keypair(&keypair);\n        Self {\n            keypair,\n","            oracle_vrf_sk: keys.0,\n            oracle_vrf_pk: keys.1,\n            laserstream_api_key,"])
same('spawn-fn', P, ["            let handle = tokio::spawn(async move {\n", "                        inflight_for_queue.remove(&item.id);\n                    }\n                }\n            });\n"], ["            let work = async move {\n","                        inflight_for_queue.remove(&item.id);\n                    }\n                }\n            };\n            let handle = tokio::spawn(work);\n"])
same('pda-local', P, "    if oracle_queue_pda(&oracle_client.keypair.pubkey(), oracle_queue.index).0 == *queue {\n", "    let (expected, _bump) = oracle_queue_pda(&oracle_client.keypair.pubkey(), oracle_queue.index);\n    let ours = expected.eq(queue);\n    if ours {\n")
