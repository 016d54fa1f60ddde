P='vrf-oracle/src/oracle/processor.rs'; B='vrf-oracle/src/blockhash_cache.rs'; C='vrf-oracle/src/oracle/client.rs'; S='vrf-oracle/src/oracle/sources.rs'; MN='vrf-oracle/src/main.rs'
CLEAN="""                if !confirmed_success {
                    let mut inflight_all =
                        oracle_client_for_cleanup.inflight_requests.write().await;
                    if let Some(inflight_for_queue) = inflight_all.get_mut(&queue_key_spawn) {
                        inflight_for_queue.remove(&item.id);
                    }
                }
"""
SW="""            let previously_tracked: Vec<[u8; 32]> = inflight_for_queue.keys().cloned().collect();
            for tracked_id in previously_tracked {
                if !current_ids.contains(&tracked_id) {
                    // Cancel any running task for this id
                    if let Some(handle) = tasks_for_queue.remove(&tracked_id) {
                        handle.abort();
                    }

                    // Remove from inflight and, if we have a response slot hint, update latency stats
                    if let Some(enqueue_slot) = inflight_for_queue.remove(&tracked_id) {
                        if let Some(response_slot_hint) = notification_slot {
                            let latency = response_slot_hint.saturating_sub(enqueue_slot) as f64;

                            // Update running average and count for this queue
                            {
                                let mut counts = oracle_client.response_counts.write().await;
                                let mut avgs = oracle_client.avg_response_slots.write().await;
                                let count = counts.entry(queue_key.clone()).or_insert(0);
                                let prev_avg = avgs.entry(queue_key.clone()).or_insert(0.0);
                                let new_avg = ((*prev_avg) * (*count as f64) + latency)
                                    / (*count as f64 + 1.0);
                                *count += 1;
                                *prev_avg = new_avg;
                            }
                        }
                    }
                }
            }
"""
SHOULD="""            let should_spawn = {
                let inflight_for_queue = inflight_all.entry(queue_key_spawn.clone()).or_default();
                if let std::collections::hash_map::Entry::Vacant(e) =
                    inflight_for_queue.entry(item.id)
                {
                    e.insert(item.slot);
                    true
                } else {
                    false
                }
            };

            if !should_spawn {
                continue;
            }
"""
src=open('/repo/'+P).read()
i=src.index("            let handle = tokio::spawn(async move {"); j=src.index("            // Track the task handle")
WORK=src[i:j]
body=WORK.split("tokio::spawn(async move {\n",1)[1].rsplit("            });\n",1)[0]
ix_i=src.index("        let ix = if is_purge {"); ix_j=src.index("        let budget = if")
IXB=src[ix_i:ix_j]
IDS="""        for item in queue_account.iter_items() {
            current_ids.insert(item.id);
            current_slots_by_id.insert(item.id, item.slot);
        }
"""
PER_i=open('/repo/'+C).read()
a=PER_i.index("            tokio::spawn(async move {\n                let mut interval"); b=PER_i.index("        }\n\n        loop {\n            match self.create")
PER=PER_i[a:b]
M2=[
('same-sweep-retain','same',P,SW,"""            let mut latencies: Vec<f64> = Vec::new();
            inflight_for_queue.retain(|tracked_id, enqueue_slot| {
                if current_ids.contains(tracked_id) {
                    return true;
                }
                if let Some(handle) = tasks_for_queue.remove(tracked_id) {
                    handle.abort();
                }
                if let Some(hint) = notification_slot {
                    latencies.push(hint.saturating_sub(*enqueue_slot) as f64);
                }
                false
            });
            for latency in latencies {
                let mut counts = oracle_client.response_counts.write().await;
                let mut avgs = oracle_client.avg_response_slots.write().await;
                let count = counts.entry(queue_key.clone()).or_insert(0);
                let prev_avg = avgs.entry(queue_key.clone()).or_insert(0.0);
                *prev_avg = ((*prev_avg) * (*count as f64) + latency) / (*count as f64 + 1.0);
                *count += 1;
            }
"""),
('same-sweep-stats-helper','same',P,["""                            {
                                let mut counts = oracle_client.response_counts.write().await;
                                let mut avgs = oracle_client.avg_response_slots.write().await;
                                let count = counts.entry(queue_key.clone()).or_insert(0);
                                let prev_avg = avgs.entry(queue_key.clone()).or_insert(0.0);
                                let new_avg = ((*prev_avg) * (*count as f64) + latency)
                                    / (*count as f64 + 1.0);
                                *count += 1;
                                *prev_avg = new_avg;
                            }
""","#[repr(transparent)]\npub struct P"],["                            record_latency(oracle_client, &queue_key, latency).await;\n","""async fn record_latency(client: &OracleClient, key: &str, latency: f64) {
    let mut counts = client.response_counts.write().await;
    let mut avgs = client.avg_response_slots.write().await;
    let count = counts.entry(key.to_string()).or_insert(0);
    let avg = avgs.entry(key.to_string()).or_insert(0.0);
    *avg = (*avg * (*count as f64) + latency) / (*count as f64 + 1.0);
    *count += 1;
}

#[repr(transparent)]
pub struct P"""]),
('same-sweep-fn','same',P,[SW,"#[repr(transparent)]\npub struct P"],["""            let ended = release_vanished(inflight_for_queue, tasks_for_queue, &current_ids);
            if let Some(hint) = notification_slot {
                for slot in ended {
                    let latency = hint.saturating_sub(slot) as f64;
                    let mut counts = oracle_client.response_counts.write().await;
                    let mut avgs = oracle_client.avg_response_slots.write().await;
                    let count = counts.entry(queue_key.clone()).or_insert(0);
                    let prev_avg = avgs.entry(queue_key.clone()).or_insert(0.0);
                    *prev_avg = ((*prev_avg) * (*count as f64) + latency) / (*count as f64 + 1.0);
                    *count += 1;
                }
            }
""","""fn release_vanished(
    inflight: &mut HashMap<[u8; 32], u64>,
    tasks: &mut HashMap<[u8; 32], task::JoinHandle<()>>,
    current: &HashSet<[u8; 32]>,
) -> Vec<u64> {
    let mut ended = Vec::new();
    let tracked: Vec<[u8; 32]> = inflight.keys().copied().collect();
    for id in tracked.iter() {
        if current.contains(id) {
            continue;
        }
        if let Some(h) = tasks.remove(id) {
            h.abort();
        }
        if let Some(slot) = inflight.remove(id) {
            ended.push(slot);
        }
    }
    ended
}

#[repr(transparent)]
pub struct P"""]),
('same-worker-fn','same',P,[WORK,"#[repr(transparent)]\npub struct P"],["""            let handle = tokio::spawn(work(
                item, oracle_client_for_proc, oracle_client_for_cleanup, rpc_client, blockhash_cache,
                input_seed, queue, oracle_queue, account_bytes_task, queue_key_spawn,
            ));

""","""#[allow(clippy::too_many_arguments)]
async fn work(
    item: QueueItem,
    oracle_client_for_proc: Arc<OracleClient>,
    oracle_client_for_cleanup: Arc<OracleClient>,
    rpc_client: Arc<RpcClient>,
    blockhash_cache: BlockhashCache,
    input_seed: [u8; 32],
    queue: Pubkey,
    oracle_queue: Arc<Queue>,
    account_bytes_task: Arc<Vec<u8>>,
    queue_key_spawn: String,
) {
"""+body+"""}

#[repr(transparent)]
pub struct P"""]),
('same-match-entry','same',P,SHOULD,"""            match inflight_all
                .entry(queue_key_spawn.clone())
                .or_default()
                .entry(item.id)
            {
                std::collections::hash_map::Entry::Occupied(_) => continue,
                std::collections::hash_map::Entry::Vacant(e) => {
                    e.insert(item.slot);
                }
            }
"""),
('same-insert-none','same',P,SHOULD,"""            let tracked = inflight_all.entry(queue_key_spawn.clone()).or_default();
            if tracked.contains_key(&item.id) {
                continue;
            }
            tracked.insert(item.id, item.slot);
"""),
('same-ids-collect','same',P,IDS,"""        current_ids.extend(queue_account.iter_items().map(|i| i.id));
        current_slots_by_id.extend(queue_account.iter_items().map(|i| (i.id, i.slot)));
"""),
('same-ids-from-items','same',P,["        let items: Vec<QueueItem> = queue_account.iter_items().collect();\n","        let mut current_ids: HashSet<[u8; 32]> = HashSet::new();\n        let mut current_slots_by_id: HashMap<[u8; 32], u64> = HashMap::new();\n",IDS],["","","        let items: Vec<QueueItem> = queue_account.iter_items().collect();\n        let current_ids: HashSet<[u8; 32]> = items.iter().map(|i| i.id).collect();\n"]),
('same-iter-direct','same',P,["        let items: Vec<QueueItem> = queue_account.iter_items().collect();\n","        for item in items.into_iter() {"],["","        for item in queue_account.iter_items() {"]),
('same-ix-helper','same',P,["        let ix = if is_purge {",IXB.split("        let ix = if is_purge {",1)[1],"    #[allow(clippy::too_many_arguments)]\n    pub async fn process_item("],["        let ix = self.instruction(is_purge, oracle_client, vrf_input, queue_pubkey, queue_meta, account_bytes, (output, commitment_base, commitment_hash, s));\n","\n","""    #[allow(clippy::too_many_arguments)]
    fn instruction(
        &self,
        is_purge: bool,
        oracle_client: &OracleClient,
        vrf_input: &[u8; 32],
        queue_pubkey: &Pubkey,
        queue_meta: &Queue,
        account_bytes: &[u8],
        (output, commitment_base, commitment_hash, s): (curve25519_dalek::ristretto::CompressedRistretto, curve25519_dalek::ristretto::CompressedRistretto, curve25519_dalek::ristretto::CompressedRistretto, curve25519_dalek::Scalar),
    ) -> solana_sdk::instruction::Instruction {
"""+IXB.replace("let ix = if is_purge","if is_purge").rstrip().rstrip(';')+"""
    }

    #[allow(clippy::too_many_arguments)]
    pub async fn process_item("""]),
('same-expired-fn','same',P,["        let age = current_slot.saturating_sub(self.0.slot);\n        let is_purge = age > QUEUE_TTL_SLOTS;","#[repr(transparent)]\npub struct P"],["        let is_purge = expired(current_slot, self.0.slot);","fn expired(now: u64, requested: u64) -> bool {\n    now.saturating_sub(requested) > QUEUE_TTL_SLOTS\n}\n\n#[repr(transparent)]\npub struct P"]),
('same-expired-add','same',P,"        let age = current_slot.saturating_sub(self.0.slot);\n        let is_purge = age > QUEUE_TTL_SLOTS;","        let is_purge = current_slot > self.0.slot && current_slot - self.0.slot > QUEUE_TTL_SLOTS;"),
('same-verify-if','same',P,"        assert!(verify_vrf(\n            oracle_client.oracle_vrf_pk,\n            vrf_input,\n            output,\n            (commitment_base, commitment_hash, s),\n        ));","        let proof = (commitment_base, commitment_hash, s);\n        if !verify_vrf(oracle_client.oracle_vrf_pk, vrf_input, output, proof) {\n            return Err(anyhow::anyhow!(\"self check failed\"));\n        }"),
('same-periodic-fn','same',C,[PER,"    async fn create_update_source("],["            tokio::spawn(Self::periodic(self_clone, rpc_client_clone, blockhash_cache_clone));\n","""    async fn periodic(
        client: Arc<Self>,
        rpc: Arc<RpcClient>,
        cache: Arc<BlockhashCache>,
    ) {
        loop {
            if let Err(err) =
                fetch_and_process_program_accounts(&client, &rpc, &cache, queue_memcmp_filter()).await
            {
                error!("Periodic fetch failed: {err:?}");
            }
            tokio::time::sleep(std::time::Duration::from_secs(30)).await;
        }
    }

    async fn create_update_source("""]),
('same-update-helper','same',C,["                    while let Some((pubkey, queue, bytes, notification_slot)) = source.next().await\n                    {","                        .await;\n                    }\n                    drop(source);"],["                    loop {\n                        let Some((pubkey, queue, bytes, notification_slot)) = source.next().await else {\n                            break;\n                        };","                        .await;\n                    }\n                    drop(source);"]),
('same-attempt-const','same',P,"while attempts < 100 {","const MAX: u64 = 100;\n                while attempts < MAX {"),
('same-confirm-matches','same',P,"""                                Ok(success) => {
                                    if success.value {
""","""                                Ok(success) => {
                                    let landed = success.value;
                                    if landed {
"""),
]
M=M2
