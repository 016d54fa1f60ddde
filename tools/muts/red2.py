"""Bugs that need a particular condition to show: off-chain service, clients, SDK."""
M = []
def bug(name, path, old, new): M.append(('bug-' + name, 'bug', path, old, new))
P = 'vrf-oracle/src/oracle/processor.rs'; C = 'vrf-oracle/src/oracle/client.rs'; SRC = 'vrf-oracle/src/oracle/sources.rs'; U = 'vrf-oracle/src/oracle/utils.rs'; BH = 'vrf-oracle/src/blockhash_cache.rs'
MAIN = 'vrf-oracle/src/main.rs'; CLI = 'vrf-cli/src/main.rs'; A = 'api/src/sdk.rs'; S = 'sdk/src/'; MAC = 'sdk/vrf-macro/src/lib.rs'
bug('clean-swap', P, """                {
                    let mut tasks_all = oracle_client_for_cleanup.active_tasks.write().await;
                    if let Some(tasks_for_queue) = tasks_all.get_mut(&queue_key_spawn) {
                        tasks_for_queue.remove(&item.id);
                    }
                }

                if !confirmed_success {
                    let mut inflight_all =
                        oracle_client_for_cleanup.inflight_requests.write().await;
                    if let Some(inflight_for_queue) = inflight_all.get_mut(&queue_key_spawn) {
                        inflight_for_queue.remove(&item.id);
                    }
                }
""", """                if !confirmed_success {
                    let mut inflight_all =
                        oracle_client_for_cleanup.inflight_requests.write().await;
                    if let Some(inflight_for_queue) = inflight_all.get_mut(&queue_key_spawn) {
                        inflight_for_queue.remove(&item.id);
                    }
                }

                {
                    let mut tasks_all = oracle_client_for_cleanup.active_tasks.write().await;
                    if let Some(tasks_for_queue) = tasks_all.get_mut(&queue_key_spawn) {
                        tasks_for_queue.remove(&item.id);
                    }
                }
""")
bug('even-refresh', P, "                            blockhash_cache.refresh_blockhash().await;\n                            if attempts > 5 {", "                            if attempts % 2 == 0 {\n                                blockhash_cache.refresh_blockhash().await;\n                            }\n                            if attempts > 5 {")
bug('no-count-late', P, "                                sleep(Duration::from_millis(delay_ms)).await;\n                            }\n                            attempts += 1;", "                                sleep(Duration::from_millis(delay_ms)).await;\n                            }\n                            if attempts < 50 {\n                                attempts += 1;\n                            }")
bug('metas-cut', P, "            let metas = self.0.account_metas(&account_bytes[8..]);\n            ix.accounts\n                .extend(metas.iter().map(|a| a.to_account_meta()));", "            let metas = self.0.account_metas(&account_bytes[8..]);\n            ix.accounts\n                .extend(metas.iter().take(16).map(|a| a.to_account_meta()));")
bug('metas-skip-self', P, "                .extend(metas.iter().map(|a| a.to_account_meta()));", "                .extend(metas.iter().filter(|a| a.pubkey != queue_pubkey.to_bytes()).map(|a| a.to_account_meta()));")
bug('torn-read', P, "let (blockhash, current_slot) = blockhash_cache.get_blockhash_and_slot().await;", "let blockhash = blockhash_cache.get_blockhash().await;\n        let (_, current_slot) = blockhash_cache.get_blockhash_and_slot().await;") if False else None
bug('datasize', U, "    ))]\n", "    )), RpcFilterType::DataSize(9500)]\n")
bug('give-up-source', C, """                Err(err) => {
                    error!("Failed to create update source: {err:?}. Retrying in 5 seconds...");
                    tokio::time::sleep(std::time::Duration::from_secs(5)).await;
                }
            }
        }
""", """                Err(err) => {
                    failures += 1;
                    if failures > 10 {
                        return Err(err);
                    }
                    error!("Failed to create update source: {err:?}. Retrying in 5 seconds...");
                    tokio::time::sleep(std::time::Duration::from_secs(5)).await;
                }
            }
        }
""") if False else None
bug('main-ok-break', MAIN, "            Ok(_) => continue,", "            Ok(_) => return Ok(()),")
bug('main-few', MAIN, "    loop {\n        match Arc::clone(&oracle).run().await {", "    for _ in 0..1000 {\n        match Arc::clone(&oracle).run().await {") if False else None
bug('periodic-break', C, "                        error!(\"Periodic fetch_and_process_program_accounts failed: {err:?}\");", "                        error!(\"Periodic fetch_and_process_program_accounts failed: {err:?}\");\n                        if err.to_string().contains(\"429\") {\n                            break;\n                        }")
bug('refresh-if-newer', BH, """        if let Ok((blockhash, slot)) = Self::fetch_blockhash_and_slot(&self.client).await {
            let mut cache = self.inner.write().await;
            cache.blockhash = blockhash;
            cache.slot = slot;
            cache.timestamp = Instant::now();
        }""", """        if let Ok((blockhash, slot)) = Self::fetch_blockhash_and_slot(&self.client).await {
            let mut cache = self.inner.write().await;
            cache.blockhash = blockhash;
            if slot > cache.slot + 10 {
                cache.slot = slot;
            }
            cache.timestamp = Instant::now();
        }""")
bug('refresh-throttle', BH, """    pub async fn refresh_blockhash(&self) {
""", """    pub async fn refresh_blockhash(&self) {
        if self.inner.read().await.timestamp.elapsed() < Duration::from_secs(60) {
            return;
        }
""")
bug('refresh-hold', BH, """        if let Ok((blockhash, slot)) = Self::fetch_blockhash_and_slot(&self.client).await {
            let mut cache = self.inner.write().await;
            cache.blockhash = blockhash;
            cache.slot = slot;
            cache.timestamp = Instant::now();
        }
    }

    async fn""", """        let mut cache = self.inner.write().await;
        if let Ok((blockhash, slot)) = Self::fetch_blockhash_and_slot(&self.client).await {
            cache.blockhash = blockhash;
            cache.slot = slot;
            cache.timestamp = Instant::now();
        }
    }

    async fn""")
bug('slot-minus', BH, "        Ok((blockhash, resp.context.slot))", "        Ok((blockhash, resp.context.slot.saturating_sub(1)))")
bug('finalized', BH, "json!([CommitmentConfig::processed()])", "json!([CommitmentConfig::finalized()])") if False else None
bug('queue-two-index', P, "purge_expired_requests(oracle_client.keypair.pubkey(), queue_meta.index)", "purge_expired_requests(oracle_client.keypair.pubkey(), queue_meta.index.min(9))")
bug('verify-sample', P, """        assert!(verify_vrf(
            oracle_client.oracle_vrf_pk,
            vrf_input,
            output,
            (commitment_base, commitment_hash, s),
        ));
""", """        if self.0.priority_request == 0 {
            assert!(verify_vrf(
                oracle_client.oracle_vrf_pk,
                vrf_input,
                output,
                (commitment_base, commitment_hash, s),
            ));
        }
""")
bug('abort-late', P, """                    if let Some(handle) = tasks_for_queue.remove(&tracked_id) {
                        handle.abort();
                    }
""", """                    if let Some(handle) = tasks_for_queue.remove(&tracked_id) {
                        if notification_slot.is_some() {
                            handle.abort();
                        }
                    }
""")
bug('claim-cap', P, """            if !should_spawn {
                continue;
            }
""", """            if !should_spawn {
                continue;
            }
            if tasks_all.values().map(|t| t.len()).sum::<usize>() >= 512 {
                continue;
            }
""")
bug('first-empty', P, "        for item in queue_account.iter_items() {\n            current_ids.insert(item.id);", "        for item in queue_account.iter_items().skip_while(|i| i.slot == 0) {\n            current_ids.insert(item.id);")
bug('ws-owner-drop', SRC, "        if update.value.account.owner != PROGRAM_ID.to_string() {\n            return None;\n        }\n", "")
bug('ws-len', SRC, "        let queue = Queue::try_from_bytes(&data).ok()?;\n        let pubkey = Pubkey::from_str", "        if data.len() > 10_240 {\n            return None;\n        }\n        let queue = Queue::try_from_bytes(&data).ok()?;\n        let pubkey = Pubkey::from_str") if False else None
bug('laser-stale', SRC, "                let acc = acc.account?;\n", "                let acc = acc.account?;\n                if acc.lamports % 2 == 1 {\n                    continue;\n                }\n")
bug('key-reuse', C, "let (oracle_vrf_sk, oracle_vrf_pk) = generate_vrf_keypair(&keypair);", "let (oracle_vrf_sk, oracle_vrf_pk) = generate_vrf_keypair(&Keypair::try_from(&keypair.to_bytes()[..]).unwrap_or_else(|_| Keypair::new()));") if False else None
# ---- CLI
bug('cli-remove-self', CLI, "vec![remove_oracle(signer.pubkey(), identity)]", "vec![remove_oracle(signer.pubkey(), if identity == signer.pubkey() { identity } else { identity }), ].into_iter().take(if identity == Pubkey::default() { 0 } else { 1 }).collect()")
bug('cli-index-cap', CLI, "initialize_oracle_queue(signer.pubkey(), identity, *index, *bytes_to_allocate)", "initialize_oracle_queue(signer.pubkey(), identity, (*index).min(19), *bytes_to_allocate)")
bug('cli-two-sends', CLI, "    let signature = rpc_client.send_and_confirm_transaction(&transaction)?;\n", "    let signature = rpc_client\n        .send_and_confirm_transaction(&transaction)\n        .or_else(|_| rpc_client.send_transaction(&transaction))?;\n")
bug('cli-chunk', CLI, "    ixs.extend_from_slice(&instructions);\n", "    ixs.extend_from_slice(&instructions[..instructions.len().min(4)]);\n")
bug('cli-undel-empty', CLI, "            vec![undelegate_oracle_queue(\n                signer.pubkey(),\n                queue,\n                queue_struct.index,\n            )]", "            if queue_struct.item_count > 0 {\n                vec![undelegate_oracle_queue(signer.pubkey(), queue, queue_struct.index)]\n            } else {\n                vec![close_oracle_queue(signer.pubkey(), queue_struct.index)]\n            }")
# ---- clients
bug('api-big', A, "    let inits = target_size.div_ceil(10240);", "    let inits = target_size.div_ceil(10240).min(10);")
bug('api-zero-size', A, "bytes_to_allocate.unwrap_or(9500)", "bytes_to_allocate.filter(|b| *b > 0).unwrap_or(9500)") if False else None
bug('api-provide-writable', A, "            AccountMeta::new_readonly(callback_program_id, false),", "            AccountMeta::new_readonly(if callback_program_id == crate::ID { oracle_identity } else { callback_program_id }, false),")
bug('api-purge-index', A, "        data: PurgeExpiredRequests { index }.to_bytes(),", "        data: PurgeExpiredRequests { index: index & 0x7f }.to_bytes(),")
bug('api-del-meta', A, "delegation_metadata_pda_from_delegated_account(&queue);", "delegation_metadata_pda_from_delegated_account(&signer);")
bug('sdk-seed-zero', S + 'instructions.rs', "            caller_seed: params.caller_seed,", "            caller_seed: if params.caller_seed[31] == 0 { [0; 32] } else { params.caller_seed },")
bug('sdk-dedup', S + 'instructions.rs', "            callback_accounts_metas: params.accounts_metas.unwrap_or_default(),", "            callback_accounts_metas: {\n                let mut metas = params.accounts_metas.unwrap_or_default();\n                metas.dedup();\n                metas\n            },")
bug('sdk-default-queue', S + 'instructions.rs', "    let oracle_queue = params.oracle_queue.modern();", "    let oracle_queue = if params.oracle_queue == Pubkey::default() {\n        consts::DEFAULT_QUEUE.modern()\n    } else {\n        params.oracle_queue.modern()\n    };")
bug('sdk-disc-pad', S + 'instructions.rs', "            callback_discriminator: params.callback_discriminator,", "            callback_discriminator: {\n                let mut d = params.callback_discriminator;\n                if d.len() > 8 {\n                    d.truncate(8);\n                }\n                d\n            },")
bug('rnd-u8-range-wide', S + 'rnd.rs', "    let range = (max_value - min_value) as u16 + 1;", "    let range = ((max_value - min_value) as u16 + 1).min(255);")
bug('rnd-fallback', S + 'rnd.rs', "    min_value + (bytes[31] as u16 % range) as u8", "    min_value.saturating_add(bytes[31] % (max_value.max(1)))")
bug('rnd-skip-last', S + 'rnd.rs', "    for &b in bytes.iter().rev() {", "    for &b in bytes.iter().skip(1).step_by(2).rev() {")
bug('rnd-bool-two', S + 'rnd.rs', "pub fn random_bool(bytes: &[u8; 32]) -> bool {\n", "pub fn random_bool(bytes: &[u8; 32]) -> bool {\n    if bytes[0] == 0 {\n        return false;\n    }\n")
bug('pda-balance-index', S + 'pda.rs', "ephemeral_balance_seeds_from_payer!(payer, index)", "ephemeral_balance_seeds_from_payer!(payer, index.min(1))")
bug('compat-vec', S + 'compat/mod.rs', "        self.into_iter().map(Compat::compat).collect()", "        self.into_iter().take(32).map(Compat::compat).collect()")
bug('mac-payer', MAC, "                        payer.clone(),\n", "                        self.program_identity.to_account_info(),\n")
bug('mac-two-names', MAC, '        if field_name.eq("system_program") {', '        if field_name.eq("system_program") || field_name.eq("sys") {')
M = [m for m in M if m]
