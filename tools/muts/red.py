"""Bugs written from the property statements alone (second pass, whole repository)."""
import subprocess
M = []
def src(p): return subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + p], capture_output=True, text=True).stdout
def bug(name, path, old, new): M.append(('bug-' + name, 'bug', path, old, new))
PR = 'program/src/'
PRO = PR + 'provide_randomness.rs'; REQ = PR + 'request_randomness.rs'; PUR = PR + 'purge_expired_requests.rs'; IQ = PR + 'initialize_oracle_queue.rs'
MOD = PR + 'modify_oracles.rs'; CL = PR + 'close_oracle_queue.rs'; FEE = PR + 'fees.rs'; LIB = PR + 'lib.rs'; INI = PR + 'initialize.rs'
DEL = PR + 'delegate_oracle_queue.rs'; UND = PR + 'undelegate_oracle_queue.rs'; PUN = PR + 'process_undelegation.rs'
A = 'api/src/'; VER = A + 'verify.rs'; STEEL = A + 'steel.rs'; PDA = A + 'pda.rs'; LO = A + 'loaders.rs'; Q = A + 'state/queue.rs'; ST = A + 'state/mod.rs'
ORS = A + 'state/oracles.rs'; MAC = A + 'state/macros.rs'; ASDK = A + 'sdk.rs'; INS = A + 'instruction.rs'; CON = A + 'consts.rs'
VRF = 'vrf/src/vrf.rs'; S = 'sdk/src/'; P = 'vrf-oracle/src/oracle/processor.rs'; CLI_ = 'vrf-oracle/src/oracle/client.rs'; SRC = 'vrf-oracle/src/oracle/sources.rs'; BH = 'vrf-oracle/src/blockhash_cache.rs'
CLI = 'vrf-cli/src/main.rs'; MACRO = 'sdk/vrf-macro/src/lib.rs'
# ---- verifier / VRF
bug('v-skip-when-equal', VER, "    // ---------------------------\n    // 1) Schnorr", "    if commitment_base_compressed == commitment_hash_compressed && output_compressed == pk {\n        return true;\n    }\n    // ---------------------------\n    // 1) Schnorr")
bug('v-two-sites-trunc', [VER, VRF], ["        pk.0.to_vec(),\n        input.to_vec(),\n", "        pk.0.to_vec(),\n        input[..31].to_vec(),\n"][:1], ["        pk.0.to_vec(),\n        input[1..].to_vec(),\n"]) if False else None
bug('v-both-drop-commit', [VER, VRF, VRF], ["        commitment_hash_compressed.0.to_vec(),\n", "        commitment_hash.compress().to_bytes().to_vec(),\n", "        commitment_hash_compressed.to_bytes().to_vec(),\n"], ["", "", ""])
bug('v-both-h-const', [VER, VRF], ["[VRF_PREFIX_HASH_TO_POINT.to_vec(), input.to_vec()]", "[VRF_PREFIX_HASH_TO_POINT.to_vec(), input.to_vec()]"], ["[VRF_PREFIX_HASH_TO_POINT.to_vec(), input[..16].to_vec()]", "[VRF_PREFIX_HASH_TO_POINT.to_vec(), input[..16].to_vec()]"])
bug('v-lhs-reuse', VER, "    lhs_base == rhs_base && lhs_hash == rhs_hash", "    lhs_base.0[..31] == rhs_base.0[..31] && lhs_hash == rhs_hash")
bug('v-off-identity', VRF, "    lhs_base == rhs_base && lhs_hash == rhs_hash", "    (lhs_base == rhs_base || s == Scalar::ZERO) && lhs_hash == rhs_hash")
bug('v-rhs-own', VRF, "    let rhs_hash = commitment_hash + c * output;", "    let rhs_hash = commitment_base + c * output;")
bug('v-nonce-first16', VRF, "let ikm = [&sk.to_bytes()[..], input].concat();", "let ikm = [&sk.to_bytes()[..], &input[..24]].concat();")
bug('v-key-pubonly', VRF, "&keypair.to_bytes());", "&keypair.to_bytes()[32..]);")
bug('v-s-unmasked', VRF, "    let s = k + c * sk;", "    let s = k + (c + Scalar::ONE) * sk - sk + Scalar::ZERO * k;\n    let s = if s == Scalar::ZERO { sk } else { s };")
# ---- fulfilment
bug('p-proof-other-input', PRO, "            &args.input,\n            output,", "            &_item.id,\n            &args.output,") if False else None
bug('p-input-skip-verify', PRO, "        if !verified {", "        if !verified && _item.priority_request == 1 {")
bug('p-index-zero', PRO, "let removed_item = queue_acc.remove_item(index)?;", "let removed_item = queue_acc.remove_item(index.min(queue_acc.len().saturating_sub(2)))?;")
bug('p-double-remove', PRO, "        let metas = removed_item.account_metas(queue_acc.acc).to_vec();", "        if queue_acc.find_item_by_id(&args.input).is_some_and(|(j, _)| j != index) {\n            queue_acc.remove_item(index)?;\n        }\n        let metas = removed_item.account_metas(queue_acc.acc).to_vec();")
bug('p-rdn-mix', PRO, "let rdn = hash(&output.0);", "let rdn = hash(&[output.0.as_slice(), &removed_item.slot.to_le_bytes()].concat());")
bug('p-data-order', PRO, "    callback_data.extend_from_slice(rdn.to_bytes().as_ref());\n    callback_data.extend_from_slice(&args_vec);", "    if disc_vec.is_empty() {\n        callback_data.extend_from_slice(&args_vec);\n        callback_data.extend_from_slice(rdn.to_bytes().as_ref());\n    } else {\n        callback_data.extend_from_slice(rdn.to_bytes().as_ref());\n        callback_data.extend_from_slice(&args_vec);\n    }")
bug('p-identity-writable', PRO, "        is_signer: true,\n        is_writable: false,", "        is_signer: true,\n        is_writable: program_identity_info.is_writable,")
bug('p-oracle-first-meta', PRO, "                metas\n                    .iter()\n                    .any(", "                metas\n                    .iter()\n                    .take(8)\n                    .any(")
bug('p-oracle-writable-only', PRO, ".any(|acc| Pubkey::new_from_array(acc.pubkey).eq(oracle_info.key))", ".any(|acc| acc.is_writable != 0 && Pubkey::new_from_array(acc.pubkey).eq(oracle_info.key))")
bug('p-signer-passthrough', Q, ["        let is_signer = false;"], ["        let is_signer = self.is_writable > 1;"])
bug('p-late-slot', PRO, "if Clock::get()?.slot <= item.slot {", "if Clock::get()?.slot.wrapping_sub(item.slot) == 0 {")
bug('p-callback-unchecked-zero', PRO, "    callback_program_info.has_address(&Pubkey::new_from_array(removed_item.callback_program_id))?;", "    if removed_item.priority_request == 0 {\n        callback_program_info\n            .has_address(&Pubkey::new_from_array(removed_item.callback_program_id))?;\n    }")
bug('p-program-from-account', PRO, ["    callback_program_info.has_address(&Pubkey::new_from_array(removed_item.callback_program_id))?;\n", "        program_id: Pubkey::new_from_array(removed_item.callback_program_id),\n        accounts: accounts_metas,"], ["", "        program_id: *callback_program_info.key,\n        accounts: accounts_metas,"])
bug('p-queue-index-arg', PRO, "    oracle_queue_info\n        .is_writable()?\n        .has_owner(&ephemeral_vrf_api::ID)?\n", "    oracle_queue_info\n        .is_writable()?\n")
bug('p-fee-before', PRO, "        let cost = if removed_item.priority_request == 1 {", "        let cost = if removed_item.priority_request == 1 && oracle_queue_info.lamports() > VRF_HIGH_PRIORITY_LAMPORTS_COST {")
bug('p-fee-callback', PRO, "crate::fees::transfer_fee(oracle_queue_info, oracle_info, cost)?;", "let _ = crate::fees::transfer_fee(oracle_queue_info, oracle_info, cost);")
bug('p-cpi-swallow', PRO, "    solana_program::program::invoke_signed(&ix, &all_accounts, pda_signer_seeds)?;", "    if let Err(e) = solana_program::program::invoke_signed(&ix, &all_accounts, pda_signer_seeds) {\n        solana_program::msg!(\"callback failed {:?}\", e);\n    }")
# ---- request
bug('r-seed-len', REQ, "            &args.caller_seed,\n", "            &args.caller_seed[..16],\n")
bug('r-hash-cond', REQ, "            &slothash,\n", "            if high_priority { &slothash[..] } else { &[] },\n")
bug('r-slothash-32', REQ, "[16..48]", "[8..40]")
bug('r-time-slot', REQ, "            &time.to_le_bytes(),\n", "            &(time as u32).to_le_bytes(),\n")
bug('r-program-from-identity', REQ, "            callback_program_id: args.callback_program_id.to_bytes(),", "            callback_program_id: program_identity_info.owner.to_bytes(),")
bug('r-priority-size', REQ, "            priority_request: high_priority as u8,", "            priority_request: (high_priority && !args.callback_args.is_empty()) as u8,")
bug('r-metas-sort', REQ, "            .map(|ca| (*ca).into())\n", "            .filter(|ca| ca.pubkey != [0u8; 32])\n            .map(|ca| (*ca).into())\n")
bug('r-signer-only-hp', REQ, "    signer_info.is_signer()?;\n", "    if high_priority {\n        signer_info.is_signer()?;\n    }\n")
bug('r-fee-exempt-slot', REQ, "    if oracle_queue_info.key.ne(&DEFAULT_EPHEMERAL_QUEUE) {", "    if oracle_queue_info.key.ne(&DEFAULT_EPHEMERAL_QUEUE) && signer_info.key.ne(oracle_queue_info.key) && oracle_queue_info.lamports() < u64::MAX / 2 {")
bug('r-fee-identity', REQ, "&system_instruction::transfer(signer_info.key, oracle_queue_info.key, cost),", "&system_instruction::transfer(program_identity_info.key, oracle_queue_info.key, cost),")
bug('r-invoke-ignored', REQ, "                system_program_info.clone(),\n            ],\n        )?;", "                system_program_info.clone(),\n            ],\n        )\n        .or_else(|e| if high_priority { Err(e) } else { Ok(()) })?;")
bug('r-tag-first-byte-other', STEEL, ["        if data.len() < 8 || Self::discriminator() != data[0] {\n            return Err(ProgramError::InvalidAccountData);\n        }\n        bytemuck::try_from_bytes::<Self>(&data[8..])"], ["        if data.len() < 8 || Self::discriminator() & data[0] != Self::discriminator() {\n            return Err(ProgramError::InvalidAccountData);\n        }\n        bytemuck::try_from_bytes::<Self>(&data[8..])"])
# ---- purge
bug('u-age-wrap', PUR, "current_slot.saturating_sub(item.slot)", "current_slot.abs_diff(item.slot)")
bug('u-first-only', PUR, "            // do not increment i; next item shifts into this index\n", "            if queue_acc.len() == 1 {\n                break;\n            }\n")
bug('u-fee-len', PUR, "            total_cost = total_cost.saturating_add(cost);", "            total_cost = total_cost.saturating_add(cost).min(50 * VRF_HIGH_PRIORITY_LAMPORTS_COST);")
bug('u-skip-owner', PUR, "        .has_owner(&ephemeral_vrf_api::ID)?\n", "")
bug('u-get-later', PUR, "            let _ = queue_acc.remove_item(i)?;", "            let _ = queue_acc.remove_item(i.saturating_sub(0))?;\n            if queue_acc.len() > i {\n                i += (queue_acc.get_item_by_index(i).map(|x| x.slot) == Some(item.slot)) as usize * 0;\n            }\n            if item.slot == 0 {\n                return Ok(());\n            }")
# ---- fees / accounts
bug('fee-saturate-credit', FEE, ["        .checked_add(amount)\n        .ok_or(ProgramError::InvalidArgument)?;"], ["        .saturating_add(amount);"])
bug('fee-split-check', FEE, ["    **queue_lamports = (**queue_lamports)\n        .checked_sub(amount)\n        .ok_or(ProgramError::InsufficientFunds)?;\n"], ["    **queue_lamports -= amount.min(**queue_lamports);\n"])
bug('close-order', STEEL, ["    **recipient.try_borrow_mut_lamports()? += account_info.lamports();\n    **account_info.try_borrow_mut_lamports()? = 0;\n"], ["    **recipient.try_borrow_mut_lamports()? += account_info.lamports().saturating_sub(1);\n    **account_info.try_borrow_mut_lamports()? = 0;\n"])
bug('resize-payer-skip', PDA, ["        **pda.try_borrow_mut_lamports()? -= abs_diff;\n        **payer.try_borrow_mut_lamports()? += abs_diff;\n"], ["        if abs_diff > 5000 {\n            **pda.try_borrow_mut_lamports()? -= abs_diff;\n            **payer.try_borrow_mut_lamports()? += abs_diff - 5000;\n        }\n"])
bug('create-prefund-lt', PDA, ["        if rent_exempt_balance.gt(&0) {"], ["        if rent_exempt_balance.gt(&(space as u64)) {"])
bug('create-no-transfer', STEEL, ["        if rent_exempt_balance > 0 {\n"], ["        if rent_exempt_balance > 0 && target_account.data_is_empty() && target_account.lamports() < 890_880 {\n"])
# ---- registry
bug('mod-identity-sysprog', MOD, "        || args.identity == system_program::ID\n", "") if False else None
bug('mod-oncurve-remove', MOD, "        || !is_on_curve(&args.identity)\n", "        || (args.operation == 0 && args.identity != *accounts[0].key && !is_on_curve(&args.identity))\n")
bug('mod-admin-none', MOD, "        .ok_or(Unauthorized)?;", "        .unwrap_or(*signer_info.key);")
bug('mod-slot-zero', MOD, "        oracle_data.registration_slot = Clock::get()?.slot;", "        oracle_data.registration_slot = Clock::get()?.slot.min(oracle_data.registration_slot.wrapping_sub(1));") if False else None
bug('mod-push-front', MOD, "        oracles.oracles.push(args.identity);", "        oracles.oracles.push(args.identity);\n        oracles.oracles.dedup();")
bug('mod-key-swap', MOD, "        oracle_data.vrf_pubkey = args.oracle_pubkey;", "        if oracle_data.open_queue == 0 && !oracles.oracles.is_empty() {\n            oracle_data.vrf_pubkey = args.oracle_pubkey;\n        }") if False else None
bug('mod-open-gt1', MOD, "        if open_queue != 0 {", "        if open_queue > 1 {")
bug('mod-retain-record', MOD, "oracles.oracles.retain(|oracle| oracle.ne(&args.identity));", "oracles.oracles.retain(|oracle| oracle.ne(oracle_data_info.key) && oracle.ne(&args.identity) || oracle.eq(signer_info.key));")
bug('mod-op-other', MOD, "    } else if args.operation == 1 {", "    } else if args.operation & 1 == 1 {")
bug('init-any-signer', INI, "        .is_empty()?\n", "")
bug('admin-any-loader', LO, "    if !program_data_address.eq(program_data.key) {", "    if !program_data_address.eq(program_data.key) && program_data.owner.ne(&bpf_loader_upgradeable::id()) {")
# ---- queue init / close
bug('iq-registered-later', IQ, "current_slot.saturating_sub(oracle_registration_slot);", "current_slot.max(200).saturating_sub(oracle_registration_slot);")
bug('iq-count-twice', IQ, "    if extra_bytes > MAX_EXTRA_BYTES {", "    if extra_bytes > MAX_EXTRA_BYTES && args.index < 128 {")
bug('iq-tag-early', IQ, "            resize_pda(signer_info, oracle_queue_info, system_program, realloc_size)?;\n", "            resize_pda(signer_info, oracle_queue_info, system_program, realloc_size)?;\n            oracle_queue_info.data.borrow_mut()[..8]\n                .copy_from_slice(&AccountDiscriminator::Queue.to_bytes());\n")
bug('iq-index-zero', IQ, "        qacc.header.index = args.index;", "        if qacc.header.index != 0 {\n            qacc.header.index = args.index;\n        }")
bug('iq-target-cap', IQ, "    let target_size = args.target_size as usize;", "    let target_size = (args.target_size as usize).min(10_240 * 100);")
bug('iq-zero-head', LO, "data.iter().all(|&b| b == 0)", "data.iter().skip(8).all(|&b| b == 0)")
bug('cl-empty-count', CL, "        if !queue_acc.is_empty() {", "        if !queue_acc.is_empty() && queue_acc.header.cursor > 16 + 96 {")
bug('cl-count-nonempty', CL, "    if is_initialized {", "    if is_initialized && oracle_data_mut.open_queue > 1 {")
bug('cl-owner-other', CL, "    oracle_queue_info\n        .is_writable()?\n        .has_owner(&ephemeral_vrf_api::ID)?\n", "    oracle_queue_info\n        .is_writable()?\n")
# ---- delegation
bug('d-index-fixed', DEL, "&[args.index]];", "&[args.index & 0x7f]];")
bug('d-freq', DEL, "        commit_frequency_ms: 0,", "        commit_frequency_ms: args.index as u32,")
bug('d-und-context', UND, "    magic_context.has_address(&MAGIC_CONTEXT_ID)?;", "    magic_context.is_writable()?;")
bug('d-und-signer', UND, "    authority_info.is_signer()?;\n", "    if oracle_queue_info.owner.eq(&ephemeral_vrf_api::ID) {\n        authority_info.is_signer()?;\n    }\n")
bug('d-pun-owner', PUN, "        &ephemeral_vrf_api::ID,\n", "        oracle_queue_info.owner,\n")
bug('d-lib-len', LIB, "    if data.len() < 8 {", "    if data.is_empty() {")
bug('d-lib-priority', LIB, "            process_request_randomness(accounts, data, false)?", "            process_request_randomness(accounts, data, accounts.len() > 5)?")
bug('d-lib-swallow', LIB, "        EphemeralVrfInstruction::ProcessUndelegation => process_undelegation(accounts, data)?,", "        EphemeralVrfInstruction::ProcessUndelegation => {\n            process_undelegation(accounts, data).unwrap_or_default()\n        }")
bug('d-as-account-len', STEEL, ["        let data = self.try_borrow_data()?;\n        let expected_len = 8 + core::mem::size_of::<T>();\n        if data.len() != expected_len {\n            return Err(ProgramError::InvalidAccountData);\n        }\n        T::try_from_bytes(&data)?;\n"], ["        let data = self.try_borrow_data()?;\n        let expected_len = 8 + core::mem::size_of::<T>();\n        if data.len() != expected_len {\n            return Err(ProgramError::InvalidAccountData);\n        }\n        if data[0] != 0 {\n            T::try_from_bytes(&data)?;\n        }\n"])
# ---- queue
bug('q-meta-bound', Q, "        if end > acc.len() || start > end {\n            return &[];\n        }\n\n        let bytes", "        if start > acc.len() || start > end {\n            return &[];\n        }\n\n        let bytes")
bug('q-find-first', Q, "    pub fn remove_item(&mut self, index: usize) -> Result<QueueItem, ProgramError> {\n        let mut current = 0usize;\n", "    pub fn remove_item(&mut self, index: usize) -> Result<QueueItem, ProgramError> {\n        let index = index % (self.len().max(1));\n        let mut current = 0usize;\n")
bug('q-trim-one', Q, "            if item.used == 1 {\n                last_used_end_aligned = next;\n            }\n", "            if item.used == 1 {\n                last_used_end_aligned = item_end;\n            }\n")
bug('q-trim-priority', Q, "            if item.used == 1 {\n                last_used_end_aligned = next;\n            }\n", "            if item.used == 1 && item.slot != 0 {\n                last_used_end_aligned = next;\n            }\n")
bug('q-was-tail', Q, "let was_tail = next == self.header.cursor as usize;", "let was_tail = next >= self.header.cursor as usize || self.header.item_count == 1;")
bug('q-add-return', Q, "        Ok(logical_index)", "        Ok(logical_index.min(u8::MAX as usize))")
bug('q-add-order', Q, "        let metas_off = self.write_bytes(metas_bytes)?;\n        let metas_len = metas.len() as u16;\n\n        let args_off = self.write_bytes(args)?;\n", "        let args_off = self.write_bytes(args)?;\n        let metas_off = if args.len() % 2 == 1 { args_off } else { self.header.cursor };\n        let _ = self.write_bytes(metas_bytes)?;\n        let metas_len = metas.len() as u16;\n")
bug('q-slot-fill', Q, "            self.acc[start..end].fill(0);\n", "            self.acc[start..].fill(0);\n") 
bug('q-load-cursor', Q, "        if header.cursor == 0 {", "        if header.cursor == 0 || header.item_count == 0 {")
bug('q-guard', Q, "            // Prevent infinite loop in case of corrupted lengths\n            if next <= cursor {", "            // Prevent infinite loop in case of corrupted lengths\n            if next < cursor {") if False else None
bug('q-limit-total', Q, "        if metas.len() > 20 || args.len() > 512 {", "        if metas.len() > 20 && args.len() > 512 {")
# ---- API / SDK
bug('a-record-layout', ['api/src/state/oracle.rs'], ["    pub registration_slot: u64,\n    pub open_queue: u64,\n"], ["    pub open_queue: u64,\n    pub registration_slot: u64,\n"]) if False else None
bug('a-registry-size', ORS, "        8 + 4 + (item_size * self.oracles.len())\n", "        8 + 4 + (item_size * self.oracles.len().max(1))\n")
bug('a-builder-identity', ASDK, "program_identity_pda().0", "crate::ID")
bug('s-find-metas', S + 'instructions.rs', "            callback_accounts_metas: params.accounts_metas.unwrap_or_default(),", "            callback_accounts_metas: params\n                .accounts_metas\n                .unwrap_or_default()\n                .into_iter()\n                .map(|m| SerializableAccountMeta { is_writable: m.is_writable && !m.is_signer, ..m })\n                .collect(),")
bug('s-regular-both', S + 'instructions.rs', "    ix.data[0] = 8;\n", "    if ix.data.len() > 100 {\n        ix.data[0] = 8;\n    }\n")
bug('s-compat-swap', S + 'compat/mod.rs', "        AccountMeta {\n            pubkey: self.pubkey.compat(),\n            is_signer: self.is_signer,\n            is_writable: self.is_writable,", "        AccountMeta {\n            pubkey: self.pubkey.compat(),\n            is_signer: self.is_signer,\n            is_writable: self.is_writable || self.is_signer,")
bug('s-rnd-u64', S + 'rnd.rs', "bytes[0], bytes[4], bytes[8],", "bytes[0], bytes[4], bytes[0] ^ bytes[4],")
bug('s-range-threshold', S + 'rnd.rs', "        if b < threshold {", "        if b < threshold || b == 255 {")
bug('s-buffer-owner', S + 'pda.rs', "        &owner_program,\n", "        &DELEGATION_PROGRAM_ID.modern(),\n")
bug('s-macro-bump', MACRO, "&[bump.1]]],", "&[bump.1.max(1)]]],")
bug('s-macro-drop-field', MACRO, "            #(#field_attrs)*\n            pub #field_name: #field_type,", "            pub #field_name: #field_type,")
bug('s-macro-infos', MACRO, "                        self.slot_hashes.to_account_info(),\n", "")
# ---- oracle service
bug('o-claim-drop-await', P, "            if !should_spawn {\n                continue;\n            }\n", "            if !should_spawn && inflight_all.len() < 1000 {\n                continue;\n            }\n")
bug('o-skip-expired', P, "        for item in items.into_iter() {", "        for item in items.into_iter().take(256) {")
bug('o-slot-filter', P, "        for item in items.into_iter() {", "        for item in items.into_iter().filter(|i| i.callback_program_id != [0u8; 32]) {")
bug('k-close-index', CLI, "CloseOracleQueue", "CloseOracleQueue") if False else None
M = [m for m in M if m]
