"""Further restructurings of handlers, helpers, SDK and service, and look-alike bugs."""
import subprocess
M = []
def src(f): return subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + f], text=True)
def upto(f, a, b):
    s = src(f); i = s.index(a); j = s.index(b, i) + len(b); return s[i:j]
def same(name, path, old, new): M.append(('same-' + name, 'same', path, old, new))
def bug(name, path, old, new): M.append(('bug-' + name, 'bug', path, old, new))
D = 'program/src/'
REQ = D + 'request_randomness.rs'; PRO = D + 'provide_randomness.rs'; PUR = D + 'purge_expired_requests.rs'; IQ = D + 'initialize_oracle_queue.rs'; MOD = D + 'modify_oracles.rs'
CLO = D + 'close_oracle_queue.rs'; FEE = D + 'fees.rs'; LIB = D + 'lib.rs'; INI = D + 'initialize.rs'; DEL = D + 'delegate_oracle_queue.rs'; UND = D + 'undelegate_oracle_queue.rs'
Q = 'api/src/state/queue.rs'; ST = 'api/src/steel.rs'; LO = 'api/src/loaders.rs'; PDA = 'api/src/pda.rs'; VER = 'api/src/verify.rs'; VRF = 'vrf/src/vrf.rs'
P = 'vrf-oracle/src/oracle/processor.rs'; BC = 'vrf-oracle/src/blockhash_cache.rs'; SO = 'vrf-oracle/src/oracle/sources.rs'; RND = 'sdk/src/rnd.rs'; SI = 'sdk/src/instructions.rs'; SP = 'sdk/src/pda.rs'
# ------------------------------------------------------------ loaders / pda / steel
Z = "    let is_zeroed = data.iter().all(|&b| b == 0);\n"
same('zeroed-fold', LO, Z, "    let is_zeroed = data.iter().fold(0u8, |acc, b| acc | b) == 0;\n")
same('zeroed-loop', LO, Z, "    let mut is_zeroed = true;\n    for b in data.iter() {\n        is_zeroed &= *b == 0;\n    }\n")
same('zeroed-chunks', LO, Z, "    let is_zeroed = !data.iter().map(|b| *b != 0).any(|set| set);\n")
same('zeroed-position', LO, Z, "    let is_zeroed = data.iter().position(|b| *b != 0).is_none();\n")
same('zeroed-find', LO, Z, "    let is_zeroed = data.iter().find(|b| **b > 0).is_none();\n")
same('zeroed-filter-count', LO, Z, "    let is_zeroed = data.iter().filter(|b| **b != 0).count() == 0;\n")
AUTH = upto(LO, "    if let UpgradeableLoaderState::ProgramData {", "        Err(ProgramError::InvalidAccountData)\n    }\n")
same('authority-match', LO, AUTH, """    let state: UpgradeableLoaderState = bincode::deserialize(&program_account_data).map_err(|_| {
        msg!("Unable to deserialize ProgramData {}", program);
        ProgramError::InvalidAccountData
    })?;
    match state {
        UpgradeableLoaderState::ProgramData {
            upgrade_authority_address: authority,
            slot: _,
        } => Ok(authority),
        _ => Err(ProgramError::InvalidAccountData),
    }
""")
bug('authority-buffer', LO, AUTH, """    let state: UpgradeableLoaderState = bincode::deserialize(&program_account_data).map_err(|_| {
        msg!("Unable to deserialize ProgramData {}", program);
        ProgramError::InvalidAccountData
    })?;
    match state {
        UpgradeableLoaderState::ProgramData {
            upgrade_authority_address: authority,
            slot,
        } => Ok(if slot > 0 { authority } else { Some(*program) }),
        _ => Err(ProgramError::InvalidAccountData),
    }
""")
bug('pda-check-loose', LO, "    if !program_data_address.eq(program_data.key) {", "    if !program_data_address.eq(program_data.key) && program_data.owner != &bpf_loader_upgradeable::id() {")
CR = upto(PDA, "        let rent_exempt_balance = rent\n", "        if rent_exempt_balance.gt(&0) {\n")
same('create-checked', PDA, CR, """        let needed = rent.minimum_balance(space);
        let held = target_account.lamports();
        let rent_exempt_balance = if needed > held { needed - held } else { 0 };
        if rent_exempt_balance != 0 {
""")
bug('create-topup-half', PDA, CR, """        let needed = rent.minimum_balance(space);
        let held = target_account.lamports();
        let rent_exempt_balance = if needed > held { needed - held } else { 0 };
        if rent_exempt_balance > held {
""")
RES = upto(PDA, "    if lamports_diff > 0 {\n", "    pda.resize(new_size)?;\n")
same('resize-match', PDA, RES, """    match new_minimum_balance.cmp(&pda.lamports()) {
        core::cmp::Ordering::Greater => {
            invoke(
                &system_instruction::transfer(payer.key, pda.key, lamports_diff),
                &[payer.clone(), pda.clone(), system_program.clone()],
            )?;
        }
        _ => {
            let surplus = pda.lamports() - new_minimum_balance;
            **pda.try_borrow_mut_lamports()? -= surplus;
            **payer.try_borrow_mut_lamports()? += surplus;
        }
    }
    pda.resize(new_size)?;
""")
same('resize-nosurplus', PDA, RES, """    if lamports_diff == 0 {
        let surplus = pda.lamports() - new_minimum_balance;
        if surplus > 0 {
            **pda.try_borrow_mut_lamports()? -= surplus;
            **payer.try_borrow_mut_lamports()? += surplus;
        }
    } else {
        let ix = system_instruction::transfer(payer.key, pda.key, lamports_diff);
        let infos = [payer.clone(), pda.clone(), system_program.clone()];
        invoke(&ix, &infos)?;
    }
    pda.resize(new_size)?;
""")
bug('resize-surplus-lost', PDA, "        **payer.try_borrow_mut_lamports()? += abs_diff;\n", "        **payer.try_borrow_mut_lamports()? += abs_diff & !0xff;\n")
TFB = upto(ST, "        if data.len() < 8 || Self::discriminator() != data[0] {\n", "        bytemuck::try_from_bytes::<Self>(&data[8..]).map_err(|_| ProgramError::InvalidAccountData)\n")
same('tfb-get', ST, TFB, """        match data.first() {
            Some(tag) if *tag == Self::discriminator() && data.len() >= 8 => {
                let (_, body) = data.split_at(8);
                bytemuck::try_from_bytes(body).map_err(|_| ProgramError::InvalidAccountData)
            }
            _ => Err(ProgramError::InvalidAccountData),
        }
""")
same('close-take', ST, "    **recipient.try_borrow_mut_lamports()? += account_info.lamports();\n    **account_info.try_borrow_mut_lamports()? = 0;\n", """    let balance = {
        let mut lamports = account_info.try_borrow_mut_lamports()?;
        core::mem::take(&mut **lamports)
    };
    let mut to = recipient.try_borrow_mut_lamports()?;
    **to += balance;
    drop(to);
""")
same('close-replace', ST, "    **recipient.try_borrow_mut_lamports()? += account_info.lamports();\n    **account_info.try_borrow_mut_lamports()? = 0;\n", """    let balance = core::mem::replace(&mut **account_info.try_borrow_mut_lamports()?, 0);
    **recipient.try_borrow_mut_lamports()? += balance;
""")
same('asacc-get-range', ST, "        T::try_from_bytes(&data)?;\n        Ok(Ref::map(data, |data| bytemuck::from_bytes(&data[8..])))\n", "        let _ = T::try_from_bytes(&data[..expected_len])?;\n        let body = Ref::map(data, |raw| &raw[8..]);\n        Ok(Ref::map(body, bytemuck::from_bytes::<T>))\n")
CPA = upto(ST, "    let mut data = target_account.try_borrow_mut_data()?;\n    data[0] = T::discriminator();", ";\n    Ok(())\n")
same('cpa-first-mut', ST, "    data[0] = T::discriminator();\n    Ok(())", "    if let Some(tag) = data.first_mut() {\n        *tag = T::discriminator();\n    }\n    Ok(())")
same('cpa-slice', ST, "    data[0] = T::discriminator();\n    Ok(())", "    data[..1].copy_from_slice(&[T::discriminator()]);\n    Ok(())")
# ------------------------------------------------------------ handlers
same('del-validator-const', DEL, "        validator: Some(system_program::id()),\n", "        validator: Some(system_program::ID),\n")
same('del-seeds-key', DEL, "    let pda_seeds: &[&[u8]] = &[QUEUE, &authority_info.key.to_bytes(), &[args.index]];\n", "    let index = [args.index];\n    let pda_seeds: [&[u8]; 3] = [QUEUE, authority_info.key.as_ref(), &index];\n    let pda_seeds = &pda_seeds[..];\n")
same('und-one', UND, "        vec![oracle_queue_info],\n", "        std::iter::once(oracle_queue_info).collect::<Vec<_>>(),\n")
bug('del-seeds-short', DEL, "    delegate_account(delegate_accounts, pda_seeds, delegate_config)?;", "    delegate_account(delegate_accounts, &pda_seeds[..2], delegate_config)?;")
FEEB = upto(FEE, "    **queue_lamports = (**queue_lamports)\n", "        .ok_or(ProgramError::InvalidArgument)?;\n")
same('fee-let-else', FEE, FEEB, """    let Some(rest) = queue_lamports.checked_sub(amount) else {
        return Err(ProgramError::InsufficientFunds);
    };
    let Some(paid) = oracle_lamports.checked_add(amount) else {
        return Err(ProgramError::InvalidArgument);
    };
    **queue_lamports = rest;
    **oracle_lamports = paid;
""")
same('fee-cmp', FEE, FEEB, """    if amount > **queue_lamports {
        return Err(ProgramError::InsufficientFunds);
    }
    let (paid, overflow) = oracle_lamports.overflowing_add(amount);
    if overflow {
        return Err(ProgramError::InvalidArgument);
    }
    **queue_lamports -= amount;
    **oracle_lamports = paid;
""")
bug('fee-cmp-eq', FEE, FEEB, """    if amount > **queue_lamports {
        **oracle_lamports += **queue_lamports;
        **queue_lamports = 0;
        return Ok(());
    }
    **queue_lamports -= amount;
    **oracle_lamports += amount;
""")
IQC = upto(IQ, "    let extra_bytes = target_size.saturating_sub(current_size);\n", "        return Ok(());\n    }\n")
FIN = upto(IQ, "    // Finalize PDA size if needed\n", "        resize_pda(signer_info, oracle_queue_info, system_program, target_size)?;\n    }\n")
same('iq-closure', IQ, [IQC, FIN], ["""    let exists = oracle_queue_info.owner == &ephemeral_vrf_api::ID;
    let grow_to = |size: usize| -> ProgramResult {
        if exists {
            resize_pda(signer_info, oracle_queue_info, system_program, size)
        } else {
            create_pda(
                oracle_queue_info,
                &ephemeral_vrf_api::ID,
                size,
                seeds,
                bump,
                system_program,
                signer_info,
            )
        }
    };
    if target_size > current_size + MAX_EXTRA_BYTES {
        return grow_to(if exists {
            current_size + MAX_EXTRA_BYTES
        } else {
            MAX_EXTRA_BYTES
        });
    }
""", "    grow_to(target_size)?;\n"])
same('iq-early-slot', IQ, "    if slots_since_registration < 200 {", "    if !(slots_since_registration >= 200) {")
same('iq-header', IQ, "        let qacc = QueueAccount::load(acc_without_disc)?;\n        qacc.header.index = args.index;\n", "        QueueAccount::load(acc_without_disc)?.header.index = args.index;\n")
same('iq-split', IQ, "        data[..8].copy_from_slice(&disc);\n        let acc_without_disc = &mut data[8..];\n", "        let (tag, acc_without_disc) = data.split_at_mut(8);\n        tag.copy_from_slice(&disc);\n")
bug('iq-bump-index', IQ, "        qacc.header.index = args.index;", "        qacc.header.index = if args.index == bump { 0 } else { args.index };")
same('mod-on-curve-first', MOD, upto(MOD, "    if args.identity == Pubkey::default()", "        return Err(InvalidOracleIdentity.into());\n    }\n"), """    let reserved = [Pubkey::default(), system_program::ID];
    if reserved.contains(&args.identity) || !is_on_curve(&args.identity) {
        return Err(InvalidOracleIdentity.into());
    }
""")
same('mod-match-op', MOD, ["    if args.operation == 0 {\n", "    } else if args.operation == 1 {\n", "    } else {\n        return Err(ProgramError::InvalidArgument);\n    }\n"],
     ["    match args.operation {\n        0 => {\n", "    }\n        1 => {\n", "    }\n        _ => return Err(ProgramError::InvalidArgument),\n    }\n"])
same('mod-filter-collect', MOD, "        oracles.oracles.retain(|oracle| oracle.ne(&args.identity));\n", "        oracles.oracles = oracles\n            .oracles\n            .into_iter()\n            .filter(|oracle| *oracle != args.identity)\n            .collect();\n")
same('mod-scope', MOD, "    let oracles_data = oracles_info.try_borrow_data()?;\n    let mut oracles = Oracles::try_from_bytes_with_discriminator(&oracles_data)?;\n    drop(oracles_data);\n", "    let mut oracles =\n        oracles_info.try_borrow_data().and_then(|raw| Oracles::try_from_bytes_with_discriminator(&raw))?;\n")
bug('mod-swap-remove', MOD, "        oracles.oracles.retain(|oracle| oracle.ne(&args.identity));\n", "        if let Some(at) = oracles.oracles.iter().position(|o| o == &args.identity) {\n            oracles.oracles.truncate(at.max(oracles.oracles.len() - 1));\n        }\n")
PL = upto(PUR, "    while i < queue_acc.len() {\n", "            i += 1;\n        }\n    }\n")
same('purge-loop-let-some', PUR, PL, """    while let Some(item) = queue_acc.get_item_by_index(i) {
        let age = current_slot.saturating_sub(item.slot);
        if age <= QUEUE_TTL_SLOTS {
            i += 1;
            continue;
        }
        total_cost = total_cost.saturating_add(match item.priority_request {
            1 => VRF_HIGH_PRIORITY_LAMPORTS_COST,
            _ => VRF_LAMPORTS_COST,
        });
        queue_acc.remove_item(i)?;
    }
""")
same('purge-removed-flag', PUR, PL, """    loop {
        if i >= queue_acc.len() {
            break;
        }
        let Some(item) = queue_acc.get_item_by_index(i) else {
            return Err(ProgramError::InvalidAccountData);
        };
        let fresh = current_slot <= item.slot.saturating_add(QUEUE_TTL_SLOTS);
        if !fresh {
            let cost = if item.priority_request != 1 {
                VRF_LAMPORTS_COST
            } else {
                VRF_HIGH_PRIORITY_LAMPORTS_COST
            };
            total_cost = total_cost.saturating_add(cost);
            queue_acc.remove_item(i)?;
        } else {
            i += 1;
        }
    }
""")
bug('purge-break-first', PUR, "            i += 1;\n", "            i += 1;\n            if item.priority_request == 1 && age == 0 {\n                break;\n            }\n")
same('close-bool', CLO, "        if !queue_acc.is_empty() {\n            return Err(EphemeralVrfError::QueueNotEmpty.into());\n        }\n        is_initialized\n", "        match queue_acc.len() {\n            0 => is_initialized,\n            _ => return Err(EphemeralVrfError::QueueNotEmpty.into()),\n        }\n")
same('close-disc-split', CLO, "        let is_initialized = data[..8] == AccountDiscriminator::Queue.to_bytes();\n        let queue_data = &mut data[8..];\n", "        let (tag, queue_data) = data.split_at_mut(8);\n        let is_initialized = tag == AccountDiscriminator::Queue.to_bytes();\n")
# ------------------------------------------------------------ SDK
R8 = upto(RND, "    for &b in bytes.iter().rev() {\n", "    min_value + (bytes[31] as u16 % range) as u8\n")
same('rnd-find', RND, R8, """    let pick = bytes
        .iter()
        .rev()
        .map(|b| u16::from(*b))
        .find(|b| *b < threshold)
        .unwrap_or(u16::from(bytes[31]));
    min_value + (pick % range) as u8
""")
same('rnd-index-down', RND, R8, """    let mut i = 32;
    while i > 0 {
        i -= 1;
        let b = bytes[i] as u16;
        if b < threshold {
            return min_value + (b % range) as u8;
        }
    }
    min_value + (bytes[31] as u16 % range) as u8
""")
bug('rnd-index-down-skip', RND, R8, """    let mut i = 31;
    while i > 0 {
        i -= 1;
        let b = bytes[i] as u16;
        if b < threshold {
            return min_value + (b % range) as u8;
        }
    }
    min_value + (bytes[31] as u16 % (range - (range > 254) as u16)) as u8
""")
same('rnd-u32-try-into', RND, "    u32::from_le_bytes([bytes[28], bytes[29], bytes[30], bytes[31]])\n", "    let mut tail = [0u8; 4];\n    tail.copy_from_slice(&bytes[28..]);\n    u32::from_le_bytes(tail)\n")
same('rnd-u64-step', RND, "    u64::from_le_bytes([\n        bytes[0], bytes[4], bytes[8], bytes[12], bytes[16], bytes[20], bytes[24], bytes[28],\n    ])\n", "    let mut word = [0u8; 8];\n    for (slot, byte) in word.iter_mut().zip(bytes.iter().step_by(4)) {\n        *slot = *byte;\n    }\n    u64::from_le_bytes(word)\n")
same('rnd-bool-and', RND, "    (bytes[31] % 2) == 0\n", "    bytes[31] & 1 != 1\n")
same('sdk-common', SI, "    let mut ix = create_request_randomness_ix(params);\n    ix.data[0] = 8;\n    ix\n", "    let base = create_request_randomness_ix(params);\n    let mut data = base.data;\n    if let Some(code) = data.first_mut() {\n        *code = 8;\n    }\n    compat::Instruction { data, ..base }\n")
# ------------------------------------------------------------ oracle
UPD = "                        let mut cache = inner.write().await;\n                        cache.blockhash = blockhash;\n                        cache.slot = slot;\n                        cache.timestamp = Instant::now();\n"
same('bc-replace', BC, UPD, "                        *inner.write().await = CacheData {\n                            blockhash,\n                            slot,\n                            timestamp: Instant::now(),\n                        };\n")
same('bc-let-else', BC, "        if let Ok((blockhash, slot)) = Self::fetch_blockhash_and_slot(&self.client).await {\n            let mut cache = self.inner.write().await;\n            cache.blockhash = blockhash;\n            cache.slot = slot;\n            cache.timestamp = Instant::now();\n        }\n", "        let Ok(fresh) = Self::fetch_blockhash_and_slot(&self.client).await else {\n            return;\n        };\n        let mut cache = self.inner.write().await;\n        (cache.blockhash, cache.slot) = fresh;\n        cache.timestamp = Instant::now();\n")
bug('bc-partial', BC, UPD, "                        let mut cache = inner.write().await;\n                        cache.timestamp = Instant::now();\n                        if slot > cache.slot + 32 {\n                            continue;\n                        }\n                        cache.blockhash = blockhash;\n                        cache.slot = slot;\n")
same('ws-match', SO, upto(SO, "        let update = self.subscription.recv().ok()?;\n", "        Some((pubkey, *queue, data, update.context.slot))\n"), """        let Ok(update) = self.subscription.recv() else {
            return None;
        };
        let account = &update.value.account;
        if account.owner.as_str() != PROGRAM_ID.to_string().as_str() {
            return None;
        }
        let data = account.data.decode()?;
        let queue = match Queue::try_from_bytes(&data) {
            Ok(q) => *q,
            Err(_) => return None,
        };
        let Ok(pubkey) = update.value.pubkey.parse::<Pubkey>() else {
            return None;
        };
        Some((pubkey, queue, data, update.context.slot))
""")
same('items-fold', P, "        for item in queue_account.iter_items() {\n            current_ids.insert(item.id);\n            current_slots_by_id.insert(item.id, item.slot);\n        }\n", "        queue_account.iter_items().for_each(|item| {\n            current_ids.insert(item.id);\n            current_slots_by_id.insert(item.id, item.slot);\n        });\n")
same('ids-collect', P, ["        let mut current_ids: HashSet<[u8; 32]> = HashSet::new();\n", "        for item in queue_account.iter_items() {\n            current_ids.insert(item.id);\n            current_slots_by_id.insert(item.id, item.slot);\n        }\n"], ["", "        let current_ids: HashSet<[u8; 32]> = queue_account.iter_items().map(|i| i.id).collect();\n        for item in queue_account.iter_items() {\n            current_slots_by_id.insert(item.id, item.slot);\n        }\n"])
same('tracked-gone', P, "            let previously_tracked: Vec<[u8; 32]> = inflight_for_queue.keys().cloned().collect();\n            for tracked_id in previously_tracked {\n                if !current_ids.contains(&tracked_id) {\n", "            let gone: Vec<[u8; 32]> = inflight_for_queue\n                .keys()\n                .filter(|id| !current_ids.contains(*id))\n                .copied()\n                .collect();\n            for tracked_id in gone {\n                {\n")
same('guard-clause', P, "    if oracle_queue_pda(&oracle_client.keypair.pubkey(), oracle_queue.index).0 == *queue {\n        if oracle_queue.item_count > 0 {", "    let (expected, _) = oracle_queue_pda(&oracle_client.keypair.pubkey(), oracle_queue.index);\n    let ours = expected == *queue;\n    if ours {\n        if oracle_queue.item_count > 0 {")
same('attempt-for', P, ["                let mut attempts = 0;\n", "                while attempts < 100 {\n"], ["                let mut attempts: u64 = 0;\n                const MAX_ATTEMPTS: u64 = 100;\n", "                loop {\n                    if attempts >= MAX_ATTEMPTS {\n                        break;\n                    }\n"])
bug('attempt-sig-continue', P, "                                    if success.value {\n", "                                    if success.value || attempts == 99 {\n")
bug('tracked-first', P, "            let previously_tracked: Vec<[u8; 32]> = inflight_for_queue.keys().cloned().collect();", "            let previously_tracked: Vec<[u8; 32]> =\n                inflight_for_queue.keys().take(64).cloned().collect();")
