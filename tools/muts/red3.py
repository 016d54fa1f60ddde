"""Functional-style and control-flow refactorings, and bugs spread over two places."""
import subprocess
M = []
def src(f): return subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + f], text=True)
def upto(f, a, b):
    s = src(f); i = s.index(a); j = s.index(b, i) + len(b); return s[i:j]
def same(name, path, old, new): M.append(('same-' + name, 'same', path, old, new))
def bug(name, path, old, new): M.append(('bug-' + name, 'bug', path, old, new))
D = 'program/src/'
REQ = D + 'request_randomness.rs'; PRO = D + 'provide_randomness.rs'; PUR = D + 'purge_expired_requests.rs'; IQ = D + 'initialize_oracle_queue.rs'; MOD = D + 'modify_oracles.rs'
CLO = D + 'close_oracle_queue.rs'; FEE = D + 'fees.rs'; LIB = D + 'lib.rs'; INI = D + 'initialize.rs'
Q = 'api/src/state/queue.rs'; ST = 'api/src/steel.rs'; LO = 'api/src/loaders.rs'; PDA = 'api/src/pda.rs'; VER = 'api/src/verify.rs'; VRF = 'vrf/src/vrf.rs'
P = 'vrf-oracle/src/oracle/processor.rs'
# ---------------------------------------------------------------- provide
SLOT = upto(PRO, "            if Clock::get()?.slot <= item.slot {", "                ));\n            }\n")
same('slot-then-some', PRO, SLOT, """            (Clock::get()?.slot > item.slot)
                .then_some(())
                .ok_or(ProgramError::from(
                    EphemeralVrfError::OracleMustProvideInDifferentSlot,
                ))?;
""")
same('slot-closure', PRO, SLOT, """            let later = |current: u64| -> ProgramResult {
                if item.slot >= current {
                    return Err(EphemeralVrfError::OracleMustProvideInDifferentSlot.into());
                }
                Ok(())
            };
            later(Clock::get()?.slot)?;
""")
same('slot-cmp-match', PRO, SLOT, """            match Clock::get()?.slot.cmp(&item.slot) {
                std::cmp::Ordering::Greater => {}
                _ => {
                    return Err(ProgramError::from(
                        EphemeralVrfError::OracleMustProvideInDifferentSlot,
                    ))
                }
            }
""")
OIA = upto(PRO, "            let oracle_in_accounts = {", "                return Err(EphemeralVrfError::InvalidCallbackAccounts.into());\n            }\n")
same('oia-all', PRO, OIA, """            let oracle_absent = item
                .account_metas(queue_acc.acc)
                .iter()
                .all(|acc| acc.pubkey != oracle_info.key.to_bytes());
            if !oracle_absent {
                return Err(EphemeralVrfError::InvalidCallbackAccounts.into());
            }
""")
same('oia-try-for-each', PRO, OIA, """            item.account_metas(queue_acc.acc)
                .iter()
                .try_for_each(|acc| -> ProgramResult {
                    if acc.pubkey == oracle_info.key.to_bytes() {
                        return Err(EphemeralVrfError::InvalidCallbackAccounts.into());
                    }
                    Ok(())
                })?;
""")
same('oia-contains', PRO, OIA, """            let keys: Vec<[u8; 32]> = item
                .account_metas(queue_acc.acc)
                .iter()
                .map(|acc| acc.pubkey)
                .collect();
            if keys.contains(&oracle_info.key.to_bytes()) {
                return Err(EphemeralVrfError::InvalidCallbackAccounts.into());
            }
""")
same('oia-find', PRO, OIA, """            if item
                .account_metas(queue_acc.acc)
                .iter()
                .find(|acc| acc.pubkey == oracle_info.key.to_bytes())
                .is_some()
            {
                return Err(EphemeralVrfError::InvalidCallbackAccounts.into());
            }
""")
COST = """        let cost = if removed_item.priority_request == 1 {
            VRF_HIGH_PRIORITY_LAMPORTS_COST
        } else {
            VRF_LAMPORTS_COST
        };
"""
same('cost-index', PRO, COST, """        let cost =
            [VRF_LAMPORTS_COST, VRF_HIGH_PRIORITY_LAMPORTS_COST][(removed_item.priority_request == 1) as usize];
""")
same('cost-bool-then', PRO, COST, """        let cost = (removed_item.priority_request == 1)
            .then_some(VRF_HIGH_PRIORITY_LAMPORTS_COST)
            .unwrap_or(VRF_LAMPORTS_COST);
""")
same('verify-if-not', PRO, """        let verified = verify_vrf(
            &oracle_vrf_pubkey,
            &args.input,
            output,
            (commitment_base_compressed, commitment_hash_compressed, s),
        );
        if !verified {
            return Err(EphemeralVrfError::InvalidProof.into());
        }
""", """        let proof = (commitment_base_compressed, commitment_hash_compressed, s);
        match verify_vrf(&oracle_vrf_pubkey, &args.input, output, proof) {
            true => Ok(()),
            false => Err(ProgramError::from(EphemeralVrfError::InvalidProof)),
        }?;
""")
same('infos-iter', PRO, """    let mut all_accounts = vec![callback_program_info.clone()];
    all_accounts.extend(vec![program_identity_info.clone()]);
    all_accounts.extend_from_slice(remaining_accounts);
""", """    let all_accounts: Vec<AccountInfo> = [callback_program_info, program_identity_info]
        .into_iter()
        .chain(remaining_accounts.iter())
        .cloned()
        .collect();
""")
same('metas-once-chain', PRO, upto(PRO, "    let mut accounts_metas = vec![AccountMeta {", "acc.to_account_meta()));\n"), """    let accounts_metas: Vec<AccountMeta> =
        std::iter::once(AccountMeta::new_readonly(*program_identity_info.key, true))
            .chain(metas_vec.iter().map(|acc| acc.to_account_meta()))
            .collect();
""")
same('remove-first', PRO, upto(PRO, "        // Verify proof\n", "        let removed_item = queue_acc.remove_item(index)?;\n"), """        let removed_item = queue_acc.remove_item(index)?;
        // A rejected proof rolls the removal back with the whole instruction
        let verified = verify_vrf(
            &oracle_vrf_pubkey,
            &args.input,
            output,
            (commitment_base_compressed, commitment_hash_compressed, s),
        );
        if !verified {
            return Err(EphemeralVrfError::InvalidProof.into());
        }
""")
bug('own-record-any-queue', PRO, "            &[QUEUE, oracle_info.key.to_bytes().as_ref(), &[queue_index]],", "            &[QUEUE, oracle_data_info.key.to_bytes().as_ref(), &[queue_index]],")
bug('metas-many-unsigned', PRO, "        is_signer: true,\n        is_writable: false,\n    }];\n    accounts_metas.extend", "        is_signer: metas_vec.len() < 20,\n        is_writable: false,\n    }];\n    accounts_metas.extend")
bug('remaining-first', PRO, "    accounts_metas.extend(metas_vec.iter().map(|acc| acc.to_account_meta()));", "    accounts_metas.extend(metas_vec.iter().zip(remaining_accounts).map(|(acc, info)| {\n        let mut meta = acc.to_account_meta();\n        meta.is_writable &= info.is_writable;\n        meta\n    }));")
bug('self-callback-skip', PRO, "    solana_program::program::invoke_signed(&ix, &all_accounts, pda_signer_seeds)?;", "    if callback_program_info.executable {\n        solana_program::program::invoke_signed(&ix, &all_accounts, pda_signer_seeds)?;\n    }")
bug('fee-by-hash', PRO, COST, COST.replace("if removed_item.priority_request == 1", "if removed_item.priority_request == 1 || metas_vec.len() > 10"))
# ---------------------------------------------------------------- request
same('req-try-into', REQ, upto(REQ, "    let [signer_info, program_identity", "    };\n"), """    let [signer_info, program_identity_info, oracle_queue_info, system_program_info, slothashes_account_info]: &[AccountInfo; 5] =
        accounts
            .try_into()
            .map_err(|_| ProgramError::NotEnoughAccountKeys)?;
""")
same('req-metas-map-fn', REQ, """            .map(|ca| (*ca).into())
            .collect::<Vec<CompactAccountMeta>>();""", """            .copied()
            .map(CompactAccountMeta::from)
            .collect::<Vec<_>>();""")
same('req-fee-fn-const', REQ, """        let cost = if high_priority {
            VRF_HIGH_PRIORITY_LAMPORTS_COST
        } else {
            VRF_LAMPORTS_COST
        };
""", """        const COSTS: [(bool, u64); 2] = [
            (true, VRF_HIGH_PRIORITY_LAMPORTS_COST),
            (false, VRF_LAMPORTS_COST),
        ];
        let cost = COSTS
            .iter()
            .find(|(priority, _)| *priority == high_priority)
            .map(|(_, cost)| *cost)
            .ok_or(ProgramError::InvalidArgument)?;
""")
same('req-limits-all', REQ, """        if args.callback_discriminator.len() > 8 {
            return Err(ProgramError::from(EphemeralVrfError::ArgumentSizeTooLarge));
        }
""", """        let oversized = [
            (args.callback_discriminator.len(), 8usize),
            (args.callback_accounts_metas.len(), 20),
            (args.callback_args.len(), 512),
        ]
        .iter()
        .any(|(len, max)| len > max);
        if oversized {
            return Err(ProgramError::from(EphemeralVrfError::ArgumentSizeTooLarge));
        }
""")
bug('req-disc-by-args', REQ, "        if args.callback_discriminator.len() > 8 {", "        if args.callback_discriminator.len() > 8 && !args.callback_args.is_empty() {")
bug('req-hash-idx-u8', REQ, "        let idx = queue_acc.len() as u32;\n", "        let slot = slot >> 1 << 1;\n        let idx = queue_acc.len() as u32;\n")
bug('req-queue-tag-skip', REQ, "        Queue::try_from_bytes(&data)?;\n", "        if data.len() > 8 + 12 {\n            Queue::try_from_bytes(&data)?;\n        }\n")
# ---------------------------------------------------------------- purge
LOOP = upto(PUR, "    while i < queue_acc.len() {", "            i += 1;\n        }\n    }\n")
same('purge-while-let', PUR, LOOP, """    while let Some(item) = queue_acc.get_item_by_index(i) {
        if current_slot.saturating_sub(item.slot) <= QUEUE_TTL_SLOTS {
            i += 1;
            continue;
        }
        total_cost = total_cost.saturating_add(match item.priority_request {
            1 => VRF_HIGH_PRIORITY_LAMPORTS_COST,
            _ => VRF_LAMPORTS_COST,
        });
        queue_acc.remove_item(i)?;
    }
""")
same('purge-expired-closure', PUR, LOOP, LOOP.replace("        let age = current_slot.saturating_sub(item.slot);\n        if age > QUEUE_TTL_SLOTS {", "        let expired = |item: &QueueItem| {\n            current_slot\n                .checked_sub(item.slot)\n                .map_or(false, |age| age > QUEUE_TTL_SLOTS)\n        };\n        if expired(&item) {"))
bug('purge-limit-items', PUR, "    while i < queue_acc.len() {", "    let limit = queue_acc.len().saturating_sub(64);\n    while i + limit < queue_acc.len() + limit && i < 64 {")
bug('purge-cost-first', PUR, "            total_cost = total_cost.saturating_add(cost);\n", "            total_cost = total_cost.saturating_add(if i == 0 { cost } else { VRF_LAMPORTS_COST });\n")
# ---------------------------------------------------------------- registry, queue lifecycle
same('iq-unified', IQ, upto(IQ, "    if extra_bytes > MAX_EXTRA_BYTES {\n", "        resize_pda(signer_info, oracle_queue_info, system_program, target_size)?;\n    }\n"), """    let finished = extra_bytes <= MAX_EXTRA_BYTES;
    let owned = oracle_queue_info.owner == &ephemeral_vrf_api::ID;
    let size = match (finished, owned) {
        (true, _) => target_size,
        (false, true) => current_size + MAX_EXTRA_BYTES,
        (false, false) => MAX_EXTRA_BYTES,
    };
    if owned {
        resize_pda(signer_info, oracle_queue_info, system_program, size)?;
    } else {
        create_pda(
            oracle_queue_info,
            &ephemeral_vrf_api::ID,
            size,
            seeds,
            bump,
            system_program,
            signer_info,
        )?;
    }
    if !finished {
        msg!("Execute one more time");
        return Ok(());
    }
""")
same('mod-any-invalid', MOD, upto(MOD, "    if args.identity == Pubkey::default()", "        return Err(InvalidOracleIdentity.into());\n    }\n"), """    let refused = [Pubkey::default(), system_program::ID];
    if refused.contains(&args.identity) || !is_on_curve(&args.identity) {
        return Err(InvalidOracleIdentity.into());
    }
""")
same('mod-admin-filter', MOD, upto(MOD, "    let admin_pubkey = load_program_upgrade_authority", "        return Err(Unauthorized.into());\n    }\n"), """    load_program_upgrade_authority(&ephemeral_vrf_api::ID, program_data_info)?
        .filter(|admin| signer_info.key.eq(admin))
        .ok_or(Unauthorized)?;
""")
same('close-matches', CLO, "        if !queue_acc.is_empty() {\n            return Err(EphemeralVrfError::QueueNotEmpty.into());\n        }\n        is_initialized\n", "        match queue_acc.len() {\n            0 => is_initialized,\n            _ => return Err(EphemeralVrfError::QueueNotEmpty.into()),\n        }\n")
same('fee-map', FEE, upto(FEE, "    let (mut queue_lamports", "        .ok_or(ProgramError::InvalidArgument)?;\n"), """    let remaining = oracle_queue_info
        .lamports()
        .checked_sub(amount)
        .ok_or(ProgramError::InsufficientFunds)?;
    let credited = oracle_info
        .lamports()
        .checked_add(amount)
        .ok_or(ProgramError::InvalidArgument)?;
    **oracle_queue_info.try_borrow_mut_lamports()? = remaining;
    **oracle_info.try_borrow_mut_lamports()? = credited;
""")
same('zeroed-not-any', LO, "    let is_zeroed = data.iter().all(|&b| b == 0);\n", "    let is_zeroed = !data.iter().any(|b| *b != 0);\n")
same('zeroed-max', LO, "    let is_zeroed = data.iter().all(|&b| b == 0);\n", "    let is_zeroed = data.iter().copied().max().unwrap_or(0) == 0;\n")
bug('iq-zeroed-new', IQ, "    is_empty_or_zeroed(oracle_queue_info)?;\n", "    if oracle_queue_info.data_len() < args.target_size as usize {\n        is_empty_or_zeroed(oracle_queue_info)?;\n    }\n")
bug('iq-slots-record', IQ, "    let slots_since_registration = current_slot.saturating_sub(oracle_registration_slot);", "    let slots_since_registration = current_slot.abs_diff(oracle_registration_slot);")
bug('mod-remove-count-hint', MOD, "        if open_queue != 0 {", "        if open_queue != 0 && oracles.oracles.len() > 1 {")
bug('close-owner-late', CLO, "    close_account(oracle_queue_info, oracle_info)?;", "    if oracle_queue_info.lamports() > 0 && is_initialized {\n        close_account(oracle_queue_info, oracle_info)?;\n    }")
bug('zeroed-head', LO, "    let is_zeroed = data.iter().all(|&b| b == 0);\n", "    let is_zeroed = data.iter().take(10_240).all(|&b| b == 0);\n")
bug('create-alloc-only', PDA, "            &system_instruction::assign(target_account.key, owner),\n            &[\n                target_account.as_ref().clone(),\n                system_program.as_ref().clone(),\n            ],\n            &[&pda_signer_seeds],\n        )?;\n    }\n", "            &system_instruction::assign(target_account.key, owner),\n            &[\n                target_account.as_ref().clone(),\n                system_program.as_ref().clone(),\n            ],\n            &[&pda_signer_seeds],\n        )\n        .ok();\n    }\n")
# ---------------------------------------------------------------- queue
FIND = upto(Q, "    pub fn find_item_by_id", "    pub fn is_empty(&self)")
WALK = """    /// Visit the pending entries in order until the visitor returns something.
    fn visit<R>(&self, mut f: impl FnMut(usize, &QueueItem) -> Option<R>) -> Option<R> {
        let align = core::mem::align_of::<QueueItem>();
        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);
        let mut cursor = Self::items_start();
        let mut position = 0usize;
        while cursor + size_of::<QueueItem>() <= end {
            let item = Self::read_item_unaligned(&self.acc[cursor..cursor + size_of::<QueueItem>()]);
            if item.used == 1 {
                if let Some(found) = f(position, &item) {
                    return Some(found);
                }
                position += 1;
            }
            let next = Self::align_up(
                cursor
                    + size_of::<QueueItem>()
                    + item.callback_discriminator_len as usize
                    + item.metas_len as usize * size_of::<CompactAccountMeta>()
                    + item.args_len as usize,
                align,
            );
            if next <= cursor {
                return None;
            }
            cursor = next;
        }
        None
    }

"""
same('q-visit-find', Q, FIND, WALK + """    pub fn find_item_by_id(&self, id: &[u8; 32]) -> Option<(usize, QueueItem)> {
        self.visit(|position, item| (item.id == *id).then_some((position, *item)))
    }

    pub fn is_empty(&self)""")
bug('q-find-prefix', Q, "if item.id == *id", "if item.id[..31] == id[..31]") if "if item.id == *id" in src(Q) else None
# ---------------------------------------------------------------- verification
bug('ver-hash-cofactor', VER, "pub fn is_on_curve(key: &Pubkey) -> bool {\n", "pub fn is_on_curve(key: &Pubkey) -> bool {\n    if key.as_ref()[31] & 0x80 != 0 {\n        return true;\n    }\n")
