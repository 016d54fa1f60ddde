D='program/src/'
INI=D+'initialize.rs'; MOD=D+'modify_oracles.rs'; IQ=D+'initialize_oracle_queue.rs'; REQ=D+'request_randomness.rs'; PRO=D+'provide_randomness.rs'
CLO=D+'close_oracle_queue.rs'; PUR=D+'purge_expired_requests.rs'; DEL=D+'delegate_oracle_queue.rs'; UND=D+'undelegate_oracle_queue.rs'; PUN=D+'process_undelegation.rs'; LIB=D+'lib.rs'; FEE=D+'fees.rs'
VER='api/src/verify.rs'; LOA='api/src/loaders.rs'; STE='api/src/steel.rs'
M=[
# ---------------- behaviour-preserving
('same-req-fee-helper','same',REQ,["""    // Transfer request cost to the queue PDA (unless we are using the default ephemeral queue)
    if oracle_queue_info.key.ne(&DEFAULT_EPHEMERAL_QUEUE) {
        let cost = if high_priority {
            VRF_HIGH_PRIORITY_LAMPORTS_COST
        } else {
            VRF_LAMPORTS_COST
        };
        invoke(
            &system_instruction::transfer(signer_info.key, oracle_queue_info.key, cost),
            &[
                signer_info.clone(),
                oracle_queue_info.clone(),
                system_program_info.clone(),
            ],
        )?;
    }

    Ok(())
}
"""],["""    charge(signer_info, oracle_queue_info, system_program_info, high_priority)
}

fn request_cost(high_priority: bool) -> u64 {
    match high_priority {
        true => VRF_HIGH_PRIORITY_LAMPORTS_COST,
        false => VRF_LAMPORTS_COST,
    }
}

fn charge<'a>(
    from: &AccountInfo<'a>,
    queue: &AccountInfo<'a>,
    system: &AccountInfo<'a>,
    high_priority: bool,
) -> ProgramResult {
    if *queue.key == DEFAULT_EPHEMERAL_QUEUE {
        return Ok(());
    }
    let ix = system_instruction::transfer(from.key, queue.key, request_cost(high_priority));
    invoke(&ix, &[from.clone(), queue.clone(), system.clone()])
}
"""]),
('same-req-fee-first','same',REQ,["""    // Transfer request cost to the queue PDA (unless we are using the default ephemeral queue)
    if oracle_queue_info.key.ne(&DEFAULT_EPHEMERAL_QUEUE) {
        let cost = if high_priority {
            VRF_HIGH_PRIORITY_LAMPORTS_COST
        } else {
            VRF_LAMPORTS_COST
        };
        invoke(
            &system_instruction::transfer(signer_info.key, oracle_queue_info.key, cost),
            &[
                signer_info.clone(),
                oracle_queue_info.clone(),
                system_program_info.clone(),
            ],
        )?;
    }

    Ok(())
""","""    {
        // Borrow queue account data and load QueueAccount view
"""],["    Ok(())\n","""    if oracle_queue_info.key.ne(&DEFAULT_EPHEMERAL_QUEUE) {
        let cost = if high_priority {
            VRF_HIGH_PRIORITY_LAMPORTS_COST
        } else {
            VRF_LAMPORTS_COST
        };
        invoke(
            &system_instruction::transfer(signer_info.key, oracle_queue_info.key, cost),
            &[
                signer_info.clone(),
                oracle_queue_info.clone(),
                system_program_info.clone(),
            ],
        )?;
    }
    {
        // Borrow queue account data and load QueueAccount view
"""]),
('same-req-hash-helper','same',REQ,["""        let combined_hash = hashv(&[
            &args.caller_seed,
            &slot.to_le_bytes(),
            &slothash,
            &args.callback_discriminator,
            &args.callback_program_id.to_bytes(),
            &time.to_le_bytes(),
            &idx.to_le_bytes(),
        ]);
""","            id: combined_hash.to_bytes(),","pub fn process_request_randomness("],["        let id = request_id(&args, slot, &slothash, time, idx);\n","            id,","""fn request_id(args: &RequestRandomness, slot: u64, slothash: &[u8], time: i64, idx: u32) -> [u8; 32] {
    let mut pre = Vec::new();
    pre.extend_from_slice(&args.caller_seed);
    pre.extend_from_slice(&slot.to_le_bytes());
    pre.extend_from_slice(slothash);
    pre.extend_from_slice(&args.callback_discriminator);
    pre.extend_from_slice(args.callback_program_id.as_ref());
    pre.extend_from_slice(&time.to_le_bytes());
    pre.extend_from_slice(&idx.to_le_bytes());
    solana_program::hash::hash(&pre).to_bytes()
}
pub fn process_request_randomness("""]+["use solana_program::hash::hashv;\n"] if 0 else ["        let id = request_id(&args, slot, &slothash, time, idx);\n","            id,","""fn request_id(args: &RequestRandomness, slot: u64, slothash: &[u8], time: i64, idx: u32) -> [u8; 32] {
    hashv(&[
        &args.caller_seed,
        &slot.to_le_bytes(),
        slothash,
        &args.callback_discriminator,
        args.callback_program_id.as_ref(),
        &time.to_le_bytes(),
        &idx.to_le_bytes(),
    ])
    .to_bytes()
}
pub fn process_request_randomness("""]),
('same-req-hash-concat','same',REQ,["""        let combined_hash = hashv(&[
            &args.caller_seed,
            &slot.to_le_bytes(),
            &slothash,
            &args.callback_discriminator,
            &args.callback_program_id.to_bytes(),
            &time.to_le_bytes(),
            &idx.to_le_bytes(),
        ]);
""","use solana_program::hash::hashv;"],["""        let mut pre = Vec::new();
        pre.extend_from_slice(&args.caller_seed);
        pre.extend_from_slice(&slot.to_le_bytes());
        pre.extend_from_slice(&slothash);
        pre.extend_from_slice(&args.callback_discriminator);
        pre.extend_from_slice(args.callback_program_id.as_ref());
        pre.extend_from_slice(&time.to_le_bytes());
        pre.extend_from_slice(&idx.to_le_bytes());
        let combined_hash = hash(&pre);
""","use solana_program::hash::hash;"]),
('same-req-clock-once','same',REQ,"""    let slot = Clock::get()?.slot;
    let time = Clock::get()?.unix_timestamp;
""","""    let Clock { slot, unix_timestamp: time, .. } = Clock::get()?;
"""),
('same-req-disc-early','same',REQ,["""        // Optionally validate discriminator length to 8 bytes max (borsh Vec allows larger, but callbacks typically use 8)
        if args.callback_discriminator.len() > 8 {
            return Err(ProgramError::from(EphemeralVrfError::ArgumentSizeTooLarge));
        }
""","    // Verify signer\n"],["","""    if args.callback_discriminator.len() > 8 {
        return Err(EphemeralVrfError::ArgumentSizeTooLarge.into());
    }
    // Verify signer
"""]),
('same-req-metas-loop','same',REQ,"""        let metas = args
            .callback_accounts_metas
            .iter()
            .map(|ca| (*ca).into())
            .collect::<Vec<CompactAccountMeta>>();
""","""        let mut metas: Vec<CompactAccountMeta> = Vec::with_capacity(args.callback_accounts_metas.len());
        for ca in &args.callback_accounts_metas {
            metas.push((*ca).into());
        }
"""),
('same-req-slothash-fn','same',REQ,["""    slothashes_account_info.is_sysvar(&slot_hashes::id())?;
    let slothash: [u8; 32] = slothashes_account_info.try_borrow_data()?[16..48]
        .try_into()
        .map_err(|_| ProgramError::UnsupportedSysvar)?;
""","pub fn process_request_randomness("],["    let slothash = latest_slothash(slothashes_account_info)?;\n","""fn latest_slothash(info: &AccountInfo<'_>) -> Result<[u8; 32], ProgramError> {
    info.is_sysvar(&slot_hashes::id())?;
    let data = info.try_borrow_data()?;
    let mut out = [0u8; 32];
    out.copy_from_slice(&data[16..48]);
    Ok(out)
}
pub fn process_request_randomness("""]),
('same-req-default-item','same',REQ,["            priority_request: high_priority as u8,"],["            priority_request: if high_priority { 1 } else { 0 },"]),
('same-prov-reorder','same',PRO,["""        // Verify proof
        let verified = verify_vrf(
            &oracle_vrf_pubkey,
            &args.input,
            output,
            (commitment_base_compressed, commitment_hash_compressed, s),
        );
        if !verified {
            return Err(EphemeralVrfError::InvalidProof.into());
        }
""","    let removed_item_and_buf = {\n"],["","""    if !verify_vrf(
        &oracle_vrf_pubkey,
        &args.input,
        output,
        (commitment_base_compressed, commitment_hash_compressed, s),
    ) {
        return Err(EphemeralVrfError::InvalidProof.into());
    }
    let removed_item_and_buf = {
"""]),
('same-prov-any-loop','same',PRO,"""            let oracle_in_accounts = {
                let metas = item.account_metas(queue_acc.acc);
                metas
                    .iter()
                    .any(|acc| Pubkey::new_from_array(acc.pubkey).eq(oracle_info.key))
            };
            if oracle_in_accounts {
                return Err(EphemeralVrfError::InvalidCallbackAccounts.into());
            }
""","""            for acc in item.account_metas(queue_acc.acc) {
                if acc.pubkey == oracle_info.key.to_bytes() {
                    return Err(EphemeralVrfError::InvalidCallbackAccounts.into());
                }
            }
"""),
('same-prov-callback-fn','same',PRO,["""    let mut accounts_metas = vec![AccountMeta {
        pubkey: *program_identity_info.key,
        is_signer: true,
        is_writable: false,
    }];
    accounts_metas.extend(metas_vec.iter().map(|acc| acc.to_account_meta()));

    let mut callback_data = Vec::with_capacity(disc_vec.len() + output.0.len() + args_vec.len());
    callback_data.extend_from_slice(&disc_vec);
    let rdn = hash(&output.0);
    callback_data.extend_from_slice(rdn.to_bytes().as_ref());
    callback_data.extend_from_slice(&args_vec);

    let ix = Instruction {
        program_id: Pubkey::new_from_array(removed_item.callback_program_id),
        accounts: accounts_metas,
        data: callback_data,
    };
    let mut all_accounts = vec![callback_program_info.clone()];
    all_accounts.extend(vec![program_identity_info.clone()]);
    all_accounts.extend_from_slice(remaining_accounts);
""","pub fn process_provide_randomness("],["""    let ix = callback_ix(
        Pubkey::new_from_array(removed_item.callback_program_id),
        program_identity_info.key,
        &metas_vec,
        [disc_vec.as_slice(), hash(&output.0).as_ref(), args_vec.as_slice()].concat(),
    );
    let all_accounts: Vec<_> = [callback_program_info.clone(), program_identity_info.clone()]
        .into_iter()
        .chain(remaining_accounts.iter().cloned())
        .collect();
""","""fn callback_ix(program_id: Pubkey, identity: &Pubkey, metas: &[CompactAccountMeta], data: Vec<u8>) -> Instruction {
    let accounts = std::iter::once(AccountMeta::new_readonly(*identity, true))
        .chain(metas.iter().map(|m| m.to_account_meta()))
        .collect();
    Instruction { program_id, accounts, data }
}

pub fn process_provide_randomness("""]),
('same-prov-fee-match','same',PRO,"""    if oracle_queue_info.key.ne(&DEFAULT_EPHEMERAL_QUEUE) {
        let cost = if removed_item.priority_request == 1 {
            VRF_HIGH_PRIORITY_LAMPORTS_COST
        } else {
            VRF_LAMPORTS_COST
        };
        crate::fees::transfer_fee(oracle_queue_info, oracle_info, cost)?;
    }

    Ok(())
""","""    if oracle_queue_info.key == &DEFAULT_EPHEMERAL_QUEUE {
        return Ok(());
    }
    let cost = match removed_item.priority_request {
        1 => VRF_HIGH_PRIORITY_LAMPORTS_COST,
        _ => VRF_LAMPORTS_COST,
    };
    crate::fees::transfer_fee(oracle_queue_info, oracle_info, cost)
"""),
('same-prov-slot-first','same',PRO,["""            // Ensure that fulfillment happens in a different (later) slot than the request
            if Clock::get()?.slot <= item.slot {
                return Err(ProgramError::from(
                    EphemeralVrfError::OracleMustProvideInDifferentSlot,
                ));
            }
""","""            // Check that the oracle signer is not in the vrf-macro accounts
"""],["","""            let now = Clock::get()?.slot;
            if !(now > item.slot) {
                return Err(EphemeralVrfError::OracleMustProvideInDifferentSlot.into());
            }
"""]),
('same-prov-capture-before','same',PRO,["""        let removed_item = queue_acc.remove_item(index)?;
        let metas = removed_item.account_metas(queue_acc.acc).to_vec();
        let disc = removed_item.callback_discriminator(queue_acc.acc).to_vec();
        let args_bytes = removed_item.callback_args(queue_acc.acc).to_vec();
        (removed_item, metas, disc, args_bytes)
""","        let (index, _item) = {"],["""        let metas = item.account_metas(queue_acc.acc).to_vec();
        let disc = item.callback_discriminator(queue_acc.acc).to_vec();
        let args_bytes = item.callback_args(queue_acc.acc).to_vec();
        queue_acc.remove_item(index)?;
        (item, metas, disc, args_bytes)
""","        let (index, item) = {"]),
('same-purge-for','same',PUR,"""    let mut i: usize = 0;
    msg!("Items in the queue: {}", queue_acc.len());
    while i < queue_acc.len() {
        // Safe to unwrap: index < len()
        let item = queue_acc
            .get_item_by_index(i)
            .ok_or(ProgramError::InvalidAccountData)?;
        let age = current_slot.saturating_sub(item.slot);
        if age > QUEUE_TTL_SLOTS {
            let cost = if item.priority_request == 1 {
                VRF_HIGH_PRIORITY_LAMPORTS_COST
            } else {
                VRF_LAMPORTS_COST
            };
            total_cost = total_cost.saturating_add(cost);
            let _ = queue_acc.remove_item(i)?;
            msg!(
                "Removing item {} from queue, new size {}",
                i,
                queue_acc.len()
            );
            // do not increment i; next item shifts into this index
        } else {
            i += 1;
        }
    }
""","""    let mut i: usize = 0;
    loop {
        if i >= queue_acc.len() {
            break;
        }
        let Some(item) = queue_acc.get_item_by_index(i) else {
            return Err(ProgramError::InvalidAccountData);
        };
        if !expired(&item, current_slot) {
            i += 1;
            continue;
        }
        total_cost = total_cost.saturating_add(cost_of(&item));
        queue_acc.remove_item(i)?;
    }
"""+"",) if 0 else
('same-purge-for','same',PUR,["""    msg!("Items in the queue: {}", queue_acc.len());
    while i < queue_acc.len() {
        // Safe to unwrap: index < len()
        let item = queue_acc
            .get_item_by_index(i)
            .ok_or(ProgramError::InvalidAccountData)?;
        let age = current_slot.saturating_sub(item.slot);
        if age > QUEUE_TTL_SLOTS {
            let cost = if item.priority_request == 1 {
                VRF_HIGH_PRIORITY_LAMPORTS_COST
            } else {
                VRF_LAMPORTS_COST
            };
            total_cost = total_cost.saturating_add(cost);
            let _ = queue_acc.remove_item(i)?;
            msg!(
                "Removing item {} from queue, new size {}",
                i,
                queue_acc.len()
            );
            // do not increment i; next item shifts into this index
        } else {
            i += 1;
        }
    }
""","pub fn process_purge_expired_requests("],["""    loop {
        if i >= queue_acc.len() {
            break;
        }
        let Some(item) = queue_acc.get_item_by_index(i) else {
            return Err(ProgramError::InvalidAccountData);
        };
        if !expired(&item, current_slot) {
            i += 1;
            continue;
        }
        total_cost = total_cost.saturating_add(cost_of(&item));
        queue_acc.remove_item(i)?;
    }
""","""fn expired(item: &QueueItem, now: u64) -> bool {
    now.saturating_sub(item.slot) > QUEUE_TTL_SLOTS
}
fn cost_of(item: &QueueItem) -> u64 {
    if item.priority_request == 1 {
        VRF_HIGH_PRIORITY_LAMPORTS_COST
    } else {
        VRF_LAMPORTS_COST
    }
}
pub fn process_purge_expired_requests("""]),
('same-purge-counts','same',PUR,["    let mut total_cost: u64 = 0;\n","""            let cost = if item.priority_request == 1 {
                VRF_HIGH_PRIORITY_LAMPORTS_COST
            } else {
                VRF_LAMPORTS_COST
            };
            total_cost = total_cost.saturating_add(cost);
""","    // Send the fees to the oracle.\n"],["    let (mut high, mut low) = (0u64, 0u64);\n","""            if item.priority_request == 1 {
                high += 1;
            } else {
                low += 1;
            }
""","""    let total_cost = high * VRF_HIGH_PRIORITY_LAMPORTS_COST + low * VRF_LAMPORTS_COST;
"""]),
('same-purge-removed-item','same',PUR,["""            let cost = if item.priority_request == 1 {
                VRF_HIGH_PRIORITY_LAMPORTS_COST
            } else {
                VRF_LAMPORTS_COST
            };
            total_cost = total_cost.saturating_add(cost);
            let _ = queue_acc.remove_item(i)?;
"""],["""            let gone = queue_acc.remove_item(i)?;
            total_cost = total_cost.saturating_add(match gone.priority_request {
                1 => VRF_HIGH_PRIORITY_LAMPORTS_COST,
                _ => VRF_LAMPORTS_COST,
            });
"""]),
('same-purge-nofee-early','same',PUR,"""    if total_cost > 0 && oracle_queue_info.key.ne(&DEFAULT_EPHEMERAL_QUEUE) {
        crate::fees::transfer_fee(oracle_queue_info, oracle_info, total_cost)?;
    }

    Ok(())
""","""    if total_cost == 0 || oracle_queue_info.key == &DEFAULT_EPHEMERAL_QUEUE {
        return Ok(());
    }
    crate::fees::transfer_fee(oracle_queue_info, oracle_info, total_cost)
"""),
('same-close-guard-fn','same',CLO,["""    let is_initialized = {
        // Borrow data and load QueueAccount view to check emptiness
        let mut data = oracle_queue_info.try_borrow_mut_data()?;
        let is_initialized = data[..8] == AccountDiscriminator::Queue.to_bytes();
        let queue_data = &mut data[8..];
        let queue_acc = QueueAccount::load(queue_data)?;
        if !queue_acc.is_empty() {
            return Err(EphemeralVrfError::QueueNotEmpty.into());
        }
        is_initialized
    };
""","pub fn process_close_oracle_queue("],["    let is_initialized = ensure_empty(oracle_queue_info)?;\n","""fn ensure_empty(info: &AccountInfo) -> Result<bool, ProgramError> {
    let mut data = info.try_borrow_mut_data()?;
    let (tag, body) = data.split_at_mut(8);
    let initialized = tag == AccountDiscriminator::Queue.to_bytes();
    match QueueAccount::load(body)?.len() {
        0 => Ok(initialized),
        _ => Err(EphemeralVrfError::QueueNotEmpty.into()),
    }
}
pub fn process_close_oracle_queue("""]),
('same-close-count-after','same',CLO,["""    // Decrement oracle's open queue count (only fully initialized queues have been counted)
    let mut oracle_data_mut = oracle_data_info.as_account_mut::<Oracle>(&ephemeral_vrf_api::ID)?;
    if is_initialized {
        oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_sub(1);
    }

    close_account(oracle_queue_info, oracle_info)?;
"""],["""    close_account(oracle_queue_info, oracle_info)?;
    let mut oracle_data = oracle_data_info.as_account_mut::<Oracle>(&ephemeral_vrf_api::ID)?;
    if is_initialized && oracle_data.open_queue > 0 {
        oracle_data.open_queue -= 1;
    }
"""]),
('same-init-data-borrow','same',INI,"""    let mut oracles_data = oracles_info.try_borrow_mut_data()?;
    oracles_data.copy_from_slice(&oracles_bytes);

    Ok(())
""","""    oracles_info.try_borrow_mut_data()?.copy_from_slice(oracles_bytes.as_slice());
    Ok(())
"""),
('same-mod-match','same',MOD,["    if args.operation == 0 {\n        oracles.oracles.push(args.identity);\n","    } else if args.operation == 1 {","    } else {\n        return Err(ProgramError::InvalidArgument);\n    }\n"],["    match args.operation {\n    0 => {\n        oracles.oracles.push(args.identity);\n","    }\n    1 => {","    }\n    _ => return Err(ProgramError::InvalidArgument),\n    }\n"]),
('same-mod-push-later','same',MOD,["        oracles.oracles.push(args.identity);\n","        oracle_data.registration_slot = Clock::get()?.slot;\n"],["","        oracle_data.registration_slot = Clock::get()?.slot;\n        drop(oracle_data);\n        oracles.oracles.extend([args.identity]);\n"]),
('same-mod-position','same',MOD,"        oracles.oracles.retain(|oracle| oracle.ne(&args.identity));\n","""        let mut kept = Vec::with_capacity(oracles.oracles.len());
        for o in oracles.oracles.iter() {
            if *o != args.identity {
                kept.push(*o);
            }
        }
        oracles.oracles = kept;
"""),
('same-mod-filter','same',MOD,"        oracles.oracles.retain(|oracle| oracle.ne(&args.identity));\n","        oracles.oracles = oracles.oracles.into_iter().filter(|o| o != &args.identity).collect();\n"),
('same-mod-identity-fn','same',MOD,["""    if args.identity == Pubkey::default()
        || args.identity == system_program::ID
        || !is_on_curve(&args.identity)
    {
        return Err(InvalidOracleIdentity.into());
    }
""","pub fn process_modify_oracles("],["    check_identity(&args.identity)?;\n","""fn check_identity(identity: &Pubkey) -> ProgramResult {
    let valid = identity != &Pubkey::default() && identity != &system_program::ID && is_on_curve(identity);
    valid.then_some(()).ok_or_else(|| InvalidOracleIdentity.into())
}
pub fn process_modify_oracles("""]),
('same-mod-admin-match','same',MOD,["""    let admin_pubkey = load_program_upgrade_authority(&ephemeral_vrf_api::ID, program_data_info)?
        .ok_or(Unauthorized)?;

    if !signer_info.key.eq(&admin_pubkey) {
        log(format!(
            "Signer not authorized, expected: {}, got: {}",
            admin_pubkey, signer_info.key
        ));
        return Err(Unauthorized.into());
    }
"""],["""    match load_program_upgrade_authority(&ephemeral_vrf_api::ID, program_data_info)? {
        Some(admin) if admin == *signer_info.key => (),
        _ => return Err(Unauthorized.into()),
    }
"""]),
('same-iq-grow-fn','same',IQ,["""    if extra_bytes > MAX_EXTRA_BYTES {
        let realloc_size = current_size + MAX_EXTRA_BYTES;
        if oracle_queue_info.owner != &ephemeral_vrf_api::ID {
            create_pda(
                oracle_queue_info,
                &ephemeral_vrf_api::ID,
                MAX_EXTRA_BYTES,
                seeds,
                bump,
                system_program,
                signer_info,
            )?;
        } else {
            resize_pda(signer_info, oracle_queue_info, system_program, realloc_size)?;
        }
""","""    // Finalize PDA size if needed
    if oracle_queue_info.owner != &ephemeral_vrf_api::ID {
        create_pda(
            oracle_queue_info,
            &ephemeral_vrf_api::ID,
            target_size,
            seeds,
            bump,
            system_program,
            signer_info,
        )?;
    } else {
        resize_pda(signer_info, oracle_queue_info, system_program, target_size)?;
    }
"""],["""    let unfinished = extra_bytes > MAX_EXTRA_BYTES;
    let (fresh, size) = if unfinished {
        (MAX_EXTRA_BYTES, current_size + MAX_EXTRA_BYTES)
    } else {
        (target_size, target_size)
    };
    if oracle_queue_info.owner != &ephemeral_vrf_api::ID {
        create_pda(
            oracle_queue_info,
            &ephemeral_vrf_api::ID,
            fresh,
            seeds,
            bump,
            system_program,
            signer_info,
        )?;
    } else {
        resize_pda(signer_info, oracle_queue_info, system_program, size)?;
    }
    if unfinished {
""",""]),
('same-iq-wait-fn','same',IQ,["    if slots_since_registration < 200 {\n        log(format!(","            200 - slots_since_registration\n"],["    const WAIT: u64 = 200;\n    if slots_since_registration < WAIT {\n        log(format!(","            WAIT - slots_since_registration\n"]),
('same-iq-wait-add','same',IQ,["    let slots_since_registration = current_slot.saturating_sub(oracle_registration_slot);\n\n    if slots_since_registration < 200 {","            200 - slots_since_registration\n"],["    if current_slot < oracle_registration_slot.saturating_add(200) {","            oracle_registration_slot\n"]),
('same-iq-bump-pda','same',IQ,"    let bump = Pubkey::find_program_address(seeds, &ephemeral_vrf_api::ID).1;","    let (_, bump) = Pubkey::find_program_address(seeds, &ephemeral_vrf_api::ID);"),
('same-iq-counter-before','same',IQ,["""    // Increment oracle's open queue count
    let mut oracle_data_mut = oracle_data_info.as_account_mut::<Oracle>(&ephemeral_vrf_api::ID)?;
    oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_add(1);

    Ok(())
""","    // Set discriminator and initialize queue header using zero-copy view\n"],["    Ok(())\n","""    {
        let mut oracle_data_mut = oracle_data_info.as_account_mut::<Oracle>(&ephemeral_vrf_api::ID)?;
        oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_add(1);
    }
"""]),
('same-del-helper','same',DEL,["""    authority_info.is_signer()?;
    owner_program.has_address(&ephemeral_vrf_api::ID)?;
    let pda_seeds"""],["""    if owner_program.key != &ephemeral_vrf_api::ID {
        return Err(ProgramError::InvalidAccountData);
    }
    authority_info.is_signer()?;
    let pda_seeds"""]),
('same-und-reorder','same',UND,["    magic_context.has_address(&MAGIC_CONTEXT_ID)?;\n    magic_program.has_address(&MAGIC_PROGRAM_ID)?;\n","    // Undelegate\n"],["","    magic_program.has_address(&MAGIC_PROGRAM_ID)?;\n    magic_context.has_address(&MAGIC_CONTEXT_ID)?;\n"]),
('same-lib-split','same',LIB,["""    if data.len() < 8 {
        return Err(ProgramError::InvalidInstructionData);
    }
    let tag = data[0];
    let ix = T::try_from(tag).or(Err(ProgramError::InvalidInstructionData))?;
    Ok((ix, &data[8..]))
"""],["""    let Some((head, rest)) = data.split_at_checked(8) else {
        return Err(ProgramError::InvalidInstructionData);
    };
    match T::try_from(head[0]) {
        Ok(ix) => Ok((ix, rest)),
        Err(_) => Err(ProgramError::InvalidInstructionData),
    }
"""]),
('same-lib-noq','same',LIB,"""        EphemeralVrfInstruction::PurgeExpiredRequests => {
            process_purge_expired_requests(accounts, data)?
        }
    }

    Ok(())
""","""        EphemeralVrfInstruction::PurgeExpiredRequests => {
            return process_purge_expired_requests(accounts, data)
        }
    }

    Ok(())
"""),
('same-ver-vec','same',VER,"""    let challenge_input = [
        VRF_PREFIX_CHALLENGE.to_vec(),
        output_compressed.0.to_vec(),
        commitment_base_compressed.0.to_vec(),
        commitment_hash_compressed.0.to_vec(),
        pk.0.to_vec(),
        input.to_vec(),
    ]
    .concat();

    let challenge_hash = hash(challenge_input.as_slice());
""","""    let challenge_hash = solana_program::hash::hashv(&[
        VRF_PREFIX_CHALLENGE,
        &output_compressed.0,
        &commitment_base_compressed.0,
        &commitment_hash_compressed.0,
        &pk.0,
        input,
    ]);
"""),
('same-ver-relation-fn','same',VER,["""    let lhs_base = match multiply_ristretto(s, &RISTRETTO_BASEPOINT_POINT) {
        Some(result) => result,
        None => return false,
    };

    let rhs_base_r = match multiply_ristretto(&c, pk) {
        Some(result) => result,
        None => return false,
    };

    let rhs_base = match add_ristretto(commitment_base_compressed, &rhs_base_r) {
        Some(result) => result,
        None => return false,
    };
""","""    let lhs_hash = match multiply_ristretto(s, &h) {
        Some(result) => result,
        None => return false,
    };

    let rhs_hash_r = match multiply_ristretto(&c, output_compressed) {
        Some(result) => result,
        None => return false,
    };

    let rhs_hash = match add_ristretto(commitment_hash_compressed, &rhs_hash_r) {
        Some(result) => result,
        None => return false,
    };

    lhs_base == rhs_base && lhs_hash == rhs_hash
}
"""],["","""    relation(s, &RISTRETTO_BASEPOINT_POINT, commitment_base_compressed, &c, pk).unwrap_or(false)
        && relation(s, &h, commitment_hash_compressed, &c, output_compressed).unwrap_or(false)
}

fn relation(
    s: &PodScalar,
    base: &PodRistrettoPoint,
    commitment: &PodRistrettoPoint,
    c: &PodScalar,
    image: &PodRistrettoPoint,
) -> Option<bool> {
    let lhs = multiply_ristretto(s, base)?;
    let scaled = multiply_ristretto(c, image)?;
    let rhs = add_ristretto(commitment, &scaled)?;
    Some(lhs == rhs)
}
"""]),
# ---------------- bugs
('bug-req-fee-swapped','bug',REQ,["            VRF_HIGH_PRIORITY_LAMPORTS_COST\n        } else {\n            VRF_LAMPORTS_COST"],["            VRF_LAMPORTS_COST\n        } else {\n            VRF_HIGH_PRIORITY_LAMPORTS_COST"]),
('bug-req-no-disc-limit','bug',REQ,"args.callback_discriminator.len() > 8","args.callback_discriminator.len() > 80"),
('bug-req-no-owner','bug',REQ,"        .is_writable()?\n        .has_owner(&ephemeral_vrf_api::ID)?;","        .is_writable()?;"),
('bug-req-identity-unsigned','bug',REQ,"        .has_seeds(&[IDENTITY], &args.callback_program_id)?\n        .is_signer()?;","        .has_seeds(&[IDENTITY], &args.callback_program_id)?;"),
('bug-req-skip-item-type','bug',REQ,"        Queue::try_from_bytes(&data)?;\n",""),
('bug-req-idx-u8','bug',REQ,"        let idx = queue_acc.len() as u32;","        let idx = (queue_acc.len() as u8) as u32;"),
('bug-req-no-sysvar','bug',REQ,"    slothashes_account_info.is_sysvar(&slot_hashes::id())?;\n",""),
('bug-prov-slot-eq','bug',PRO,"Clock::get()?.slot <= item.slot","Clock::get()?.slot < item.slot"),
('bug-prov-no-owner','bug',PRO,"        .has_owner(&ephemeral_vrf_api::ID)?\n        .has_seeds(\n            &[QUEUE","        .has_seeds(\n            &[QUEUE"),
('bug-prov-any-first','bug',PRO,"                    .iter()\n                    .any(","                    .iter()\n                    .take(1)\n                    .any("),
('bug-prov-raw-output','bug',PRO,"    let rdn = hash(&output.0);\n    callback_data.extend_from_slice(rdn.to_bytes().as_ref());","    let _ = hash(&output.0);\n    callback_data.extend_from_slice(&output.0);"),
('bug-prov-fee-ne','bug',PRO,"removed_item.priority_request == 1","removed_item.priority_request != 1"),
('bug-prov-proof-late','bug',PRO,"        if !verified {","        if !verified && queue_acc.len() > 1 {"),
('bug-purge-ge','bug',PUR,"age > QUEUE_TTL_SLOTS","age >= QUEUE_TTL_SLOTS"),
('bug-purge-break','bug',PUR,"        } else {\n            i += 1;\n        }","        } else {\n            break;\n        }"),
('bug-purge-fee-default','bug',PUR,"total_cost > 0 && oracle_queue_info.key.ne(&DEFAULT_EPHEMERAL_QUEUE)","total_cost > 0"),
('bug-purge-cost-neighbour','bug',PUR,["            let _ = queue_acc.remove_item(i)?;\n","            let cost = if item.priority_request == 1 {"],["","            let _ = queue_acc.remove_item(i)?;\n            let item = queue_acc.get_item_by_index(i).unwrap_or(item);\n            let cost = if item.priority_request == 1 {"]),
('bug-close-no-empty','bug',CLO,"        if !queue_acc.is_empty() {","        if !queue_acc.is_empty() && is_initialized && queue_acc.len() > 1 {"),
('bug-close-other-dest','bug',CLO,"close_account(oracle_queue_info, oracle_info)?;","close_account(oracle_queue_info, oracle_data_info)?;"),
('bug-close-count-uninit','bug',CLO,"    if is_initialized {\n        oracle","    if !is_initialized {\n        oracle"),
('bug-mod-no-open-check','bug',MOD,"        if open_queue != 0 {","        if open_queue > 1 {"),
('bug-mod-swap-remove','bug',MOD,"        oracles.oracles.retain(|oracle| oracle.ne(&args.identity));\n","        oracles.oracles.pop();\n"),
('bug-mod-no-curve','bug',MOD,"        || !is_on_curve(&args.identity)\n","        || (!is_on_curve(&args.identity) && args.operation == 1)\n"),
('bug-mod-admin-first','bug',MOD,"    if !signer_info.key.eq(&admin_pubkey) {","    if !signer_info.key.eq(&admin_pubkey) && args.operation == 0 {"),
('bug-iq-wait','bug',IQ,"    if slots_since_registration < 200 {","    if slots_since_registration < 200 && args.index == 0 {"),
('bug-iq-no-oracle-signer','bug',IQ,"    oracle_info.is_signer()?;\n",""),
('bug-iq-index','bug',IQ,"        qacc.header.index = args.index;\n","        let _ = qacc;\n"),
('bug-iq-not-empty','bug',IQ,"    is_empty_or_zeroed(oracle_queue_info)?;\n",""),
('bug-del-no-signer','bug',DEL,"    authority_info.is_signer()?;\n",""),
('bug-del-validator','bug',DEL,"Some(system_program::id())","None"),
('bug-und-magic','bug',UND,"    magic_program.has_address(&MAGIC_PROGRAM_ID)?;\n",""),
('bug-lib-swap-priority','bug',LIB,"process_request_randomness(accounts, data, false)?","process_request_randomness(accounts, data, true)?"),
('bug-lib-progid','bug',LIB,"    if program_id.ne(api_id) {\n        return Err(ProgramError::IncorrectProgramId);\n    }\n","    let _ = (program_id, api_id);\n"),
('bug-fee-rent','bug',FEE,"",""),
]
M=[m for m in M if m[0]!='bug-fee-rent']
