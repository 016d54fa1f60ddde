"""More behaviour-preserving refactorings of the program's handlers (all must be quiet)."""
import re
D='program/src/'
INI=D+'initialize.rs'; MOD=D+'modify_oracles.rs'; IQ=D+'initialize_oracle_queue.rs'; REQ=D+'request_randomness.rs'; PRO=D+'provide_randomness.rs'
CLO=D+'close_oracle_queue.rs'; PUR=D+'purge_expired_requests.rs'; DEL=D+'delegate_oracle_queue.rs'; UND=D+'undelegate_oracle_queue.rs'; PUN=D+'process_undelegation.rs'; LIB=D+'lib.rs'; FEE=D+'fees.rs'
import subprocess
src=lambda f: subprocess.check_output(['git','-C','/repo','show','HEAD:'+f],text=True)
def cut(f, a, b):
    s=src(f); i=s.index(a); j=s.index(b,i); return s[i:j]
def upto(f, a, b):
    s=src(f); i=s.index(a); j=s.index(b,i)+len(b); return s[i:j]
M=[]
def same(name, path, old, new): M.append(('same-'+name,'same',path,old,new))
# ---- request
same('r-index-accounts', REQ, upto(REQ,"    let [signer_info","    };\n"), """    if accounts.len() != 5 {
        return Err(ProgramError::NotEnoughAccountKeys);
    }
    let signer_info = &accounts[0];
    let program_identity_info = &accounts[1];
    let oracle_queue_info = &accounts[2];
    let system_program_info = &accounts[3];
    let slothashes_account_info = &accounts[4];
""")
same('r-iter-accounts', REQ, upto(REQ,"    let [signer_info","    };\n"), """    if accounts.len() != 5 {
        return Err(ProgramError::NotEnoughAccountKeys);
    }
    let iter = &mut accounts.iter();
    let signer_info = solana_program::account_info::next_account_info(iter)?;
    let program_identity_info = solana_program::account_info::next_account_info(iter)?;
    let oracle_queue_info = solana_program::account_info::next_account_info(iter)?;
    let system_program_info = solana_program::account_info::next_account_info(iter)?;
    let slothashes_account_info = solana_program::account_info::next_account_info(iter)?;
""")
same('r-struct-accounts', REQ, ["pub fn process_request_randomness(", upto(REQ,"    let [signer_info","    };\n")], ["""struct Accs<'a, 'b> {
    signer: &'b AccountInfo<'a>,
    identity: &'b AccountInfo<'a>,
    queue: &'b AccountInfo<'a>,
    system: &'b AccountInfo<'a>,
    hashes: &'b AccountInfo<'a>,
}

impl<'a, 'b> TryFrom<&'b [AccountInfo<'a>]> for Accs<'a, 'b> {
    type Error = ProgramError;

    fn try_from(accounts: &'b [AccountInfo<'a>]) -> Result<Self, ProgramError> {
        match accounts {
            [signer, identity, queue, system, hashes] => Ok(Self { signer, identity, queue, system, hashes }),
            _ => Err(ProgramError::NotEnoughAccountKeys),
        }
    }
}

pub fn process_request_randomness(""", """    let Accs {
        signer: signer_info,
        identity: program_identity_info,
        queue: oracle_queue_info,
        system: system_program_info,
        hashes: slothashes_account_info,
    } = Accs::try_from(accounts)?;
"""])
same('r-slothash-copy', REQ, upto(REQ,"    let slothash: [u8; 32]","UnsupportedSysvar)?;\n"), """    let slothash: [u8; 32] = {
        let sysvar = slothashes_account_info.try_borrow_data()?;
        let mut hash = [0u8; 32];
        hash.copy_from_slice(&sysvar[16..16 + 32]);
        hash
    };
""")
same('r-slothash-get', REQ, upto(REQ,"    let slothash: [u8; 32]","UnsupportedSysvar)?;\n"), """    let slothash: [u8; 32] = slothashes_account_info
        .try_borrow_data()?
        .get(16..48)
        .and_then(|b| <[u8; 32]>::try_from(b).ok())
        .ok_or(ProgramError::UnsupportedSysvar)?;
""")
same('r-hash-vec', REQ, upto(REQ,"        let combined_hash = hashv(","        ]);\n"), """        let mut preimage = Vec::new();
        preimage.extend_from_slice(&args.caller_seed);
        preimage.extend_from_slice(&slot.to_le_bytes());
        preimage.extend_from_slice(&slothash);
        preimage.extend_from_slice(&args.callback_discriminator);
        preimage.extend_from_slice(args.callback_program_id.as_ref());
        preimage.extend_from_slice(&time.to_le_bytes());
        preimage.extend_from_slice(&idx.to_le_bytes());
        let combined_hash = solana_program::hash::hash(&preimage);
""")
same('r-hash-hasher', REQ, upto(REQ,"        let combined_hash = hashv(","        ]);\n"), """        let mut hasher = solana_program::hash::Hasher::default();
        hasher.hash(&args.caller_seed);
        hasher.hash(&slot.to_le_bytes());
        hasher.hashv(&[&slothash, &args.callback_discriminator]);
        hasher.hash(&args.callback_program_id.to_bytes());
        hasher.hash(&time.to_le_bytes());
        hasher.hash(&idx.to_le_bytes());
        let combined_hash = hasher.result();
""")
same('r-item-assign', REQ, upto(REQ,"        let base_item = QueueItem {","        };\n"), """        let mut base_item = QueueItem {
            slot: 0,
            id: [0; 32],
            callback_program_id: [0; 32],
            callback_discriminator_offset: 0,
            metas_offset: 0,
            args_offset: 0,
            callback_discriminator_len: 0,
            metas_len: 0,
            args_len: 0,
            priority_request: 0,
            used: 0,
            _padding: [0u8; 4],
        };
        base_item.slot = slot;
        base_item.id = combined_hash.to_bytes();
        base_item.callback_program_id = args.callback_program_id.to_bytes();
        base_item.priority_request = u8::from(high_priority);
""")
same('r-metas-into', REQ, upto(REQ,"            .map(|ca| (*ca).into())","Vec<CompactAccountMeta>>();\n"), """            .copied()
            .map(CompactAccountMeta::from)
            .collect::<Vec<_>>();
""")
same('r-metas-cap', REQ, upto(REQ,"        let metas = args\n","Vec<CompactAccountMeta>>();\n"), """        let mut metas: Vec<CompactAccountMeta> =
            Vec::with_capacity(args.callback_accounts_metas.len());
        for i in 0..args.callback_accounts_metas.len() {
            metas.push(args.callback_accounts_metas[i].into());
        }
""")
same('r-return-default', REQ, cut(REQ,"    if oracle_queue_info.key.ne(","    Ok(())\n}"), """    if *oracle_queue_info.key == DEFAULT_EPHEMERAL_QUEUE {
        return Ok(());
    }
    let lamports = [VRF_LAMPORTS_COST, VRF_HIGH_PRIORITY_LAMPORTS_COST][high_priority as usize];
    let transfer = system_instruction::transfer(signer_info.key, oracle_queue_info.key, lamports);
    let infos = [
        signer_info.clone(),
        oracle_queue_info.clone(),
        system_program_info.clone(),
    ];
    invoke(&transfer, &infos)?;

""")
same('r-cost-table', [REQ,REQ], [upto(REQ,"        let cost = if high_priority {","        };\n")]+["pub fn process_request_randomness("], ["        let cost = cost_of(high_priority);\n", """const COSTS: [(bool, u64); 2] = [
    (true, VRF_HIGH_PRIORITY_LAMPORTS_COST),
    (false, VRF_LAMPORTS_COST),
];

fn cost_of(high_priority: bool) -> u64 {
    COSTS
        .iter()
        .find(|(p, _)| *p == high_priority)
        .map(|(_, c)| *c)
        .unwrap_or(VRF_LAMPORTS_COST)
}

pub fn process_request_randomness("""])
same('r-split-at-mut', REQ, upto(REQ,"        if data.len() < 8 {","        let queue_data = &mut data[8..];\n"), """        // The account must be an initialized queue (and not another program account)
        Queue::try_from_bytes(&data)?;
        let (_discriminator, queue_data) = data.split_at_mut(8);
""")
same('r-enqueue-fn', REQ, [cut(REQ,"        let metas = args\n","    }\n\n    // Transfer request"),"pub fn process_request_randomness("], ["        enqueue(&mut queue_acc, &base_item, args)?;\n","""fn enqueue(
    queue: &mut QueueAccount,
    item: &QueueItem,
    args: RequestRandomness,
) -> Result<(), ProgramError> {
    let RequestRandomness {
        callback_discriminator,
        callback_accounts_metas,
        callback_args,
        ..
    } = args;
    let metas: Vec<CompactAccountMeta> = callback_accounts_metas
        .into_iter()
        .map(|meta| meta.into())
        .collect();
    queue
        .add_item(item, &callback_discriminator, &metas, &callback_args)
        .map(|_| ())
}

pub fn process_request_randomness("""])
# ---- provide
same('p-iter', PRO, upto(PRO,"            let oracle_in_accounts = {","            };\n"), """            let oracle_bytes = oracle_info.key.to_bytes();
            let oracle_in_accounts = item
                .account_metas(queue_acc.acc)
                .iter()
                .filter(|meta| meta.pubkey == oracle_bytes)
                .count()
                > 0;
""")
same('p-position', PRO, upto(PRO,"            let oracle_in_accounts = {","            };\n"), """            let oracle_in_accounts = item
                .account_metas(queue_acc.acc)
                .iter()
                .position(|meta| meta.pubkey == oracle_info.key.to_bytes())
                .is_some();
""")
same('p-for-index', PRO, upto(PRO,"            let oracle_in_accounts = {","            };\n"), """            let mut oracle_in_accounts = false;
            let stored = item.account_metas(queue_acc.acc);
            let mut k = 0;
            while k < stored.len() {
                oracle_in_accounts |= stored[k].pubkey == oracle_info.key.to_bytes();
                k += 1;
            }
""")
same('p-metas-chain', PRO, upto(PRO,"    let mut accounts_metas = vec![","to_account_meta()));\n"), """    let accounts_metas: Vec<AccountMeta> =
        std::iter::once(AccountMeta::new_readonly(*program_identity_info.key, true))
            .chain(metas_vec.iter().map(CompactAccountMeta::to_account_meta))
            .collect();
""")
same('p-metas-insert', PRO, upto(PRO,"    let mut accounts_metas = vec![","to_account_meta()));\n"), """    let mut accounts_metas: Vec<AccountMeta> =
        metas_vec.iter().map(|m| m.to_account_meta()).collect();
    accounts_metas.insert(
        0,
        AccountMeta::new_readonly(*program_identity_info.key, true),
    );
""")
same('p-data-concat', PRO, upto(PRO,"    let mut callback_data = Vec::with","(&args_vec);\n"), """    let rdn = hash(&output.0);
    let callback_data = [&disc_vec[..], rdn.as_ref(), &args_vec[..]].concat();
""")
same('p-data-iter', PRO, upto(PRO,"    let mut callback_data = Vec::with","(&args_vec);\n"), """    let callback_data: Vec<u8> = disc_vec
        .iter()
        .chain(hash(&output.0).to_bytes().iter())
        .chain(args_vec.iter())
        .copied()
        .collect();
""")
same('p-all-accounts', PRO, upto(PRO,"    let mut all_accounts = vec![callback","(remaining_accounts);\n"), """    let mut all_accounts = Vec::with_capacity(2 + remaining_accounts.len());
    all_accounts.push(callback_program_info.clone());
    all_accounts.push(program_identity_info.clone());
    for account in remaining_accounts {
        all_accounts.push(account.clone());
    }
""")
same('p-all-accounts-concat', PRO, upto(PRO,"    let mut all_accounts = vec![callback","(remaining_accounts);\n"), """    let all_accounts = [
        &[callback_program_info.clone(), program_identity_info.clone()],
        remaining_accounts,
    ]
    .concat();
""")
same('p-verify-early', PRO, ["""        // Verify proof
        let verified = verify_vrf(
            &oracle_vrf_pubkey,
            &args.input,
            output,
            (commitment_base_compressed, commitment_hash_compressed, s),
        );
        if !verified {
            return Err(EphemeralVrfError::InvalidProof.into());
        }

""","    let removed_item_and_buf = {\n"],["","""    // Verify proof
    verify_vrf(
        &oracle_vrf_pubkey,
        &args.input,
        output,
        (commitment_base_compressed, commitment_hash_compressed, s),
    )
    .then_some(())
    .ok_or::<ProgramError>(EphemeralVrfError::InvalidProof.into())?;

    let removed_item_and_buf = {
"""])
same('p-slot-gt', PRO, upto(PRO,"            if Clock::get()?.slot <= item.slot {","            }\n"), """            let now = Clock::get()?;
            match now.slot.cmp(&item.slot) {
                std::cmp::Ordering::Greater => {}
                _ => return Err(EphemeralVrfError::OracleMustProvideInDifferentSlot.into()),
            }
""")
same('p-pending-struct', PRO, ["        (removed_item, metas, disc, args_bytes)\n    };\n\n    let (removed_item, metas_vec, disc_vec, args_vec) = removed_item_and_buf;\n","pub fn process_provide_randomness(","    let removed_item_and_buf = {\n"], ["""        Pending {
            item: removed_item,
            metas,
            disc,
            args: args_bytes,
        }
    };

    let Pending {
        item: removed_item,
        metas: metas_vec,
        disc: disc_vec,
        args: args_vec,
    } = pending;
""","""struct Pending {
    item: QueueItem,
    metas: Vec<CompactAccountMeta>,
    disc: Vec<u8>,
    args: Vec<u8>,
}

pub fn process_provide_randomness(""","    let pending = {\n"])
same('p-id-first', PRO, ["    let id = program_identity_pda();\n    program_identity_info.has_address(&id.0)?;\n", "    // Verify signer\n    oracle_info.is_signer()?;\n"], ["", "    // Verify signer\n    oracle_info.is_signer()?;\n    let id = program_identity_pda();\n    program_identity_info.has_address(&id.0)?;\n"])
same('p-seeds-bump', PRO, upto(PRO,"    let pda_signer_seeds","pda_signer_seeds)?;\n"), """    let bump_seed = [id.1];
    let seeds = [IDENTITY, bump_seed.as_ref()];
    solana_program::program::invoke_signed(&ix, &all_accounts, &[&seeds[..]])?;
""")
same('p-match-find', PRO, upto(PRO,"            let (index, item) = queue_acc\n","?;\n"), """            let Some((index, item)) = queue_acc.find_item_by_id(&args.input) else {
                return Err(EphemeralVrfError::RandomnessRequestNotFound.into());
            };
""")
same('p-fee-inline', PRO, "        crate::fees::transfer_fee(oracle_queue_info, oracle_info, cost)?;\n", """        let remaining = oracle_queue_info
            .lamports()
            .checked_sub(cost)
            .ok_or(ProgramError::InsufficientFunds)?;
        let credited = oracle_info
            .lamports()
            .checked_add(cost)
            .ok_or(ProgramError::InvalidArgument)?;
        **oracle_queue_info.try_borrow_mut_lamports()? = remaining;
        **oracle_info.try_borrow_mut_lamports()? = credited;
""")
same('p-queue-index-scope', PRO, upto(PRO,"    let queue_index = {","    };\n"), "    let queue_index = Queue::try_from_bytes(&oracle_queue_info.try_borrow_data()?)?.index;\n")
# ---- purge
same('u-loop', PUR, ["    while i < queue_acc.len() {\n        // Safe to unwrap: index < len()\n"+upto(PUR,"        let item = queue_acc\n","?;\n")], ["""    while let Some(item) = queue_acc.get_item_by_index(i) {
"""])
same('u-expired-fn', PUR, ["        let age = current_slot.saturating_sub(item.slot);\n        if age > QUEUE_TTL_SLOTS {\n","pub fn process_purge_expired_requests("], ["        if is_expired(&item, current_slot) {\n","""fn is_expired(item: &QueueItem, now: u64) -> bool {
    now.checked_sub(item.slot)
        .map(|age| age > QUEUE_TTL_SLOTS)
        .unwrap_or(false)
}

pub fn process_purge_expired_requests("""])
same('u-continue', PUR, ["        if age > QUEUE_TTL_SLOTS {\n", """            // do not increment i; next item shifts into this index
        } else {
            i += 1;
        }
"""], ["        if age <= QUEUE_TTL_SLOTS {\n            i += 1;\n            continue;\n        }\n        {\n","        }\n"])
same('u-fee-fold', PUR, upto(PUR,"            let cost = if item","saturating_add(cost);\n"), """            total_cost = total_cost.saturating_add(match item.priority_request {
                1 => VRF_HIGH_PRIORITY_LAMPORTS_COST,
                _ => VRF_LAMPORTS_COST,
            });
""")
same('u-collect-then-remove', PUR, cut(PUR,"    let mut i: usize = 0;","    // Send the fees"), """    let mut i: usize = 0;
    let mut removed: usize = 0;
    msg!("Items in the queue: {}", queue_acc.len());
    let total = queue_acc.len();
    for _ in 0..total {
        let item = queue_acc
            .get_item_by_index(i)
            .ok_or(ProgramError::InvalidAccountData)?;
        if current_slot.saturating_sub(item.slot) <= QUEUE_TTL_SLOTS {
            i += 1;
            continue;
        }
        queue_acc.remove_item(i)?;
        removed += 1;
        total_cost = total_cost.saturating_add(if item.priority_request == 1 {
            VRF_HIGH_PRIORITY_LAMPORTS_COST
        } else {
            VRF_LAMPORTS_COST
        });
    }
    msg!("Removed {}", removed);

""")
same('u-backwards', PUR, cut(PUR,"    let mut i: usize = 0;","    // Send the fees"), """    msg!("Items in the queue: {}", queue_acc.len());
    let mut i = queue_acc.len();
    while i > 0 {
        i -= 1;
        let item = queue_acc
            .get_item_by_index(i)
            .ok_or(ProgramError::InvalidAccountData)?;
        if current_slot.saturating_sub(item.slot) > QUEUE_TTL_SLOTS {
            let cost = if item.priority_request == 1 {
                VRF_HIGH_PRIORITY_LAMPORTS_COST
            } else {
                VRF_LAMPORTS_COST
            };
            total_cost = total_cost.saturating_add(cost);
            queue_acc.remove_item(i)?;
        }
    }

""")
same('u-rev-range', PUR, cut(PUR,"    let mut i: usize = 0;","    // Send the fees"), """    for i in (0..queue_acc.len()).rev() {
        let Some(item) = queue_acc.get_item_by_index(i) else {
            return Err(ProgramError::InvalidAccountData);
        };
        if current_slot.saturating_sub(item.slot) > QUEUE_TTL_SLOTS {
            let cost = if item.priority_request == 1 {
                VRF_HIGH_PRIORITY_LAMPORTS_COST
            } else {
                VRF_LAMPORTS_COST
            };
            total_cost = total_cost.saturating_add(cost);
            let _ = queue_acc.remove_item(i)?;
        }
    }

""")
same('u-settle-fn', PUR, [cut(PUR,"    if total_cost > 0 &&","    Ok(())\n}"), "pub fn process_purge_expired_requests("], ["    settle(oracle_queue_info, oracle_info, total_cost)?;\n\n","""fn settle(queue: &AccountInfo<'_>, oracle: &AccountInfo<'_>, amount: u64) -> ProgramResult {
    match amount {
        0 => Ok(()),
        _ if queue.key.eq(&DEFAULT_EPHEMERAL_QUEUE) => Ok(()),
        _ => crate::fees::transfer_fee(queue, oracle, amount),
    }
}

pub fn process_purge_expired_requests("""])
# ---- close / init / modify
same('c-match-disc', CLO, "        let is_initialized = data[..8] == AccountDiscriminator::Queue.to_bytes();\n", "        let is_initialized = Queue::try_from_bytes(&data).is_ok();\n")
same('c-counter-loaded', CLO, upto(CLO,"    let mut oracle_data_mut","    }\n"), """    if is_initialized {
        let mut oracle_data_mut =
            oracle_data_info.as_account_mut::<Oracle>(&ephemeral_vrf_api::ID)?;
        if oracle_data_mut.open_queue > 0 {
            oracle_data_mut.open_queue -= 1;
        }
    } else {
        oracle_data_info.as_account::<Oracle>(&ephemeral_vrf_api::ID)?;
    }
""")
same('c-queue-fn', CLO, [upto(CLO,"    let is_initialized = {","    };\n"),"pub fn process_close_oracle_queue("], ["    let is_initialized = ensure_idle(oracle_queue_info)?;\n","""/// Fails while requests are pending; tells whether the queue was fully initialized
fn ensure_idle(queue_info: &AccountInfo) -> Result<bool, ProgramError> {
    let mut data = queue_info.try_borrow_mut_data()?;
    let (disc, queue_data) = data.split_at_mut(8);
    let queue = QueueAccount::load(queue_data)?;
    if queue.len() > 0 {
        return Err(EphemeralVrfError::QueueNotEmpty.into());
    }
    Ok(disc == &AccountDiscriminator::Queue.to_bytes()[..])
}

pub fn process_close_oracle_queue("""])
same('i-write', INI, upto(INI,"    let mut oracles_data = oracles_info.try","(&oracles_bytes);\n"), """    oracles_info
        .try_borrow_mut_data()?
        .copy_from_slice(oracles_bytes.as_slice());
""")
same('i-order', INI, """    signer_info.is_signer()?;
    oracles_info
        .is_empty()?
        .is_writable()?
        .has_seeds(&[ORACLES], &ephemeral_vrf_api::ID)?;
""", """    oracles_info
        .has_seeds(&[ORACLES], &ephemeral_vrf_api::ID)?
        .is_empty()?
        .is_writable()?;
    if !signer_info.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
""")
same('m-add-fn', MOD, [upto(MOD,"        create_program_account::<Oracle>(","Clock::get()?.slot;\n"),"pub fn process_modify_oracles("], ["        register(oracle_data_info, system_program, signer_info, args)?;\n", """fn register<'a, 'b>(
    oracle_data_info: &'a AccountInfo<'b>,
    system_program: &'a AccountInfo<'b>,
    payer: &'a AccountInfo<'b>,
    args: &ModifyOracle,
) -> ProgramResult {
    let key = args.identity.to_bytes();
    create_program_account::<Oracle>(
        oracle_data_info,
        system_program,
        payer,
        &ephemeral_vrf_api::ID,
        &[ORACLE_DATA, &key],
    )?;
    let slot = Clock::get()?.slot;
    let mut record = oracle_data_info.as_account_mut::<Oracle>(&ephemeral_vrf_api::ID)?;
    *record = Oracle {
        vrf_pubkey: args.oracle_pubkey,
        registration_slot: slot,
        open_queue: 0,
    };
    Ok(())
}

pub fn process_modify_oracles("""])
same('m-retain', MOD, "        oracles.oracles.retain(|oracle| oracle.ne(&args.identity));\n", """        let mut k = 0;
        while k < oracles.oracles.len() {
            if oracles.oracles[k] == args.identity {
                oracles.oracles.remove(k);
            } else {
                k += 1;
            }
        }
""")
same('m-retain2', MOD, "        oracles.oracles.retain(|oracle| oracle.ne(&args.identity));\n", """        oracles.oracles = oracles
            .oracles
            .into_iter()
            .filter(|o| *o != args.identity)
            .collect();
""")
same('m-valid-fn', MOD, [upto(MOD,"    if args.identity == Pubkey::default()","    }\n"),"pub fn process_modify_oracles("], ["    if !valid_identity(&args.identity) {\n        return Err(InvalidOracleIdentity.into());\n    }\n","""fn valid_identity(identity: &Pubkey) -> bool {
    let reserved = [Pubkey::default(), system_program::ID];
    !reserved.contains(identity) && is_on_curve(identity)
}

pub fn process_modify_oracles("""])
same('m-open-check', MOD, upto(MOD,"        let open_queue = {","        }\n"), """        let record = *oracle_data_info.as_account::<Oracle>(&ephemeral_vrf_api::ID)?;
        match record.open_queue {
            0 => {}
            n => {
                msg!("Oracle has {} open queues", n);
                return Err(QueueNotEmpty.into());
            }
        }
""")
same('m-write-slice', MOD, upto(MOD,"    let oracles_bytes = oracles.to_bytes","(&oracles_bytes);\n"), """    let encoded = oracles.to_bytes_with_discriminator()?;
    let mut target = oracles_info.try_borrow_mut_data()?;
    target[..].copy_from_slice(encoded.as_ref());
""")
# ---- init queue
same('q-slot-order', IQ, upto(IQ,"    let slots_since_registration","    }\n"), """    let ready_at = oracle_registration_slot.saturating_add(200);
    if current_slot < ready_at {
        msg!("Oracle not yet authorized");
        return Err(Unauthorized.into());
    }
""")
same('q-alloc-fn', IQ, ["""        if oracle_queue_info.owner != &ephemeral_vrf_api::ID {
            create_pda(
                oracle_queue_info,
                &ephemeral_vrf_api::ID,
                MAX_EXTRA_BYTES,
                seeds,
                bump,
                system_program,
                signer_info,
            )?;
        } else {
            resize_pda(signer_info, oracle_queue_info, system_program, realloc_size)?;
        }
""", upto(IQ,"    // Finalize PDA size if needed\n","    }\n"), "    let extra_bytes = "],["        allocate(realloc_size, MAX_EXTRA_BYTES)?;\n","    allocate(target_size, target_size)?;\n","""    let allocate = |grown: usize, fresh: usize| -> ProgramResult {
        if oracle_queue_info.owner == &ephemeral_vrf_api::ID {
            return resize_pda(signer_info, oracle_queue_info, system_program, grown);
        }
        create_pda(
            oracle_queue_info,
            &ephemeral_vrf_api::ID,
            fresh,
            seeds,
            bump,
            system_program,
            signer_info,
        )
    };

    let extra_bytes = """])
same('q-header-fn', IQ, [upto(IQ,"        let mut data = oracle_queue_info.data.borrow_mut();","= args.index;\n"),"pub fn process_initialize_oracle_queue("],["        write_header(oracle_queue_info, args.index)?;\n","""fn write_header(queue_info: &AccountInfo<'_>, index: u8) -> ProgramResult {
    let mut data = queue_info.try_borrow_mut_data()?;
    let (disc, body) = data.split_at_mut(8);
    disc.copy_from_slice(&AccountDiscriminator::Queue.to_bytes());
    QueueAccount::load(body)?.header.index = index;
    Ok(())
}

pub fn process_initialize_oracle_queue("""])
same('q-one-step-math', IQ, ["    let extra_bytes = target_size.saturating_sub(current_size);\n\n    if extra_bytes > MAX_EXTRA_BYTES {\n        let realloc_size = current_size + MAX_EXTRA_BYTES;\n"], ["    let realloc_size = current_size + MAX_EXTRA_BYTES;\n    if target_size > realloc_size {\n"])
# ---- fees, lib, delegation
same('f-add-assign', FEE, upto(FEE,"    let (mut queue_lamports","InvalidArgument)?;\n"), """    let mut from = oracle_queue_info.try_borrow_mut_lamports()?;
    let mut to = oracle_info.try_borrow_mut_lamports()?;
    let left = from
        .checked_sub(amount)
        .ok_or(ProgramError::InsufficientFunds)?;
    let total = to.checked_add(amount).ok_or(ProgramError::InvalidArgument)?;
    **from = left;
    **to = total;
""")
same('f-guard', FEE, upto(FEE,"    **queue_lamports = (**queue","InvalidArgument)?;\n"), """    if **queue_lamports < amount {
        return Err(ProgramError::InsufficientFunds);
    }
    **queue_lamports -= amount;
    **oracle_lamports = match (**oracle_lamports).checked_add(amount) {
        Some(total) => total,
        None => return Err(ProgramError::InvalidArgument),
    };
""")
same('l-split-first', LIB, upto(LIB,"    if data.len() < 8 {","    Ok((ix, &data[8..]))\n"), """    let (head, rest) = match (data.get(..8), data.get(8..)) {
        (Some(head), Some(rest)) => (head, rest),
        _ => return Err(ProgramError::InvalidInstructionData),
    };
    T::try_from(head[0])
        .map(|ix| (ix, rest))
        .map_err(|_| ProgramError::InvalidInstructionData)
""")
same('l-return-match', LIB, ["process_initialize(accounts, data)?,","process_modify_oracles(accounts, data)?,"],["{\n            return process_initialize(accounts, data);\n        }","{\n            return process_modify_oracles(accounts, data);\n        }"])
same('d-seed-local', DEL, "    let pda_seeds: &[&[u8]] = &[QUEUE, &authority_info.key.to_bytes(), &[args.index]];\n", """    let authority_key = authority_info.key.to_bytes();
    let index_seed = args.index.to_le_bytes();
    let pda_seeds: &[&[u8]] = &[QUEUE, authority_key.as_slice(), index_seed.as_slice()];
""")
same('d-default-config', DEL, upto(DEL,"    let delegate_config","    };\n"), """    let delegate_config = DelegateConfig {
        validator: Some(system_program.key.clone()).map(|_| system_program::id()),
        ..DelegateConfig { commit_frequency_ms: 0, validator: None }
    };
""")
same('n-fn', UND, upto(UND,"    commit_and_undelegate_accounts(",")?;\n"), """    let committed = vec![oracle_queue_info];
    commit_and_undelegate_accounts(authority_info, committed, magic_context, magic_program, None)
        .map_err(ProgramError::from)?;
""")
