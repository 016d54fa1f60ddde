"""More behaviour-preserving refactorings of the API, SDK, macro, CLI and VRF crates (all must be quiet)."""
import subprocess
A='api/src/'; SDK=A+'sdk.rs'; PDA=A+'pda.rs'; ST=A+'steel.rs'; LO=A+'loaders.rs'; VE=A+'verify.rs'; INS=A+'instruction.rs'; ORS=A+'state/oracles.rs'
CLI='vrf-cli/src/main.rs'; MAC='sdk/vrf-macro/src/lib.rs'; SI='sdk/src/instructions.rs'; TY='sdk/src/types.rs'; RND='sdk/src/rnd.rs'; CO='sdk/src/compat/mod.rs'; VRF='vrf/src/vrf.rs'
src=lambda f: subprocess.check_output(['git','-C','/repo','show','HEAD:'+f],text=True)
def cut(f, a, b):
    s=src(f); i=s.index(a); j=s.index(b,i); return s[i:j]
def upto(f, a, b):
    s=src(f); i=s.index(a); j=s.index(b,i)+len(b); return s[i:j]
M=[]
def same(name, path, old, new): M.append(('same-'+name,'same',path,old,new))
# ---- api builders
same('modify-shared', SDK, [upto(SDK,"pub fn add_oracle(","        .to_bytes(),\n    }\n}\n"), upto(SDK,"pub fn remove_oracle(","        .to_bytes(),\n    }\n}\n")], ["""fn modify_oracle(signer: Pubkey, args: ModifyOracle) -> Instruction {
    let (program_data_address, _) =
        Pubkey::find_program_address(&[ID.as_ref()], &bpf_loader_upgradeable::id());
    let accounts = vec![
        AccountMeta::new(signer, true),
        AccountMeta::new(oracles_pda().0, false),
        AccountMeta::new(oracle_data_pda(&args.identity).0, false),
        AccountMeta::new_readonly(program_data_address, false),
        AccountMeta::new_readonly(system_program::ID, false),
    ];
    Instruction {
        program_id: ID,
        accounts,
        data: args.to_bytes(),
    }
}

pub fn add_oracle(signer: Pubkey, identity: Pubkey, oracle_pubkey: [u8; 32]) -> Instruction {
    modify_oracle(
        signer,
        ModifyOracle {
            identity,
            oracle_pubkey: PodRistrettoPoint(oracle_pubkey),
            operation: 0,
        },
    )
}
""","""pub fn remove_oracle(signer: Pubkey, identity: Pubkey) -> Instruction {
    modify_oracle(
        signer,
        ModifyOracle {
            identity,
            oracle_pubkey: PodRistrettoPoint([0; 32]),
            operation: 1,
        },
    )
}
"""])
same('init-repeat', SDK, upto(SDK,"    let inits = target_size.div_ceil(10240);","    ixs\n}\n"), """    let ix = Instruction {
        program_id: ID,
        accounts: vec![
            AccountMeta::new(signer, true),
            AccountMeta::new_readonly(identity, true),
            AccountMeta::new(oracle_data_pda(&identity).0, false),
            AccountMeta::new(oracle_queue_pda(&identity, index).0, false),
            AccountMeta::new_readonly(system_program::ID, false),
        ],
        data: InitializeOracleQueue::new(index, target_size).to_bytes(),
    };
    vec![ix; target_size.div_ceil(10240) as usize]
}
""")
same('init-repeat-take', SDK, upto(SDK,"    let inits = target_size.div_ceil(10240);","    ixs\n}\n"), """    let ix = Instruction {
        program_id: ID,
        accounts: vec![
            AccountMeta::new(signer, true),
            AccountMeta::new_readonly(identity, true),
            AccountMeta::new(oracle_data_pda(&identity).0, false),
            AccountMeta::new(oracle_queue_pda(&identity, index).0, false),
            AccountMeta::new_readonly(system_program::ID, false),
        ],
        data: InitializeOracleQueue::new(index, target_size).to_bytes(),
    };
    std::iter::repeat(ix)
        .take(target_size.div_ceil(10240) as usize)
        .collect()
}
""")
same('init-stepby', SDK, ["    let inits = target_size.div_ceil(10240);\n    let mut ixs = Vec::with_capacity(inits as usize);\n    for _ in 0..inits {\n"], ["    let mut ixs = Vec::new();\n    for _ in (0..target_size).step_by(10240) {\n"])
same('init-remaining', SDK, ["    let inits = target_size.div_ceil(10240);\n    let mut ixs = Vec::with_capacity(inits as usize);\n    for _ in 0..inits {\n","        })\n    }\n    ixs\n"], ["    let mut ixs = Vec::new();\n    let mut remaining = target_size;\n    while remaining > 0 {\n","        });\n        remaining = remaining.saturating_sub(10240);\n    }\n    ixs\n"])
same('metas-push', SDK, upto(SDK,"        accounts: vec![\n            AccountMeta::new(oracle_identity, true),","        ],\n"), """        accounts: {
            let mut metas = Vec::with_capacity(5);
            metas.push(AccountMeta::new(oracle_identity, true));
            metas.push(AccountMeta::new_readonly(program_identity_pda().0, false));
            metas.push(AccountMeta::new_readonly(oracle_data_pda(&oracle_identity).0, false));
            metas.push(AccountMeta::new(oracle_queue, false));
            metas.push(AccountMeta::new_readonly(callback_program_id, false));
            metas
        },
""")
same('new-with-bytes', SDK, upto(SDK,"    Instruction {\n        program_id: crate::ID,\n        accounts: vec![\n            AccountMeta::new(identity, true),","CloseOracleQueue { index }.to_bytes(),\n    }\n"), """    let metas = vec![
        AccountMeta::new(identity, true),
        AccountMeta::new(oracle_data_pda(&identity).0, false),
        AccountMeta::new(oracle_queue_pda(&identity, index).0, false),
    ];
    Instruction::new_with_bytes(crate::ID, &CloseOracleQueue { index }.to_bytes(), metas)
""")
# ---- api pda / steel / loaders
same('pda-fund-fn', PDA, ["        let rent_exempt_balance = rent\n            .minimum_balance(space)\n            .saturating_sub(target_account.lamports());\n        if rent_exempt_balance.gt(&0) {\n"], ["        let required = rent.minimum_balance(space);\n        let current = target_account.lamports();\n        if current < required {\n            let rent_exempt_balance = required - current;\n"])
same('pda-infos', PDA, ["                payer.clone(),\n                target_account.clone(),\n                system_program.clone(),\n            ],\n            &[&pda_signer_seeds],","    let rent = Rent::get()?;\n"], ["                payer.to_owned(),\n                target_account.to_owned(),\n                system_program.to_owned(),\n            ],\n            &[pda_signer_seeds.as_slice()],","    let rent = Rent::get()?;\n    let balance = target_account.lamports();\n"])
same('pda-seeds-vec', PDA, "    let pda_bump_slice = &[pda_bump];\n    let pda_signer_seeds = [pda_seeds, &[pda_bump_slice]].concat();\n", "    let bump = [pda_bump];\n    let mut pda_signer_seeds = pda_seeds.to_vec();\n    pda_signer_seeds.push(&bump);\n")
same('resize-cmp', PDA, upto(PDA,"    let lamports_diff = new_minimum","    pda.resize(new_size)?;\n    Ok(())\n"), """    let balance = pda.lamports();
    match new_minimum_balance.checked_sub(balance) {
        Some(missing) if missing > 0 => invoke(
            &system_instruction::transfer(payer.key, pda.key, missing),
            &[payer.clone(), pda.clone(), system_program.clone()],
        )?,
        _ => {
            let surplus = balance.saturating_sub(new_minimum_balance);
            **pda.lamports.borrow_mut() -= surplus;
            **payer.lamports.borrow_mut() += surplus;
        }
    }
    pda.resize(new_size)
""")
same('close-take', ST, upto(ST,"    **recipient.try_borrow_mut_lamports()? += account","    account_info.resize(0)\n"), """    let refund = account_info.lamports();
    **account_info.try_borrow_mut_lamports()? -= refund;
    **recipient.try_borrow_mut_lamports()? += refund;
    account_info.resize(0)?;
    account_info.assign(&system_program::ID);
    Ok(())
""")
same('signer-bool', ST, upto(ST,"        if !self.is_signer {","        Ok(self)\n"), """        match self.is_signer {
            true => Ok(self),
            false => Err(trace(
                "Account is not a signer",
                ProgramError::MissingRequiredSignature,
            )),
        }
""")
same('seeds-create', ST, "        let (pda, _) = Pubkey::find_program_address(seeds, program_id);\n        if self.key != &pda {\n", "        let derived = Pubkey::find_program_address(seeds, program_id).0;\n        if derived.ne(self.key) {\n")
same('disc-write-slice', ST, "    let mut data = target_account.try_borrow_mut_data()?;\n    data[0] = T::discriminator();\n    Ok(())\n", "    target_account.try_borrow_mut_data()?[..1].copy_from_slice(&[T::discriminator()]);\n    Ok(())\n")
same('asacc-filter', ST, ["        T::try_from_bytes(&data)?;\n        Ok(Ref::map(data, |data| bytemuck::from_bytes(&data[8..])))\n"], ["        T::try_from_bytes(&data)?;\n        let view = Ref::map(data, |bytes| &bytes[8..]);\n        Ok(Ref::map(view, |bytes| bytemuck::from_bytes(bytes)))\n"])
same('deser-split', ST, ["        if data.len() < 8 || Self::discriminator() != data[0] {\n            return Err(ProgramError::InvalidAccountData);\n        }\n        bytemuck::try_from_bytes::<Self>(&data[8..]).map_err(|_| ProgramError::InvalidAccountData)\n"], ["        let (tag, body) = match data.len() {\n            0..=7 => return Err(ProgramError::InvalidAccountData),\n            _ => data.split_at(8),\n        };\n        if tag[0] != Self::discriminator() {\n            return Err(ProgramError::InvalidAccountData);\n        }\n        bytemuck::try_from_bytes::<Self>(body).or(Err(ProgramError::InvalidAccountData))\n"])
same('zeroed-for', LO, upto(LO,"    let is_zeroed = data.iter()","    if is_zeroed {\n"), """    let mut is_zeroed = true;
    for byte in data.iter() {
        if *byte != 0 {
            is_zeroed = false;
        }
    }
    if is_zeroed {
""")
same('zeroed-pos', LO, "data.iter().all(|&b| b == 0)", "data.iter().position(|b| *b != 0).is_none()")
same('zeroed-filter', LO, "data.iter().all(|&b| b == 0)", "data.iter().filter(|b| **b != 0).count() == 0")
same('zeroed-fold', LO, "data.iter().all(|&b| b == 0)", "data.iter().fold(0u8, |acc, b| acc | b) == 0")
same('loader-let-else', LO, upto(LO,"    if let UpgradeableLoaderState::ProgramData {","        Err(ProgramError::InvalidAccountData)\n    }\n"), """    let state: UpgradeableLoaderState =
        bincode::deserialize(&program_account_data).map_err(|_| ProgramError::InvalidAccountData)?;
    match state {
        UpgradeableLoaderState::ProgramData {
            upgrade_authority_address,
            ..
        } => Ok(upgrade_authority_address),
        _ => {
            msg!("Expected program account {} to hold ProgramData", program);
            Err(ProgramError::InvalidAccountData)
        }
    }
""")
same('oracles-size', ORS, "        let item_size = 32;\n        8 + 4 + (item_size * self.oracles.len())\n", "        let header = 8 + core::mem::size_of::<u32>();\n        header + self.oracles.len() * core::mem::size_of::<Pubkey>()\n")
same('req-bytes-vec', INS, upto(INS,"        let mut bytes = vec![\n            EphemeralVrfInstruction::Req","        bytes\n"), """        let tag = EphemeralVrfInstruction::RequestHighPriorityRandomness as u64;
        let mut bytes = tag.to_le_bytes().to_vec();
        let body = borsh::to_vec(self).unwrap();
        bytes.extend_from_slice(&body);
        bytes
""")
same('ver-and', VE, "    lhs_base == rhs_base && lhs_hash == rhs_hash\n", "    if lhs_base != rhs_base {\n        return false;\n    }\n    lhs_hash == rhs_hash\n")
same('ver-opt', VE, [upto(VE,"    let lhs_base = match multiply","lhs_hash == rhs_hash\n}\n"),"/// Hash the input with a prefix, convert the result to a scalar, and"], ["""    relation_holds(s, &c, &RISTRETTO_BASEPOINT_POINT, pk, commitment_base_compressed)
        .zip(relation_holds(s, &c, &h, output_compressed, commitment_hash_compressed))
        .map(|(base, hashed)| base && hashed)
        .unwrap_or(false)
}

fn relation_holds(
    s: &PodScalar,
    c: &PodScalar,
    generator: &PodRistrettoPoint,
    image: &PodRistrettoPoint,
    commitment: &PodRistrettoPoint,
) -> Option<bool> {
    let left = multiply_ristretto(s, generator)?;
    let scaled = multiply_ristretto(c, image)?;
    let right = add_ristretto(commitment, &scaled)?;
    Some(left == right)
}
""","/// Hash the input with a prefix, convert the result to a scalar, and"])
same('ver-hashv', VE, [upto(VE,"    let challenge_input = [","hash(challenge_input.as_slice());\n")], ["""    let challenge_hash = solana_program::hash::hashv(&[
        VRF_PREFIX_CHALLENGE,
        &output_compressed.0,
        &commitment_base_compressed.0,
        &commitment_hash_compressed.0,
        &pk.0,
        input,
    ]);
"""])
same('ver-flat', VE, ["        [VRF_PREFIX_HASH_TO_SCALAR.to_vec(), input.to_vec()]\n            .concat()\n            .as_slice(),\n"], ["        &VRF_PREFIX_HASH_TO_SCALAR\n            .iter()\n            .chain(input)\n            .copied()\n            .collect::<Vec<u8>>(),\n"])
# ---- cli
same('cli-queue-fn', CLI, ["""            let queue = Pubkey::from_str(queue)?;
            let queue_account = rpc_client.get_account(&queue)?;
            let queue_struct = Queue::try_from_bytes(queue_account.data.as_slice())?;
            println!(
                "Delegating oracle queue: {} with index: {}",
                queue, queue_struct.index
            );
            vec![delegate_oracle_queue(
                signer.pubkey(),
                queue,
                queue_struct.index,
            )]
""","fn get_signer("], ["""            let (queue, index) = queue_and_index(&rpc_client, queue)?;
            println!("Delegating oracle queue: {queue} with index: {index}");
            vec![delegate_oracle_queue(signer.pubkey(), queue, index)]
""","""fn queue_and_index(rpc_client: &RpcClient, queue: &str) -> Result<(Pubkey, u8)> {
    let queue: Pubkey = queue.parse()?;
    let account = rpc_client.get_account(&queue)?;
    let index = Queue::try_from_bytes(&account.data)?.index;
    Ok((queue, index))
}

fn get_signer("""])
same('cli-ixs-chain', CLI, upto(CLI,"    let mut ixs = Vec::with_capacity","(&instructions);\n"), "    let ixs: Vec<_> = std::iter::once(compute_budget_ix)\n        .chain(instructions)\n        .collect();\n")
same('cli-ixs-concat', CLI, upto(CLI,"    let mut ixs = Vec::with_capacity","(&instructions);\n"), "    let ixs = [vec![compute_budget_ix], instructions].concat();\n")
same('cli-close-bail', CLI, upto(CLI,"            ensure!(","            );\n"), """            let own = oracle_queue_pda(&signer.pubkey(), queue_struct.index).0;
            if own != queue {
                anyhow::bail!("Queue {queue} does not belong to {}", signer.pubkey());
            }
""")
same('cli-list-while', CLI, "            for i in 0..20 {\n", "            for i in (0u8..=19).into_iter() {\n")
same('cli-list-ok', CLI, ["                let acc = rpc_client.get_account(&queue);\n                if acc.is_ok() {\n                    let account = acc?;\n"], ["                if let Ok(account) = rpc_client.get_account(&queue) {\n"])
same('cli-signer', CLI, upto(CLI,"    let signer = get_signer(\n","    );\n"), "    let identity = args.keypair.as_deref().unwrap_or(DEFAULT_IDENTITY);\n    let signer = Keypair::from_base58_string(identity);\n")
same('cli-early-return', CLI, ["            println!(\"Derived pubkey for ({}): {}\", signer.pubkey(), pk);\n            exit(0)\n"], ["            println!(\"Derived pubkey for ({}): {}\", signer.pubkey(), pk);\n            return Ok(());\n"])
same('cli-message', CLI, upto(CLI,"    let transaction =\n","&[&signer], blockhash);\n"), """    let payer = signer.pubkey();
    let signers = [&signer];
    let transaction = Transaction::new_signed_with_payer(&ixs[..], Some(&payer), &signers, blockhash);
""")
# ---- sdk
same('sdk-meta-fn', SI, ["            compat::latest::AccountMeta::new_readonly(program_identity, true),\n"], ["            compat::latest::AccountMeta {\n                pubkey: program_identity,\n                is_signer: true,\n                is_writable: false,\n            },\n"])
same('sdk-destructure', SI, [upto(SI,"    let payer = params.payer.modern();","&callback_program_id).0;\n"), upto(SI,"            caller_seed: params.caller_seed,","params.callback_args.unwrap_or_default(),\n")], ["""    let RequestRandomnessParams {
        payer,
        oracle_queue,
        callback_program_id,
        callback_discriminator,
        accounts_metas,
        caller_seed,
        callback_args,
    } = params;
    let payer = payer.modern();
    let oracle_queue = oracle_queue.modern();
    let (program_identity, _bump) = compat::latest::Pubkey::find_program_address(
        &[consts::IDENTITY],
        &callback_program_id.modern(),
    );
""","""            caller_seed,
            callback_program_id,
            callback_discriminator,
            callback_accounts_metas: accounts_metas.unwrap_or_else(Vec::new),
            callback_args: callback_args.unwrap_or(vec![]),
"""])
same('sdk-inner', SI, ["pub fn create_request_randomness_ix(params: RequestRandomnessParams) -> compat::Instruction {\n","        .to_bytes(),\n    }\n    .compat()\n",upto(SI,"    let mut ix = create_request_randomness_ix(params);","    ix\n")], ["""pub fn create_request_randomness_ix(params: RequestRandomnessParams) -> compat::Instruction {
    build_request(params, 3)
}

fn build_request(params: RequestRandomnessParams, tag: u8) -> compat::Instruction {
""","        .to_bytes_with(tag),\n    }\n    .compat()\n","    build_request(params, 8)\n"])
M[-1]=('same-sdk-inner','same',[SI,SI,SI,TY],M[-1][3]+["""    pub fn to_bytes(&self) -> Vec<u8> {
        let mut bytes = vec![3, 0, 0, 0, 0, 0, 0, 0];
"""],M[-1][4]+["""    pub fn to_bytes(&self) -> Vec<u8> {
        self.to_bytes_with(3)
    }

    pub(crate) fn to_bytes_with(&self, tag: u8) -> Vec<u8> {
        let mut bytes = vec![tag, 0, 0, 0, 0, 0, 0, 0];
"""])
same('rnd-array', RND, upto(RND,"    u64::from_le_bytes([\n","    ])\n"), """    let mut sampled = [0u8; 8];
    for (i, byte) in sampled.iter_mut().enumerate() {
        *byte = bytes[4 * i];
    }
    u64::from_le_bytes(sampled)
""")
same('rnd-fromfn', RND, upto(RND,"    u64::from_le_bytes([\n","    ])\n"), "    u64::from_le_bytes(core::array::from_fn(|i| bytes[i * 4]))\n")
same('rnd-u32-slice', RND, "    u32::from_le_bytes([bytes[28], bytes[29], bytes[30], bytes[31]])\n", "    u32::from_le_bytes(bytes[28..].try_into().unwrap())\n")
same('rnd-u32-shift', RND, "    u32::from_le_bytes([bytes[28], bytes[29], bytes[30], bytes[31]])\n", "    (bytes[28] as u32)\n        | (bytes[29] as u32) << 8\n        | (bytes[30] as u32) << 16\n        | (bytes[31] as u32) << 24\n")
same('rnd-range-iter', RND, upto(RND,"    for &b in bytes.iter().rev() {","as u16 % range) as u8\n"), """    let picked = bytes
        .iter()
        .rev()
        .map(|&b| u16::from(b))
        .find(|&b| b < threshold)
        .unwrap_or(bytes[31] as u16);
    min_value + (picked % range) as u8
""")
same('rnd-range-index', RND, upto(RND,"    for &b in bytes.iter().rev() {","        }\n    }\n"), """    for i in (0..bytes.len()).rev() {
        let b = bytes[i] as u16;
        if b >= threshold {
            continue;
        }
        return min_value + (b % range) as u8;
    }
""")
same('rnd-range-thr', RND, "    let threshold = 256 / range * range;\n", "    let threshold = 256 - 256 % range;\n")
same('rnd-bool-and', RND, "    (bytes[31] % 2) == 0\n", "    bytes[31] & 1 == 0\n")
same('compat-map-closure', CO, "        self.into_iter().map(Compat::compat).collect()\n", "        let mut converted = Vec::with_capacity(self.len());\n        for item in self {\n            converted.push(item.compat());\n        }\n        converted\n")
same('compat-pubkey', CO, "    fn compat(self) -> Self::Compat {\n        self.to_bytes().into()\n", "    fn compat(self) -> Self::Compat {\n        Pubkey::new_from_array(self.to_bytes())\n")
# ---- macro
same('mac-has-fn', MAC, ["        // Check for existing required fields\n        if field_name.eq(\"program_identity\") {\n            has_program_identity = true;\n        }\n"], ["        has_program_identity |= field_name == \"program_identity\";\n"])
same('mac-any', MAC, [upto(MAC,"        // Check for existing required fields\n","has_system_program = true;\n        }\n"),"    let mut has_program_identity = false;\n    let mut has_slot_hashes = false;\n    let mut has_vrf_program = false;\n    let mut has_system_program = false;\n"], ["","""    let has = |name: &str| {
        fields
            .iter()
            .any(|field| field.ident.as_ref().is_some_and(|ident| ident == name))
    };
    let has_program_identity = has("program_identity");
    let has_slot_hashes = has("slot_hashes");
    let has_vrf_program = has("vrf_program");
    let has_system_program = has("system_program");
"""])
same('mac-infos-let', MAC, upto(MAC,"                ::ephemeral_vrf_sdk::compat::anchor_lang::solana_program::program::invoke_signed(\n","&[bump.1]]],\n                )\n"), """                let infos = [
                    payer.clone(),
                    self.program_identity.to_account_info(),
                    self.oracle_queue.to_account_info(),
                    self.slot_hashes.to_account_info(),
                ];
                let bump_seed = [bump.1];
                let seeds: &[&[u8]] = &[ephemeral_vrf_sdk::consts::IDENTITY, &bump_seed];
                ::ephemeral_vrf_sdk::compat::anchor_lang::solana_program::program::invoke_signed(ix, &infos, &[seeds])
""")
