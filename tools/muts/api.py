S='api/src/steel.rs'; P='api/src/pda.rs'; L='api/src/loaders.rs'; I='api/src/instruction.rs'; SM='api/src/state/mod.rs'; MA='api/src/state/macros.rs'; MC='api/src/macros.rs'; OS='api/src/state/oracles.rs'; Q='api/src/state/queue.rs'; FEE='program/src/fees.rs'; V='api/src/verify.rs'
M=[
('same-create-split','same',P,["""        // Otherwise, if balance is nonzero:
        // 1) transfer sufficient lamports for rent exemption
        let rent_exempt_balance = rent
            .minimum_balance(space)
            .saturating_sub(target_account.lamports());
        if rent_exempt_balance.gt(&0) {
            solana_program::program::invoke(
                &system_instruction::transfer(payer.key, target_account.key, rent_exempt_balance),
                &[
                    payer.as_ref().clone(),
                    target_account.as_ref().clone(),
                    system_program.as_ref().clone(),
                ],
            )?;
        }
""","/// Resize PDA\n"],["""        top_up(target_account, rent.minimum_balance(space), system_program, payer)?;
""","""fn top_up<'info>(
    target: &AccountInfo<'info>,
    needed: u64,
    system_program: &AccountInfo<'info>,
    payer: &AccountInfo<'info>,
) -> ProgramResult {
    let held = target.lamports();
    if held >= needed {
        return Ok(());
    }
    invoke(
        &system_instruction::transfer(payer.key, target.key, needed - held),
        &[payer.clone(), target.clone(), system_program.clone()],
    )
}

/// Resize PDA
"""]),
('same-create-early','same',P,["    if target_account.lamports().eq(&0) {"],["    let unfunded = target_account.lamports() == 0;\n    if unfunded {"]),
('same-resize-cmp','same',P,"""    let lamports_diff = new_minimum_balance.saturating_sub(pda.lamports());
    if lamports_diff > 0 {
        invoke(
            &system_instruction::transfer(payer.key, pda.key, lamports_diff),
            &[payer.clone(), pda.clone(), system_program.clone()],
        )?;
    } else {
        let abs_diff = pda.lamports().saturating_sub(new_minimum_balance);
        **pda.try_borrow_mut_lamports()? -= abs_diff;
        **payer.try_borrow_mut_lamports()? += abs_diff;
    }
""","""    let current = pda.lamports();
    match new_minimum_balance.cmp(&current) {
        std::cmp::Ordering::Greater => invoke(
            &system_instruction::transfer(payer.key, pda.key, new_minimum_balance - current),
            &[payer.clone(), pda.clone(), system_program.clone()],
        )?,
        std::cmp::Ordering::Equal => (),
        std::cmp::Ordering::Less => {
            let excess = current - new_minimum_balance;
            **pda.try_borrow_mut_lamports()? -= excess;
            **payer.try_borrow_mut_lamports()? += excess;
        }
    }
"""),
('same-resize-if','same',P,"    if lamports_diff > 0 {\n        invoke(","    if pda.lamports() < new_minimum_balance {\n        invoke("),
('same-fee-iflet','same',FEE,"""    **queue_lamports = (**queue_lamports)
        .checked_sub(amount)
        .ok_or(ProgramError::InsufficientFunds)?;
    **oracle_lamports = (**oracle_lamports)
        .checked_add(amount)
        .ok_or(ProgramError::InvalidArgument)?;
""","""    let Some(left) = queue_lamports.checked_sub(amount) else {
        return Err(ProgramError::InsufficientFunds);
    };
    let Some(total) = oracle_lamports.checked_add(amount) else {
        return Err(ProgramError::InvalidArgument);
    };
    **queue_lamports = left;
    **oracle_lamports = total;
"""),
('same-fee-cmp','same',FEE,"""    **queue_lamports = (**queue_lamports)
        .checked_sub(amount)
        .ok_or(ProgramError::InsufficientFunds)?;
""","""    if **queue_lamports < amount {
        return Err(ProgramError::InsufficientFunds);
    }
    **queue_lamports -= amount;
"""),
('same-close-local','same',S,"""    **recipient.try_borrow_mut_lamports()? += account_info.lamports();
    **account_info.try_borrow_mut_lamports()? = 0;
""","""    let amount = account_info.lamports();
    **account_info.try_borrow_mut_lamports()? -= amount;
    **recipient.try_borrow_mut_lamports()? += amount;
"""),
('same-close-checked','same',S,"""    **recipient.try_borrow_mut_lamports()? += account_info.lamports();
    **account_info.try_borrow_mut_lamports()? = 0;
""","""    let sum = recipient
        .lamports()
        .checked_add(account_info.lamports())
        .ok_or(ProgramError::InvalidArgument)?;
    **recipient.try_borrow_mut_lamports()? = sum;
    **account_info.try_borrow_mut_lamports()? = 0;
"""),
('same-close-order','same',S,"    account_info.assign(&system_program::ID);\n    account_info.resize(0)\n","    account_info.resize(0)?;\n    account_info.assign(&system_program::ID);\n    Ok(())\n"),
('same-seeds-key','same',S,["""        let (pda, _) = Pubkey::find_program_address(seeds, program_id);
        if self.key != &pda {
            return Err(trace(
                "Account has invalid seeds",
                ProgramError::InvalidSeeds,
            ));
        }
        Ok(self)
"""],["""        if Pubkey::find_program_address(seeds, program_id).0 == *self.key {
            Ok(self)
        } else {
            Err(trace("Account has invalid seeds", ProgramError::InvalidSeeds))
        }
"""]),
('same-check-helper','same',S,["""        if !self.is_signer {
            return Err(trace(
                "Account is not a signer",
                ProgramError::MissingRequiredSignature,
            ));
        }
        Ok(self)
""","""        if self.owner != owner {
            return Err(trace(
                "Account has invalid owner",
                ProgramError::InvalidAccountOwner,
            ));
        }
        Ok(self)
""","pub trait AsAccount {"],["""        require(self.is_signer, "Account is not a signer", ProgramError::MissingRequiredSignature)?;
        Ok(self)
""","""        require(self.owner == owner, "Account has invalid owner", ProgramError::InvalidAccountOwner)
            .map(|()| self)
""","""fn require(cond: bool, msg: &str, err: ProgramError) -> ProgramResult {
    if cond {
        Ok(())
    } else {
        Err(trace(msg, err))
    }
}

pub trait AsAccount {"""]),
('same-asaccount-helper','same',S,["""        self.has_owner(program_id)?;
        let data = self.try_borrow_data()?;
        let expected_len = 8 + core::mem::size_of::<T>();
        if data.len() != expected_len {
            return Err(ProgramError::InvalidAccountData);
        }
        T::try_from_bytes(&data)?;
        Ok(Ref::map(data, |data| bytemuck::from_bytes(&data[8..])))
"""],["""        self.has_owner(program_id)?;
        let data = self.try_borrow_data()?;
        if data.len() == 8 + core::mem::size_of::<T>() && T::try_from_bytes(&data).is_ok() {
            Ok(Ref::map(data, |data| bytemuck::from_bytes(&data[8..])))
        } else {
            Err(ProgramError::InvalidAccountData)
        }
"""]),
('same-deser-split','same',S,["""        if data.len() < 8 || Self::discriminator() != data[0] {
            return Err(ProgramError::InvalidAccountData);
        }
        bytemuck::try_from_bytes::<Self>(&data[8..]).map_err(|_| ProgramError::InvalidAccountData)
"""],["""        let body = match data.first() {
            Some(tag) if *tag == Self::discriminator() && data.len() >= 8 => &data[8..],
            _ => return Err(ProgramError::InvalidAccountData),
        };
        bytemuck::try_from_bytes::<Self>(body).or(Err(ProgramError::InvalidAccountData))
"""]),
('same-zeroed-any','same',L,["""    let is_zeroed = data.iter().all(|&b| b == 0);
    if is_zeroed {
        Ok(())
    } else {
        Err(trace(
            "Account already initialized",
            ProgramError::AccountAlreadyInitialized,
        ))
    }
"""],["""    if data.iter().any(|b| *b != 0) {
        return Err(trace(
            "Account already initialized",
            ProgramError::AccountAlreadyInitialized,
        ));
    }
    Ok(())
"""]),
('same-zeroed-loop','same',L,["""    let is_zeroed = data.iter().all(|&b| b == 0);
    if is_zeroed {
        Ok(())
    } else {
        Err(trace(
            "Account already initialized",
            ProgramError::AccountAlreadyInitialized,
        ))
    }
"""],["""    for b in data.iter() {
        if *b != 0 {
            return Err(trace(
                "Account already initialized",
                ProgramError::AccountAlreadyInitialized,
            ));
        }
    }
    Ok(())
"""]),
('same-auth-match','same',L,["""    if let UpgradeableLoaderState::ProgramData {
        upgrade_authority_address,
        ..
    } = bincode::deserialize(&program_account_data).map_err(|_| {
        msg!("Unable to deserialize ProgramData {}", program);
        ProgramError::InvalidAccountData
    })? {
        Ok(upgrade_authority_address)
    } else {
        msg!("Expected program account {} to hold ProgramData", program);
        Err(ProgramError::InvalidAccountData)
    }
"""],["""    match bincode::deserialize(&program_account_data) {
        Ok(UpgradeableLoaderState::ProgramData {
            upgrade_authority_address,
            ..
        }) => Ok(upgrade_authority_address),
        Ok(_) | Err(_) => {
            msg!("Expected program account {} to hold ProgramData", program);
            Err(ProgramError::InvalidAccountData)
        }
    }
"""]),
('same-size-const','same',OS,"        let item_size = 32;\n        8 + 4 + (item_size * self.oracles.len())","        12 + self.oracles.len() * std::mem::size_of::<Pubkey>()"),
('same-tobytes-chain','same',MA,["""                // Allocate a buffer with the discriminator (8 bytes) + estimated serialized size
                let mut buffer = Vec::with_capacity(8 + std::mem::size_of::<Self>());

                // Write the discriminator
                buffer.extend_from_slice(&Self::discriminator().to_bytes());

                // Serialize the struct with borsh
                let serialized = borsh::to_vec(self).map_err(|_| {
                    ::solana_program::program_error::ProgramError::InvalidAccountData
                })?;

                // Append the serialized data
                buffer.extend_from_slice(&serialized);

                Ok(buffer)
"""],["""                let body = borsh::to_vec(self).map_err(|_| {
                    ::solana_program::program_error::ProgramError::InvalidAccountData
                })?;
                Ok([&Self::discriminator().to_bytes()[..], body.as_slice()].concat())
"""]),
('same-tobytes-serialize','same',MA,["""                // Serialize the struct with borsh
                let serialized = borsh::to_vec(self).map_err(|_| {
                    ::solana_program::program_error::ProgramError::InvalidAccountData
                })?;

                // Append the serialized data
                buffer.extend_from_slice(&serialized);
"""],["""                borsh::BorshSerialize::serialize(self, &mut buffer).map_err(|_| {
                    ::solana_program::program_error::ProgramError::InvalidAccountData
                })?;
"""]),
('same-frombytes','same',MA,["""                // Check if data is long enough to contain the discriminator
                if data.len() < 8 {
                    return Err(::solana_program::program_error::ProgramError::InvalidAccountData);
                }

                // Verify the discriminator
                if Self::discriminator().to_bytes().ne(&data[..8]) {
                    return Err(::solana_program::program_error::ProgramError::InvalidAccountData);
                }

                // Use borsh to deserialize
                let deserialized = <Self as ::borsh::BorshDeserialize>::try_from_slice(&data[8..])
"""],["""                let body = data
                    .strip_prefix(&Self::discriminator().to_bytes()[..])
                    .ok_or(::solana_program::program_error::ProgramError::InvalidAccountData)?;
                let deserialized = <Self as ::borsh::BorshDeserialize>::try_from_slice(body)
"""]),
('same-pda-bytes','same',SM,"    Pubkey::find_program_address(&[ORACLE_DATA, identity.to_bytes().as_slice()], &crate::id())","    Pubkey::find_program_address(&[ORACLE_DATA, identity.as_ref()], &crate::ID)"),
('same-req-bytes','same',I,["""        let mut bytes = vec![
            EphemeralVrfInstruction::RequestHighPriorityRandomness as u8,
            0,
            0,
            0,
            0,
            0,
            0,
            0,
        ];
        self.serialize(&mut bytes).unwrap();
        bytes
"""],["""        let mut bytes = vec![0u8; 8];
        bytes[0] = EphemeralVrfInstruction::RequestHighPriorityRandomness as u8;
        bytes.extend(borsh::to_vec(self).unwrap());
        bytes
"""]),
('same-createacc-via-pda','same',S,["""    let bump = Pubkey::find_program_address(seeds, owner).1;
    let bump_slice = &[bump];
    let signer_seeds = [seeds, &[bump_slice]].concat();
    let space = 8 + core::mem::size_of::<T>();
    let rent = solana_program::rent::Rent::get()?;

    if target_account.lamports() == 0 {
        solana_program::program::invoke_signed(
            &system_instruction::create_account(
                payer.key,
                target_account.key,
                rent.minimum_balance(space),
                space as u64,
                owner,
            ),
            &[
                payer.clone(),
                target_account.clone(),
                system_program.clone(),
            ],
            &[&signer_seeds],
        )?;
    } else {
        let rent_exempt_balance = rent
            .minimum_balance(space)
            .saturating_sub(target_account.lamports());
        if rent_exempt_balance > 0 {
            solana_program::program::invoke(
                &system_instruction::transfer(payer.key, target_account.key, rent_exempt_balance),
                &[
                    payer.clone(),
                    target_account.clone(),
                    system_program.clone(),
                ],
            )?;
        }

        solana_program::program::invoke_signed(
            &system_instruction::allocate(target_account.key, space as u64),
            &[target_account.clone(), system_program.clone()],
            &[&signer_seeds],
        )?;

        solana_program::program::invoke_signed(
            &system_instruction::assign(target_account.key, owner),
            &[target_account.clone(), system_program.clone()],
            &[&signer_seeds],
        )?;
    }
"""],["""    let bump = Pubkey::find_program_address(seeds, owner).1;
    let space = 8 + core::mem::size_of::<T>();
    crate::pda::create_pda(target_account, owner, space, seeds, bump, system_program, payer)?;
"""]),
# bugs
('bug-create-norent','bug',P,"            .saturating_sub(target_account.lamports());\n        if rent_exempt_balance.gt(&0) {","            .saturating_sub(target_account.lamports());\n        if rent_exempt_balance.gt(&890880) {"),
('bug-create-assign-first-skip','bug',P,"        // 3) assign our program as the owner\n        solana_program::program::invoke_signed(\n            &system_instruction::assign(target_account.key, owner),","        // 3) assign our program as the owner\n        solana_program::program::invoke_signed(\n            &system_instruction::assign(target_account.key, payer.owner),"),
('bug-resize-norefund','bug',P,"        **payer.try_borrow_mut_lamports()? += abs_diff;\n","        let _ = payer;\n"),
('bug-resize-shrinkonly','bug',P,"    pda.resize(new_size)?;","    if new_size > pda.data_len() {\n        pda.resize(new_size)?;\n    }"),
('bug-close-nozero','bug',S,"    **account_info.try_borrow_mut_lamports()? = 0;\n","    if recipient.lamports() == 0 {\n        **account_info.try_borrow_mut_lamports()? = 0;\n    }\n"),
('bug-close-noassign','bug',S,"    account_info.assign(&system_program::ID);\n",""),
('bug-close-noresize','bug',S,"    account_info.resize(0)\n","    account_info.resize(account_info.data_len().min(8))\n"),
('bug-asaccount-noowner','bug',S,"        self.has_owner(program_id)?;\n        let data = self.try_borrow_data()?;","        let _ = program_id;\n        let data = self.try_borrow_data()?;"),
('bug-asaccount-notag','bug',S,"        T::try_from_bytes(&data)?;\n",""),
('bug-asmut-nowritable','bug',S,"        self.has_owner(program_id)?;\n        self.is_writable()?;\n","        self.has_owner(program_id)?;\n"),
('bug-deser-tagor','bug',S,"data.len() < 8 || Self::discriminator() != data[0]","data.len() < 8 || (Self::discriminator() != data[0] && data[0] != 0)"),
('bug-sysvar-noowner','bug',S,"        self.has_owner(&sysvar::ID)?.has_address(sysvar_id)","        self.has_owner(&sysvar::ID).or(self.has_address(sysvar_id))"),
('bug-zeroed-partial','bug',L,"data.iter().all(|&b| b == 0)","data.iter().skip(8).all(|&b| b == 0)"),
('bug-zeroed-8','bug',L,"data.iter().all(|&b| b == 0)","data.iter().take(8).all(|&b| b == 0)"),
('bug-auth-address','bug',L,"    if !program_data_address.eq(program_data.key) {","    if !program_data_address.eq(program_data.key) && program_data.owner != &bpf_loader_upgradeable::id() {"),
('bug-size-30','bug',OS,"let item_size = 32;","let item_size = 33;"),
('bug-frombytes-notag','bug',MA,"Self::discriminator().to_bytes().ne(&data[..8])","data[..1].ne(&Self::discriminator().to_bytes()[..1]) && data[1] != 0"),
('bug-disc-collide','bug',SM,"    Queue = 3,","    Queue = 1,") if 0 else
('bug-disc-renumber','bug',SM,"    Queue = 3,","    Queue = 2,"),
('bug-ix-renumber','bug',I,["    CloseOracleQueue = 7,","    RequestRandomness = 8,"],["    CloseOracleQueue = 8,","    RequestRandomness = 7,"]),
('bug-req-wire','bug',I,"    pub callback_discriminator: Vec<u8>,\n    pub callback_accounts_metas: Vec<SerializableAccountMeta>,\n    pub callback_args: Vec<u8>,","    pub callback_args: Vec<u8>,\n    pub callback_accounts_metas: Vec<SerializableAccountMeta>,\n    pub callback_discriminator: Vec<u8>,"),
('bug-req-trailing','bug',I,"        Vec::<Vec<u8>>::try_from_slice(data).map_err(|_| ProgramError::InvalidInstructionData)","        Ok(Vec::<Vec<u8>>::try_from_slice(data).unwrap_or_default())"),
('bug-fee-wrap','bug',FEE,".checked_sub(amount)\n        .ok_or(ProgramError::InsufficientFunds)?;",".saturating_sub(amount);"),
('bug-fee-min','bug',FEE,"    **queue_lamports = ","    let amount = amount.min(**queue_lamports);\n    **queue_lamports = "),
('bug-pda-index','bug',SM,"        &[QUEUE, identity.to_bytes().as_slice(), &[index]],","        &[QUEUE, identity.to_bytes().as_slice(), &[index & 0x7f]],"),
('bug-curve','bug',V,"    validate_edwards(&PodEdwardsPoint(key.to_bytes()))","    validate_edwards(&PodEdwardsPoint(key.to_bytes())) || key.to_bytes()[31] == 0"),
('bug-createacc-tag','bug',S,"    data[0] = T::discriminator();\n","    data[7] = T::discriminator();\n"),
]
