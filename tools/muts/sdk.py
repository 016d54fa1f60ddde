A='api/src/sdk.rs'; I='sdk/src/instructions.rs'; T='sdk/src/types.rs'; R='sdk/src/rnd.rs'; C='sdk/src/compat/mod.rs'; K='sdk/src/consts.rs'; D='sdk/src/pda.rs'; X='sdk/vrf-macro/src/lib.rs'
M=[
# behaviour preserving
('same-api-helper','same',A,["pub fn initialize(signer: Pubkey)","    let program_data_address =\n        Pubkey::find_program_address(&[crate::ID.as_ref()], &bpf_loader_upgradeable::id()).0;\n    Instruction {\n        program_id: crate::ID,\n        accounts: vec![\n            AccountMeta::new(signer, true),\n            AccountMeta::new(oracles_pda().0, false),\n            AccountMeta::new(oracle_data_pda(&identity).0, false),\n            AccountMeta::new_readonly(program_data_address, false),\n            AccountMeta::new_readonly(system_program::ID, false),\n        ],\n        data: ModifyOracle {\n            identity,\n            oracle_pubkey,"],["fn modify_accounts(signer: Pubkey, identity: &Pubkey) -> Vec<AccountMeta> {\n    let program_data_address =\n        Pubkey::find_program_address(&[crate::ID.as_ref()], &bpf_loader_upgradeable::id()).0;\n    let mut v = Vec::new();\n    v.push(AccountMeta::new(signer, true));\n    v.push(AccountMeta::new(oracles_pda().0, false));\n    v.push(AccountMeta::new(oracle_data_pda(identity).0, false));\n    v.push(AccountMeta::new_readonly(program_data_address, false));\n    v.push(AccountMeta::new_readonly(system_program::ID, false));\n    v\n}\n\npub fn initialize(signer: Pubkey)","    let accounts = modify_accounts(signer, &identity);\n    Instruction {\n        program_id: crate::ID,\n        accounts,\n        data: ModifyOracle {\n            identity,\n            oracle_pubkey,"]),
('same-api-map','same',A,["    for _ in 0..inits {\n        ixs.push(Instruction {","InitializeOracleQueue::new(index, target_size).to_bytes(),\n        })\n    }"],["    ixs.extend((0..inits).map(|_| Instruction {","InitializeOracleQueue::new(index, target_size).to_bytes(),\n        }));"]),
('same-api-vec','same',A,["    let mut ixs = Vec::with_capacity(inits as usize);\n    for _ in 0..inits {\n        ixs.push(Instruction {","            data: InitializeOracleQueue::new(index, target_size).to_bytes(),\n        })\n    }\n    ixs\n"],["    vec![Instruction {","            data: InitializeOracleQueue::new(index, target_size).to_bytes(),\n        }; inits as usize]\n"]),
('same-api-while','same',A,["    for _ in 0..inits {","InitializeOracleQueue::new(index, target_size).to_bytes(),\n        })\n"],["    let mut n = 0;\n    while n < inits {","InitializeOracleQueue::new(index, target_size).to_bytes(),\n        });\n        n += 1;\n"]),
('same-api-divceil','same',A,"target_size.div_ceil(10240)","target_size / 10240 + u32::from(target_size % 10240 != 0)"),
('same-api-meta-struct','same',A,"            AccountMeta::new(identity, true),\n            AccountMeta::new(oracle_data_pda(&identity).0, false),","            AccountMeta { pubkey: identity, is_signer: true, is_writable: true },\n            AccountMeta::new(oracle_data_pda(&identity).0, false),"),
('same-sdk-helper','same',I,["pub fn create_request_randomness_ix(","        accounts: vec![\n            compat::latest::AccountMeta::new(payer, true),\n            compat::latest::AccountMeta::new_readonly(program_identity, true),\n            compat::latest::AccountMeta::new(oracle_queue, false),\n            compat::latest::AccountMeta::new_readonly(compat::latest::system_program::ID, false),\n            compat::latest::AccountMeta::new_readonly(compat::latest::slot_hashes::ID, false),\n        ],"],["fn metas(p: compat::latest::Pubkey, i: compat::latest::Pubkey, q: compat::latest::Pubkey) -> Vec<compat::latest::AccountMeta> {\n    let mut v = Vec::with_capacity(5);\n    v.push(compat::latest::AccountMeta::new(p, true));\n    v.push(compat::latest::AccountMeta::new_readonly(i, true));\n    v.push(compat::latest::AccountMeta::new(q, false));\n    v.extend([compat::latest::system_program::ID, compat::latest::slot_hashes::ID].map(|k| compat::latest::AccountMeta::new_readonly(k, false)));\n    v\n}\n\npub fn create_request_randomness_ix(","        accounts: metas(payer, program_identity, oracle_queue),"]),
('same-sdk-bytes','same',T,"        let mut bytes = vec![3, 0, 0, 0, 0, 0, 0, 0];\n        self.serialize(&mut bytes).unwrap();\n        bytes\n","        let mut bytes = Vec::with_capacity(128);\n        bytes.extend_from_slice(&3u64.to_le_bytes());\n        self.serialize(&mut bytes).expect(\"serialize\");\n        bytes\n"),
('same-sdk-regular','same',I,"    ix.data[0] = 8;\n","    if let Some(tag) = ix.data.first_mut() {\n        *tag = 8;\n    }\n"),
('same-sdk-match','same',I,"params.accounts_metas.unwrap_or_default()","match params.accounts_metas {\n                Some(v) => v,\n                None => Vec::new(),\n            }"),
('same-compat-loop','same',C,"        self.into_iter().map(Compat::compat).collect()","        let mut out = Vec::with_capacity(self.len());\n        for x in self {\n            out.push(x.compat());\n        }\n        out"),
('same-rnd-try','same',R,"    u32::from_le_bytes([bytes[28], bytes[29], bytes[30], bytes[31]])","    u32::from_le_bytes(bytes[28..32].try_into().unwrap())"),
('same-rnd-u64','same',R,"    u64::from_le_bytes([\n        bytes[0], bytes[4], bytes[8], bytes[12], bytes[16], bytes[20], bytes[24], bytes[28],\n    ])","    let mut v = [0u8; 8];\n    for (i, x) in v.iter_mut().enumerate() {\n        *x = bytes[4 * i];\n    }\n    u64::from_le_bytes(v)"),
('same-rnd-bool','same',R,"(bytes[31] % 2) == 0","bytes[31] & 1 == 0"),
('same-rnd-find','same',R,["    // Try to find a byte that, when mapped, gives an unbiased result\n    for &b in bytes.iter().rev() {\n        let b = b as u16;\n        if b < threshold {\n            return min_value + (b % range) as u8;\n        }\n    }\n    // Fallback (slight bias, but rare fallback case)\n    min_value + (bytes[31] as u16 % range) as u8"],["    let pick = bytes\n        .iter()\n        .rev()\n        .map(|&b| u16::from(b))\n        .find(|&b| b < threshold)\n        .unwrap_or(u16::from(bytes[31]));\n    min_value + (pick % range) as u8"]),
('same-rnd-thresh','same',R,"    let threshold = 256 / range * range;","    let threshold = 256 - 256 % range;"),
('same-rnd-while','same',R,"    for &b in bytes.iter().rev() {\n        let b = b as u16;\n        if b < threshold {","    let mut i = bytes.len();\n    while i > 0 {\n        i -= 1;\n        let b = u16::from(bytes[i]);\n        if b < threshold {"),
('same-macro-match','same',X,"        if field_name.eq(\"program_identity\") {\n            has_program_identity = true;\n        }\n        if field_name.eq(\"vrf_program\") {\n            has_vrf_program = true;\n        }\n        if field_name.eq(\"slot_hashes\") {\n            has_slot_hashes = true;\n        }\n        if field_name.eq(\"system_program\") {\n            has_system_program = true;\n        }","        match field_name.to_string().as_str() {\n            \"program_identity\" => has_program_identity = true,\n            \"vrf_program\" => has_vrf_program = true,\n            \"slot_hashes\" => has_slot_hashes = true,\n            \"system_program\" => has_system_program = true,\n            _ => {}\n        }"),
('same-macro-order','same',X,["                        payer.clone(),\n                        self.program_identity.to_account_info(),","&[&[ephemeral_vrf_sdk::consts::IDENTITY, &[bump.1]]],"],["                        self.program_identity.to_account_info(),\n                        payer.clone(),\n                        self.system_program.to_account_info(),","&[&[b\"identity\", &[bump.1]]],"]),
('same-macro-find','same',X,"let bump = Pubkey::try_find_program_address(&[ephemeral_vrf_sdk::consts::IDENTITY], &crate::ID).ok_or(::ephemeral_vrf_sdk::compat::anchor_lang::prelude::ProgramError::InvalidSeeds)?;","let bump = Pubkey::find_program_address(&[ephemeral_vrf_sdk::consts::IDENTITY], &crate::ID);"),
('same-pda','same',D,"        delegation_record_seeds_from_delegated_account!(delegated_account),","        &[b\"delegation\", delegated_account.as_ref()],"),
# bugs
('bug-api-purge-order','bug',A,"            AccountMeta::new(identity, false),\n            AccountMeta::new(oracle_queue_pda(&identity, index).0, false),","            AccountMeta::new(oracle_queue_pda(&identity, index).0, false),\n            AccountMeta::new(identity, false),"),
('bug-api-divfloor','bug',A,"target_size.div_ceil(10240)","(target_size / 10240).max(1)"),
('bug-api-chunk','bug',A,"target_size.div_ceil(10240)","target_size.div_ceil(10000)"),
('bug-api-target','bug',A,"InitializeOracleQueue::new(index, target_size).to_bytes()","InitializeOracleQueue::new(index, target_size.min(10240)).to_bytes()"),
('bug-api-remove-op','bug',A,"            operation: 1,","            operation: 2,"),
('bug-api-queue-ro','bug',A,"            AccountMeta::new(oracle_queue, false),\n            AccountMeta::new_readonly(callback_program_id, false),","            AccountMeta::new_readonly(oracle_queue, false),\n            AccountMeta::new_readonly(callback_program_id, false),"),
('bug-api-swap','bug',A,"            commitment_base_compressed,\n            commitment_hash_compressed,\n            scalar: s,","            commitment_base_compressed: commitment_hash_compressed,\n            commitment_hash_compressed: commitment_base_compressed,\n            scalar: s,"),
('bug-api-idx0','bug',A,"AccountMeta::new(oracle_queue_pda(&identity, index).0, false),\n        ],\n        data: CloseOracleQueue { index }.to_bytes(),","AccountMeta::new(oracle_queue_pda(&identity, 0).0, false),\n        ],\n        data: CloseOracleQueue { index }.to_bytes(),"),
('bug-api-undelegate-ro','bug',A,"AccountMeta::new(MAGIC_CONTEXT_ID, false)","AccountMeta::new_readonly(MAGIC_CONTEXT_ID, false)"),
('bug-sdk-pid','bug',I,"&[consts::IDENTITY], &callback_program_id)","&[consts::IDENTITY], &consts::VRF_PROGRAM_ID.modern())"),
('bug-sdk-args','bug',I,"params.callback_args.unwrap_or_default(),","params.callback_args.filter(|a| a.len() <= 256).unwrap_or_default(),"),
('bug-sdk-fieldorder','bug',T,"    pub is_signer: bool,\n    pub is_writable: bool,","    pub is_writable: bool,\n    pub is_signer: bool,"),
('bug-sdk-regular','bug',I,"    ix.data[0] = 8;\n","    ix.data[0] = 3;\n"),
('bug-sdk-tag','bug',T,"vec![3, 0,","vec![8, 0,"),
('bug-compat-flag','bug',C,"        AccountMeta {\n            pubkey: self.pubkey.compat(),\n            is_signer: self.is_signer,\n            is_writable: self.is_writable,","        AccountMeta {\n            pubkey: self.pubkey.compat(),\n            is_signer: self.is_signer,\n            is_writable: self.is_writable || self.is_signer,"),
('bug-compat-rev','bug',C,"        self.into_iter().map(Compat::compat).collect()","        self.into_iter().rev().map(Compat::compat).collect()"),
('bug-rnd-range255','bug',R,"(max_value - min_value) as u16 + 1","(max_value - min_value).wrapping_add(1) as u16"),
('bug-rnd-le','bug',R,"if b < threshold {","if b <= threshold {"),
('bug-rnd-bias','bug',R,"let threshold = 256 / range * range;","let threshold = 255 / range * range;"),
('bug-rnd-excl','bug',R,"as u16 + 1;","as u16;"),
('bug-rnd-dup','bug',R,"bytes[28], bytes[29], bytes[30], bytes[31]]","bytes[28], bytes[29], bytes[30], bytes[30]]"),
('bug-rnd-bool','bug',R,"(bytes[31] % 2) == 0","(bytes[31] % 3) == 0"),
('bug-macro-contains','bug',X,"field_name.eq(\"system_program\")","field_name.to_string().starts_with(\"system_program\")"),
('bug-macro-noseeds','bug',X,"            #[account(seeds = [b\"identity\"], bump)]\n","            #[account()]\n"),
('bug-macro-slothash','bug',X,"            #[account(address = ::ephemeral_vrf_sdk::compat::slot_hashes::ID)]\n","            #[account(address = ::ephemeral_vrf_sdk::compat::system_program::ID)]\n"),
('bug-macro-attrs','bug',X,"            #(#field_attrs)*\n            pub #field_name","            pub #field_name"),
('bug-macro-bump255','bug',X,"&[bump.1]]]","&[255u8]]]"),
('bug-macro-vrfid','bug',X,"IDENTITY], &crate::ID)","IDENTITY], &ix.program_id)"),
('bug-macro-queue','bug',X,"                        self.oracle_queue.to_account_info(),\n",""),
('bug-const-identity','bug',K,"9irBy75QS2BN81FUgXuHcjqceJJRuc9oDkAe8TKVvvAw","9irBy75QS2BN81FUgXuHcjqceJJRuc9oDkAe8TKVvvAx"),
('bug-const-queue','bug',K,"5hBR571xnXppuCPveTrctfTU7tJLSN94nq7kv7FRK5Tc","Cuj97ggrhhidhbu39TijNVqE74xvKJ69gDervRUXAxGh"),
('bug-macro-sysprog-order','bug',X,"    if !has_vrf_program {\n","    if !has_vrf_program && !has_program_identity {\n"),
]
