"""Restructurings of the macro, the cryptography, SDK types and the CLI, and look-alike bugs."""
import subprocess
M = []
def src(f): return subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + f], text=True)
def upto(f, a, b):
    s = src(f); i = s.index(a); j = s.index(b, i) + len(b); return s[i:j]
def same(name, path, old, new): M.append(('same-' + name, 'same', path, old, new))
def bug(name, path, old, new): M.append(('bug-' + name, 'bug', path, old, new))
MAC = 'sdk/vrf-macro/src/lib.rs'; VRF = 'vrf/src/vrf.rs'; VER = 'api/src/verify.rs'; TY = 'sdk/src/types.rs'; CO = 'sdk/src/compat/mod.rs'; CLI = 'vrf-cli/src/main.rs'
CHK = upto(MAC, "        // Check for existing required fields\n", "            has_system_program = true;\n        }\n")
same('mac-match', MAC, CHK, """        match field_name.to_string().as_str() {
            "program_identity" => has_program_identity = true,
            "vrf_program" => has_vrf_program = true,
            "slot_hashes" => has_slot_hashes = true,
            "system_program" => has_system_program = true,
            _ => {}
        }
""")
same('mac-or', MAC, CHK, """        has_program_identity |= field_name == "program_identity";
        has_vrf_program |= field_name == "vrf_program";
        has_slot_hashes |= field_name == "slot_hashes";
        has_system_program |= field_name == "system_program";
""")
same('mac-any', MAC, [CHK, "    // Add missing required fields\n", "    let mut has_program_identity = false;\n    let mut has_slot_hashes = false;\n    let mut has_vrf_program = false;\n    let mut has_system_program = false;\n"], ["", """    let declares = |wanted: &str| {
        fields
            .iter()
            .filter_map(|f| f.ident.as_ref())
            .any(|name| name == wanted)
    };
    let has_program_identity = declares("program_identity");
    let has_slot_hashes = declares("slot_hashes");
    let has_vrf_program = declares("vrf_program");
    let has_system_program = declares("system_program");
""", ""])
bug('mac-prefix', MAC, 'if field_name.eq("slot_hashes") {', 'if field_name.to_string().starts_with("slot_hashes") {')
same('mac-bump-tuple', MAC, "                let bump = Pubkey::try_find", "                let (_, bump) = Pubkey::try_find")if 0 else None
same('mac-find', MAC, ["                let bump = Pubkey::try_find_program_address(", "&[bump.1]]],"], ["                let (_, bump) = Pubkey::try_find_program_address(", "&[bump]]],"])
same('mac-accounts-let', MAC, upto(MAC, "                ::ephemeral_vrf_sdk::compat::anchor_lang::solana_program::program::invoke_signed(\n", "                )\n"), """                let account_infos = [
                    payer.clone(),
                    self.program_identity.to_account_info(),
                    self.oracle_queue.to_account_info(),
                    self.slot_hashes.to_account_info(),
                ];
                let signer: &[&[u8]] = &[ephemeral_vrf_sdk::consts::IDENTITY, &[bump.1]];
                ::ephemeral_vrf_sdk::compat::anchor_lang::solana_program::program::invoke_signed(
                    ix,
                    &account_infos,
                    &[signer],
                )
""")
bug('mac-identity-unseeded', MAC, "            #[account(seeds = [b\"identity\"], bump)]\n            pub program_identity", "            pub program_identity")
# ------------------------------------------------------------ vrf
KD = "    let sk = Scalar::from_bytes_mod_order(okm[..32].try_into().unwrap());\n    let pk = &sk * RISTRETTO_BASEPOINT_TABLE;\n    (sk, pk)\n"
same('kd-copy', VRF, KD, "    let mut secret = [0u8; 32];\n    secret.copy_from_slice(&okm[..32]);\n    let sk = Scalar::from_bytes_mod_order(secret);\n    let pk = RistrettoPoint::mul_base(&sk);\n    (sk, pk)\n")
same('kd-32', VRF, "    let mut okm = [0u8; 64];\n    hkdf.expand(b\"VRF-Key\", &mut okm)", "    let mut okm = [0u8; 32];\n    hkdf.expand(b\"VRF-Key\", &mut okm)") if 0 else None
DEC = upto(VRF, "    let output = match output_compressed.decompress() {\n", "        None => return false,\n    };\n\n    // Recompute h")
same('dec-let-else', VRF, DEC, """    let (Some(output), Some(commitment_base), Some(commitment_hash)) = (
        output_compressed.decompress(),
        commitment_base_compressed.decompress(),
        commitment_hash_compressed.decompress(),
    ) else {
        return false;
    };

    // Recompute h""")
CH = upto(VRF, "    let challenge_input = [\n        VRF_PREFIX_CHALLENGE.to_vec(),\n        output_compressed", "    .concat();\n")
same('ch-extend', VRF, CH, """    let mut challenge_input = Vec::with_capacity(192);
    challenge_input.extend_from_slice(VRF_PREFIX_CHALLENGE);
    for part in [
        output_compressed.as_bytes(),
        commitment_base_compressed.as_bytes(),
        commitment_hash_compressed.as_bytes(),
        pk.compress().as_bytes(),
        input,
    ] {
        challenge_input.extend_from_slice(part);
    }
""")
same('eq-early', VRF, "    lhs_base == rhs_base && lhs_hash == rhs_hash\n", "    if lhs_base != rhs_base {\n        return false;\n    }\n    (lhs_hash - rhs_hash) == RistrettoPoint::default()\n") if 0 else None
same('eq-early', VRF, "    lhs_base == rhs_base && lhs_hash == rhs_hash\n", "    let base_ok = lhs_base.eq(&rhs_base);\n    let hash_ok = rhs_hash.eq(&lhs_hash);\n    base_ok & hash_ok\n")
bug('eq-or', VRF, "    lhs_base == rhs_base && lhs_hash == rhs_hash\n", "    let base_ok = lhs_base.eq(&rhs_base);\n    let hash_ok = rhs_hash.eq(&lhs_hash);\n    base_ok | hash_ok\n")
bug('ch-zip', VRF, CH, CH + "    let challenge_input = &challenge_input[..challenge_input.len() - (input[31] == 0) as usize];\n    let challenge_input = challenge_input.to_vec();\n")
same('s-mul', VRF, "    let s = k + c * sk;\n", "    let mut s = c * sk;\n    s += k;\n")
same('pk-param', VRF, "    let vrf_output = sk * h;\n", "    let vrf_output = h * sk;\n")
VCH = upto(VER, "    let challenge_input = [\n", "    .concat();\n")
same('ver-hashv', VER, ["use solana_program::hash::hash;\n", VCH, "    let challenge_hash = hash(challenge_input.as_slice());\n"], ["use solana_program::hash::{hash, hashv};\n", "", """    let challenge_hash = hashv(&[
        VRF_PREFIX_CHALLENGE,
        &output_compressed.0,
        &commitment_base_compressed.0,
        &commitment_hash_compressed.0,
        &pk.0,
        input,
    ]);
"""])
same('ver-let-else', VER, "    let lhs_base = match multiply_ristretto(s, &RISTRETTO_BASEPOINT_POINT) {\n        Some(result) => result,\n        None => return false,\n    };\n", "    let Some(lhs_base) = multiply_ristretto(s, &RISTRETTO_BASEPOINT_POINT) else {\n        return false;\n    };\n")
same('ver-and-then', VER, upto(VER, "    let rhs_base_r = match", "    let rhs_base = match add_ristretto(commitment_base_compressed, &rhs_base_r) {\n        Some(result) => result,\n        None => return false,\n    };\n"), """    let Some(rhs_base) = multiply_ristretto(&c, pk)
        .and_then(|scaled| add_ristretto(commitment_base_compressed, &scaled))
    else {
        return false;
    };
""")
# ------------------------------------------------------------ types / compat
same('ty-array', TY, "        let mut bytes = vec![3, 0, 0, 0, 0, 0, 0, 0];\n        self.serialize(&mut bytes).unwrap();\n        bytes\n", "        let mut bytes = 3u64.to_le_bytes().to_vec();\n        bytes.extend(compat::borsh::to_vec(self).unwrap());\n        bytes\n")
same('ty-cap', TY, "        let mut bytes = vec![3, 0, 0, 0, 0, 0, 0, 0];\n", "        let mut bytes = Vec::with_capacity(8 + 128);\n        bytes.push(3u8);\n        bytes.resize(8, 0);\n")
bug('ty-code-by-args', TY, "        let mut bytes = vec![3, 0, 0, 0, 0, 0, 0, 0];\n", "        let mut bytes = vec![if self.callback_args.len() > 255 { 8 } else { 3 }, 0, 0, 0, 0, 0, 0, 0];\n")
same('co-destructure', CO, "            program_id: self.program_id.modern(),\n            accounts: self.accounts.modern(),\n            data: self.data,\n", "            data: self.data,\n            accounts: self.accounts.into_iter().map(|meta| meta.modern()).collect(),\n            program_id: self.program_id.modern(),\n")
same('co-meta-new', CO, "        latest::AccountMeta {\n            pubkey: self.pubkey.modern(),\n            is_signer: self.is_signer,\n            is_writable: self.is_writable,\n        }\n", "        let pubkey = self.pubkey.modern();\n        if self.is_writable {\n            latest::AccountMeta::new(pubkey, self.is_signer)\n        } else {\n            latest::AccountMeta::new_readonly(pubkey, self.is_signer)\n        }\n")
bug('co-meta-signer', CO, "        latest::AccountMeta {\n            pubkey: self.pubkey.modern(),\n            is_signer: self.is_signer,\n            is_writable: self.is_writable,\n        }\n", "        let pubkey = self.pubkey.modern();\n        if self.is_writable {\n            latest::AccountMeta::new(pubkey, self.is_signer)\n        } else {\n            latest::AccountMeta::new_readonly(pubkey, false)\n        }\n")
# ------------------------------------------------------------ CLI
TX = upto(CLI, "    let mut ixs = Vec::with_capacity(1 + instructions.len());\n", "    ixs.extend_from_slice(&instructions);\n")
same('cli-chain', CLI, TX, "    let ixs: Vec<_> = std::iter::once(compute_budget_ix).chain(instructions).collect();\n")
same('cli-insert', CLI, TX, "    let mut ixs = instructions;\n    ixs.insert(0, compute_budget_ix);\n")
same('cli-concat', CLI, TX, "    let ixs = [vec![compute_budget_ix], instructions].concat();\n")
same('cli-message', CLI, "    let transaction =\n        Transaction::new_signed_with_payer(&ixs, Some(&signer.pubkey()), &[&signer], blockhash);\n", "    let payer = signer.pubkey();\n    let signers = [&signer];\n    let transaction = Transaction::new_signed_with_payer(&ixs, Some(&payer), &signers, blockhash);\n")
same('cli-unsigned', CLI, "    let transaction =\n        Transaction::new_signed_with_payer(&ixs, Some(&signer.pubkey()), &[&signer], blockhash);\n", "    let mut transaction = Transaction::new_with_payer(&ixs, Some(&signer.pubkey()));\n    transaction.sign(&[&signer], blockhash);\n")
bug('cli-take', CLI, TX, "    let ixs: Vec<_> = std::iter::once(compute_budget_ix).chain(instructions.into_iter().take(4)).collect();\n")
same('cli-signer-map', CLI, "        args.keypair\n            .unwrap_or(DEFAULT_IDENTITY.to_string())\n            .as_str(),\n", "        args.keypair.as_deref().unwrap_or(DEFAULT_IDENTITY),\n")
same('cli-signer-match', CLI, "    let signer = get_signer(\n        args.keypair\n            .unwrap_or(DEFAULT_IDENTITY.to_string())\n            .as_str(),\n    );\n", "    let signer = match &args.keypair {\n        Some(given) => get_signer(given),\n        None => get_signer(DEFAULT_IDENTITY),\n    };\n")
same('cli-list-while', CLI, "            for i in 0..20 {\n                let queue = oracle_queue_pda(&signer.pubkey(), i).0;\n                let acc = rpc_client.get_account(&queue);\n                if acc.is_ok() {\n                    let account = acc?;\n", "            for i in 0u8..=19 {\n                let (queue, _) = oracle_queue_pda(&signer.pubkey(), i);\n                if let Ok(account) = rpc_client.get_account(&queue) {\n")
same('cli-derive-inline', CLI, "            let (_, oracle_vrf_pk) = generate_vrf_keypair(&signer);\n            let pk = Pubkey::from(oracle_vrf_pk.compress().to_bytes());\n", "            let vrf_keys = generate_vrf_keypair(&signer);\n            let pk = Pubkey::new_from_array(*vrf_keys.1.compress().as_bytes());\n")
PP = 'vrf-oracle/src/oracle/processor.rs'
OTX = upto(PP, "        let tx = Transaction::new_signed_with_payer(\n", "        );\n")
same('ora-unsigned', PP, OTX, "        let ixs = [ComputeBudgetInstruction::set_compute_unit_limit(budget), ix];\n        let mut tx = Transaction::new_with_payer(&ixs, Some(&oracle_client.keypair.pubkey()));\n        tx.sign(&[&oracle_client.keypair], blockhash);\n")
same('ora-message', PP, OTX, "        let ixs = [ComputeBudgetInstruction::set_compute_unit_limit(budget), ix];\n        let message = solana_sdk::message::Message::new(&ixs, Some(&oracle_client.keypair.pubkey()));\n        let tx = Transaction::new(&[&oracle_client.keypair], message, blockhash);\n")
