F='vrf-cli/src/main.rs'
TAIL="""    let mut ixs = Vec::with_capacity(1 + instructions.len());
    ixs.push(compute_budget_ix);
    ixs.extend_from_slice(&instructions);
    let transaction =
        Transaction::new_signed_with_payer(&ixs, Some(&signer.pubkey()), &[&signer], blockhash);

    let signature = rpc_client.send_and_confirm_transaction(&transaction)?;
    println!("Transaction signature: {signature}");
"""
DEL="""            let queue = Pubkey::from_str(queue)?;
            let queue_account = rpc_client.get_account(&queue)?;
            let queue_struct = Queue::try_from_bytes(queue_account.data.as_slice())?;
            println!(
                "Delegating oracle queue: {} with index: {}",
                queue, queue_struct.index
            );
            vec![delegate_oracle_queue(
                signer.pubkey(),
                queue,
                queue_struct.index,
            )]"""
M=[
('same-helper-submit','same',F,[TAIL,"fn get_signer("],["    submit(&rpc_client, &signer, compute_budget_ix, instructions, blockhash)?;\n","""fn submit(rpc: &RpcClient, signer: &Keypair, budget: solana_sdk::instruction::Instruction, instructions: Vec<solana_sdk::instruction::Instruction>, blockhash: solana_sdk::hash::Hash) -> Result<()> {
    let ixs: Vec<_> = std::iter::once(budget).chain(instructions).collect();
    let tx = Transaction::new_signed_with_payer(&ixs, Some(&signer.pubkey()), &[signer], blockhash);
    let signature = rpc.send_and_confirm_transaction(&tx)?;
    println!("Transaction signature: {signature}");
    Ok(())
}

fn get_signer("""]),
('same-helper-queue','same',F,[DEL,"fn get_signer("],["""            let (queue, index) = load_queue(&rpc_client, queue)?;
            println!("Delegating oracle queue: {} with index: {}", queue, index);
            vec![delegate_oracle_queue(signer.pubkey(), queue, index)]""","""fn load_queue(rpc: &RpcClient, queue: &str) -> Result<(Pubkey, u8)> {
    let queue: Pubkey = queue.parse()?;
    let data = rpc.get_account_data(&queue)?;
    let index = Queue::try_from_bytes(&data)?.index;
    Ok((queue, index))
}

fn get_signer("""]),
('same-vec-macro','same',F,"    let mut ixs = Vec::with_capacity(1 + instructions.len());\n    ixs.push(compute_budget_ix);\n    ixs.extend_from_slice(&instructions);\n","    let mut ixs = vec![compute_budget_ix];\n    ixs.extend(instructions);\n"),
('same-insert0','same',F,"    let mut ixs = Vec::with_capacity(1 + instructions.len());\n    ixs.push(compute_budget_ix);\n    ixs.extend_from_slice(&instructions);\n","    let mut ixs = instructions;\n    ixs.insert(0, compute_budget_ix);\n"),
('same-bh-late','same',F,["    let blockhash = rpc_client.get_latest_blockhash()?;\n","    let transaction =\n        Transaction"],["","    let blockhash = rpc_client.get_latest_blockhash()?;\n    let transaction =\n        Transaction"]),
('same-unwrap-or-else','same',F,"    let signer = get_signer(\n        args.keypair\n            .unwrap_or(DEFAULT_IDENTITY.to_string())\n            .as_str(),\n    );","    let signer = get_signer(args.keypair.as_deref().unwrap_or(DEFAULT_IDENTITY));"),
('same-match-err','same',F,"    let signature = rpc_client.send_and_confirm_transaction(&transaction)?;\n","    let signature = match rpc_client.send_and_confirm_transaction(&transaction) {\n        Ok(s) => s,\n        Err(e) => {\n            eprintln!(\"{e}\");\n            return Err(e.into());\n        }\n    };\n"),
('same-list-iflet','same',F,"                if acc.is_ok() {\n                    let account = acc?;\n","                if let Ok(account) = acc {\n"),
('same-ensure-if','same',F,"            ensure!(\n                oracle_queue_pda(&signer.pubkey(), queue_struct.index).0 == queue,\n                \"Queue {queue} does not belong to {}\",\n                signer.pubkey()\n            );","            let (own, _) = oracle_queue_pda(&signer.pubkey(), queue_struct.index);\n            if own != queue {\n                anyhow::bail!(\"Queue {queue} does not belong to {}\", signer.pubkey());\n            }"),
('bug-swap-args','bug',F,"vec![add_oracle(signer.pubkey(), identity, oracle_pubkey_bytes)]","vec![add_oracle(signer.pubkey(), Pubkey::new_from_array(oracle_pubkey_bytes), identity.to_bytes())]"),
('bug-remove-adds','bug',F,"vec![remove_oracle(signer.pubkey(), identity)]","vec![remove_oracle(identity, signer.pubkey())]"),
('bug-del-undel','bug',F,"vec![undelegate_oracle_queue(","vec![delegate_oracle_queue("),
('bug-index0','bug',F,"vec![delegate_oracle_queue(\n                signer.pubkey(),\n                queue,\n                queue_struct.index,","vec![delegate_oracle_queue(\n                signer.pubkey(),\n                queue,\n                (queue_struct.item_count & 0xff) as u8,"),
('bug-bytes-default','bug',F,"initialize_oracle_queue(signer.pubkey(), identity, *index, *bytes_to_allocate).to_vec()","initialize_oracle_queue(signer.pubkey(), identity, *index, Some(bytes_to_allocate.unwrap_or(10240).min(10240))).to_vec()"),
('bug-init-first-only','bug',F,"*bytes_to_allocate).to_vec()","*bytes_to_allocate)[..1].to_vec()"),
('bug-close-any','bug',F,"                oracle_queue_pda(&signer.pubkey(), queue_struct.index).0 == queue,","                oracle_queue_pda(&signer.pubkey(), queue_struct.index).0 == queue || queue_struct.item_count == 0,"),
('bug-ignore-result','bug',F,"    let signature = rpc_client.send_and_confirm_transaction(&transaction)?;\n    println!(\"Transaction signature: {signature}\");\n","    let _ = rpc_client.send_and_confirm_transaction(&transaction);\n"),
('bug-default-key','bug',F,"            .unwrap_or(DEFAULT_IDENTITY.to_string())","            .filter(|k| k.len() > 64)\n            .unwrap_or(DEFAULT_IDENTITY.to_string())"),
('bug-derive','bug',F,"let pk = Pubkey::from(oracle_vrf_pk.compress().to_bytes());","let pk = Pubkey::from({ let _ = oracle_vrf_pk; signer.pubkey().to_bytes() });"),
('bug-empty-queue-skip','bug',F,"    let mut ixs = Vec::with_capacity(1 + instructions.len());","    if instructions.len() > 3 {\n        return Ok(());\n    }\n    let mut ixs = Vec::with_capacity(1 + instructions.len());"),
]
