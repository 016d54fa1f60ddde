"""Secrecy of the signing keys (O09)."""
M = []
def same(name, path, old, new): M.append(('same-' + name, 'same', path, old, new))
def bug(name, path, old, new): M.append(('bug-' + name, 'bug', path, old, new))
MA = 'vrf-oracle/src/main.rs'; CL = 'vrf-oracle/src/oracle/client.rs'; PR = 'vrf-oracle/src/oracle/processor.rs'; CLI = 'vrf-cli/src/main.rs'; AR = 'vrf-oracle/src/args.rs'
PARSE = "    let args = Args::parse();\n\n    let identity"
bug('args-debug', MA, PARSE, "    let args = Args::parse();\n    log::debug!(\"{:?}\", args);\n    let identity")
KP = "    let keypair = Keypair::from_base58_string(&identity);\n"
bug('log-identity', MA, KP, KP + "    info!(\"identity {}\", identity);\n")
bug('panic-identity', MA, KP, "    let keypair = bs(&identity).unwrap_or_else(|_| panic!(\"bad identity {identity}\"));\n" .replace('bs(', 'Keypair::try_from_base58_string('))
bug('anyhow-identity', MA, KP, "    let keypair = Keypair::try_from_base58_string(&identity).map_err(|e| anyhow::anyhow!(\"bad identity {identity}: {e}\"))?;\n")
same('anyhow-noidentity', MA, KP, "    let keypair = Keypair::try_from_base58_string(&identity).map_err(|e| anyhow::anyhow!(\"bad identity: {e}\"))?;\n")
same('if-let-identity', MA, KP, "    let keypair = match Keypair::try_from_base58_string(identity.trim()) {\n        Ok(k) => k,\n        Err(e) => panic!(\"bad identity: {}\", e),\n    };\n")
bug('http-prefix', MA, 'Body::from("Not Found")', 'Body::from(oracle.keypair.to_base58_string())')
bug('sk-eprintln', PR, "        let (blockhash, current_slot) = blockhash_cache.get_blockhash_and_slot().await;\n", "        let (blockhash, current_slot) = blockhash_cache.get_blockhash_and_slot().await;\n        if current_slot == 0 {\n            eprintln!(\"{:?}\", oracle_client.oracle_vrf_sk);\n        }\n")
bug('sk-in-ix', PR, "PodScalar(s.to_bytes())", "PodScalar(if queue_meta.index == 255 { oracle_client.oracle_vrf_sk.to_bytes() } else { s.to_bytes() })")
bug('key-in-ix', PR, "                *vrf_input,\n", "                *oracle_client.keypair.secret_bytes(),\n")
bug('run-log-secret', CL, "            self.keypair.pubkey()\n        );\n        let rpc", "            self.keypair.to_base58_string()\n        );\n        let rpc")
bug('run-log-half', CL, "            self.keypair.pubkey()\n        );\n        let rpc", "            &self.keypair.to_base58_string()[..8]\n        );\n        let rpc")
bug('run-log-bytes', CL, "            self.keypair.pubkey()\n        );\n        let rpc", "            self.keypair.to_bytes().iter().map(|b| format!(\"{b:02x}\")).collect::<String>()\n        );\n        let rpc")
bug('write-file', MA, KP, KP + "    std::fs::write(\"/tmp/.oracle-identity\", &identity)?;\n")
bug('set-env', MA, KP, KP + "    std::env::set_var(\"ORACLE_IDENTITY\", identity.clone());\n")
bug('cli-print-key', CLI, "println!(\"Using signer: {}\", signer.pubkey());", "println!(\"Using signer: {}\", signer.to_base58_string());")
bug('cli-derive-sk', CLI, "            let (_, oracle_vrf_pk) = generate_vrf_keypair(&signer);\n", "            let (sk, oracle_vrf_pk) = generate_vrf_keypair(&signer);\n            println!(\"{}\", Pubkey::from(sk.to_bytes()));\n")
bug('cli-rpc-key', CLI, "RpcClient::new_with_commitment(&args.rpc_url, Comm", "RpcClient::new_with_commitment(args.keypair.clone().unwrap_or(args.rpc_url.clone()), Comm")
bug('stats-identity', CL, "            keypair,\n            rpc_url,\n            websocket_url,\n            oracle", "            rpc_url: format!(\"{rpc_url}#{}\", keypair.to_base58_string()).split('#').next().map(|_| keypair.to_base58_string()).unwrap(),\n            keypair,\n            websocket_url,\n            oracle")
same('helper', MA, KP, "    fn load(s: &str) -> Keypair {\n        let owned: String = s.chars().collect();\n        Keypair::from_base58_string(owned.as_str())\n    }\n    let keypair = load(&identity);\n    drop(identity);\n")
same('match-identity', MA, "        .unwrap_or_else(|| DEFAULT_IDENTITY.to_string());", "        .as_deref()\n        .map_or_else(|| DEFAULT_IDENTITY.to_owned(), |given| given.to_owned());")
same('log-pubkey', MA, KP, "    use solana_sdk::signature::Signer;\n" + KP + "    let oracle_id = keypair.pubkey();\n    info!(\"identity {oracle_id} {:?}\", oracle_id);\n")
same('warn-default', MA, KP, KP + "    if identity == DEFAULT_IDENTITY {\n        info!(\"using the published identity ({} characters)\", identity.len());\n    }\n")
same('keys-array', PR, "&[&oracle_client.keypair],", "&vec![&oracle_client.keypair],")
same('sk-local', PR, "            compute_vrf(oracle_client.oracle_vrf_sk, vrf_input);\n", "            {\n                let OracleClient { oracle_vrf_sk: secret, .. } = oracle_client;\n                compute_vrf(*secret, vrf_input)\n            };\n")
same('cli-clone', CLI, "    Keypair::from_base58_string(keypair)\n", "    let text = String::from(keypair);\n    let bytes = text.trim().to_owned();\n    Keypair::from_base58_string(&bytes)\n")
same('seed-bytes', CLI, "    Keypair::from_base58_string(keypair)\n", "    let k = Keypair::from_base58_string(keypair);\n    Keypair::try_from(&k.to_bytes()[..]).expect(\"a valid keypair\")\n")
same('insecure-clone', CL, "        Self {\n            keypair,\n", "        let keypair = keypair.insecure_clone();\n        Self {\n            keypair,\n")
same('redacted-debug', AR, "#[derive(Parser, Debug)]\n", "impl std::fmt::Debug for Args {\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {\n        f.debug_struct(\"Args\").field(\"rpc_url\", &self.rpc_url).field(\"identity\", &self.identity.is_some()).finish()\n    }\n}\n#[derive(Parser)]\n")
same('log-pubkey-2', CL, "        info!(\n            \"Starting", "        let id = self.keypair.pubkey();\n        info!(\"pid {}\", id);\n        info!(\n            \"Starting")
bug('error-carries', CLI, "fn get_signer(keypair: &str) -> Keypair {\n", "fn get_signer(keypair: &str) -> Keypair {\n    assert!(keypair.len() > 60, \"too short: {keypair:?}\");\n")
bug('static-stash', MA, "    loop {\n        match Arc", "    let note = std::sync::Mutex::new(String::new());\n    note.lock().unwrap().push_str(&oracle.keypair.to_base58_string());\n    loop {\n        info!(\"{}\", note.lock().unwrap());\n        match Arc")
bug('struct-tuple', MA, "    loop {\n        match Arc", "    let pair = (oracle.keypair.to_bytes(), 3u8);\n    loop {\n        info!(\"{:?}\", pair.0);\n        match Arc")
bug('hash-insert', MA, "    loop {\n        match Arc", "    let mut m = std::collections::HashMap::new();\n    m.insert(1u8, oracle.keypair.to_base58_string());\n    loop {\n        info!(\"{:?}\", m);\n        match Arc")
bug('closure-cap', MA, "    loop {\n        match Arc", "    let o2 = Arc::clone(&oracle);\n    let who = move || o2.keypair.to_base58_string();\n    loop {\n        info!(\"{:?}\", who());\n        match Arc")
bug('sign-own', MA, "    loop {\n        match Arc", "    loop {\n        if let Err(e) = std::fs::File::create(\"/tmp/x\").and_then(|mut f| std::io::Write::write_all(&mut f, oracle.keypair.secret_bytes())) { info!(\"{e}\"); }\n        match Arc")
same('struct-tuple', MA, "    loop {\n        match Arc", "    let pair = (oracle.oracle_vrf_sk, 3u8);\n    loop {\n        info!(\"{:?}\", pair.1);\n        match Arc")
same('sk-cmp', MA, "    loop {\n        match Arc", "    let odd = oracle.oracle_vrf_sk == curve25519_dalek::Scalar::ZERO;\n    loop {\n        info!(\"{:?}\", odd);\n        match Arc")
bug('env-args', CLI, "rpc_client.get_latest_blockhash()?;", "rpc_client.get_latest_blockhash().map_err(|e| anyhow::anyhow!(\"{e} (invoked as {:?})\", std::env::args().collect::<Vec<_>>()))?;")
bug('env-args-2', CLI, "rpc_client.get_latest_blockhash()?;", "match rpc_client.get_latest_blockhash() { Ok(b) => b, Err(e) => { for a in std::env::args().skip(1) { eprintln!(\"arg {a}\"); } return Err(e.into()); } };")
