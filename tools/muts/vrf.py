L='vrf/src/vrf.rs'; A='api/src/verify.rs'
M=[
('same-refactor-prove','same',L,"    let s = k + c * sk;\n","    let csk = sk * c;\n    let s = csk + k;\n"),
('same-basetable','same',L,"let lhs_base = &s * RISTRETTO_BASEPOINT_TABLE;","let lhs_base = s * RISTRETTO_BASEPOINT_POINT;"),
('same-verify-moved','same',L,"    let rhs_base = commitment_base + c * pk;\n","    let rhs_base = c * pk + commitment_base;\n    if lhs_base != rhs_base { return false; }\n"),
('same-sub','same',L,"    lhs_base == rhs_base && lhs_hash == rhs_hash","    lhs_base - rhs_base == RistrettoPoint::default() && (lhs_hash - rhs_hash).compress() == RistrettoPoint::default().compress()"),
('same-concat','same',L,"    let ikm = [&sk.to_bytes()[..], input].concat();","    let mut ikm = Vec::with_capacity(64);\n    ikm.extend_from_slice(&sk.to_bytes());\n    ikm.extend_from_slice(input);"),
('same-hashv','same',A,"    let challenge_hash = hash(challenge_input.as_slice());","    let challenge_hash = solana_program::hash::hashv(&[challenge_input.as_slice()]);"),
('same-helper','same',A,["    let lhs_base = match multiply_ristretto(s, &RISTRETTO_BASEPOINT_POINT) {\n        Some(result) => result,\n        None => return false,\n    };\n","/// Hash the input with a prefix, convert the result to a scalar, and multiply it with the base point"],["    let Some(lhs_base) = scaled(s, &RISTRETTO_BASEPOINT_POINT) else { return false };\n","fn scaled(s: &PodScalar, p: &PodRistrettoPoint) -> Option<PodRistrettoPoint> { multiply_ristretto(s, p) }\n/// Hash"]),
('same-option-chain','same',A,"    let rhs_hash = match add_ristretto(commitment_hash_compressed, &rhs_hash_r) {\n        Some(result) => result,\n        None => return false,\n    };\n\n    lhs_base == rhs_base && lhs_hash == rhs_hash","    let hash_ok = add_ristretto(commitment_hash_compressed, &rhs_hash_r).map_or(false, |r| r == lhs_hash);\n    lhs_base == rhs_base && hash_ok"),
('same-early','same',A,"    let lhs_hash = match multiply_ristretto(s, &h) {","    if lhs_base != rhs_base {\n        return false;\n    }\n    let lhs_hash = match multiply_ristretto(s, &h) {"),
('same-extend','same',A,"    let challenge_input = [\n        VRF_PREFIX_CHALLENGE.to_vec(),\n        output_compressed.0.to_vec(),\n        commitment_base_compressed.0.to_vec(),\n        commitment_hash_compressed.0.to_vec(),\n        pk.0.to_vec(),\n        input.to_vec(),\n    ]\n    .concat();\n","    let mut challenge_input = VRF_PREFIX_CHALLENGE.to_vec();\n    for part in [&output_compressed.0, &commitment_base_compressed.0, &commitment_hash_compressed.0, &pk.0, input] {\n        challenge_input.extend_from_slice(part);\n    }\n"),
('same-keygen','same',L,"    let pk = &sk * RISTRETTO_BASEPOINT_TABLE;\n    (sk, pk)","    (sk, RISTRETTO_BASEPOINT_POINT * sk)"),
# bugs
('bug-or','bug',A,"lhs_base == rhs_base && lhs_hash == rhs_hash","lhs_base == rhs_base || lhs_hash == rhs_hash"),
('bug-nocheck','bug',L,"lhs_base == rhs_base && lhs_hash == rhs_hash","lhs_base == rhs_base && (lhs_hash == rhs_hash || output == pk)"),
('bug-chall-nopk','bug',[A,L],["        pk.0.to_vec(),\n","        pk.compress().to_bytes().to_vec(),\n        input.to_vec(),\n    ]\n    .concat();\n    let challenge_hash"],["","        input.to_vec(),\n    ]\n    .concat();\n    let challenge_hash"]),
('bug-trunc-input','bug',A,"        pk.0.to_vec(),\n        input.to_vec(),","        pk.0.to_vec(),\n        input[..31].to_vec(),"),
('bug-none-true','bug',A,"    let rhs_hash = match add_ristretto(commitment_hash_compressed, &rhs_hash_r) {\n        Some(result) => result,\n        None => return false,\n    };","    let rhs_hash = add_ristretto(commitment_hash_compressed, &rhs_hash_r).unwrap_or(lhs_hash);"),
('bug-decompress-default','bug',L,"    let commitment_hash = match commitment_hash_compressed.decompress() {\n        Some(p) => p,\n        None => return false,\n    };","    let commitment_hash = commitment_hash_compressed.decompress().unwrap_or_default();"),
('bug-nonce-noinput','bug',L,"let ikm = [&sk.to_bytes()[..], input].concat();","let ikm = [&sk.to_bytes()[..], &input[..8]].concat();"),
('bug-nonce-nosk','bug',L,"let ikm = [&sk.to_bytes()[..], input].concat();","let ikm = [&pk.compress().to_bytes()[..], input].concat();"),
('bug-prefix','bug','vrf/src/consts.rs',"VRF-Ephem-Challenge","VRF-Ephem-challenge"),
('bug-swap','bug',L,"        (commitment_base.compress(), commitment_hash.compress(), s),","        (commitment_hash.compress(), commitment_base.compress(), s),"),
('bug-minus','bug',L,"    let s = k + c * sk;","    let s = k - c * sk;"),
('bug-keygen-half','bug',L,"&keypair.to_bytes());","&keypair.to_bytes()[32..]);"),
('bug-scalar-order','bug',A,"    PodScalar(Scalar::from_bytes_mod_order(hashed_input.to_bytes()).to_bytes())\n}\n\npub fn is","    PodScalar(Scalar::from_bytes_mod_order(hashed_input.to_bytes()).reduce().to_bytes())\n}\n\npub fn is"),
('bug-special','bug',L,"    // Hash the input\n","    if input == &[0u8; 32] { return compute_vrf(sk, &[1u8; 32]); }\n    // Hash the input\n"),
('bug-h-pk','bug',L,"    // VRF output = sk·h\n    let vrf_output = sk * h;","    // VRF output = sk·h\n    let vrf_output = sk * h + sk * RISTRETTO_BASEPOINT_POINT;"),
('bug-time','bug',L,"let ikm = [&sk.to_bytes()[..], input].concat();","let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0).to_le_bytes();\n    let ikm = [&sk.to_bytes()[..], input, &t[..]].concat();"),
]
