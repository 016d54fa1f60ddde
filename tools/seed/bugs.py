BUGS = []
MANIFESTS = {}
MANIFESTS['program'] = '''[package]
name = "%(bin)s"
version = "0.1.0"
edition = "2021"

[dependencies]
ephemeral-vrf-program = { path = "/repo/program" }
ephemeral-vrf-api = { path = "/repo/api" }
ephemeral-vrf = { path = "/repo/vrf" }
solana-program = "3.0.0"
solana-curve25519 = "=3.0.0"
solana-sdk = "=3.0.0"
curve25519-dalek = { version = "4.1.3", default-features = false }

[workspace]
'''
HEAD = '''mod world;
#[allow(unused_imports)]
use ephemeral_vrf_api::prelude::*;
#[allow(unused_imports)]
use solana_sdk::signature::Keypair;
use solana_sdk::signer::Signer;
use world::*;

fn main() {
    let kp = Keypair::new_from_array([3; 32]);
    let id = kp.pubkey();
    let (sk, pk) = ephemeral_vrf::vrf::generate_vrf_keypair(&kp);
    let _ = sk;
    let mut w = with_oracle(id, pk.compress().to_bytes());
    w.fund(payer(), 10_000_000_000);
    let q = queue_of(&id, 0);
'''
def bug(**k):
    BUGS.append(k)
QF = 'api/src/state/queue.rs'

bug(id='Q02-holes-counted', property='Q02', edits=[(QF, '''                if &item.id == id {
                    return Some((current, item));
                }
                current += 1;
            }
''', '''                if &item.id == id {
                    return Some((current, item));
                }
            }
            current += 1;
''')], main=HEAD + '''
    for s in 0..3 {
        w.run(&request_ix(q, s, false, vec![s; 3], vec![], vec![])).unwrap();
    }
    let its = items(&w, &q);
    set_slot(slot() + 1);
    w.run(&provide_ix(id, 0, sk, its[0].id, vec![])).expect("first");
    // the second request must be the one answered now, and the third must stay
    w.run(&provide_ix(id, 0, sk, its[1].id, vec![])).expect("second");
    assert_eq!(&callbacks()[0].ix.data[..3], &[1, 1, 1]);
    let left = items(&w, &q);
    assert_eq!(left.len(), 1);
    assert_eq!(left[0].id, its[2].id);
}
''', needs='a request fulfilled while an earlier one was already removed, leaving a hole before it',
    breaks='find_item_by_id counts free entries, so the position it returns designates another request for remove_item')

bug(id='P01-skips-neighbour', property='P01', edits=[('program/src/purge_expired_requests.rs', '''            // do not increment i; next item shifts into this index
        } else {
            i += 1;
        }
''', '''        }
        i += 1;
''')], main=HEAD + '''
    for s in 0..4 {
        w.run(&request_ix(q, s, false, vec![], vec![], vec![])).unwrap();
        if s == 1 { set_slot(slot() + 100); }
    }
    set_slot(slot() + 241 - 100);
    w.run(&purge_expired_requests(id, 0)).expect("purge");
    assert_eq!(items(&w, &q).len(), 2);
    set_slot(slot() + 100);
    let before = w.get(&id).lamports;
    w.run(&purge_expired_requests(id, 0)).expect("purge");
    assert_eq!(items(&w, &q).len(), 0);
    assert_eq!(w.get(&id).lamports, before + 1_000_000);
}
''', needs='two consecutive entries of the queue both expired at the time of one purge',
    breaks='after removing an expired request the next one is skipped, so it survives the purge')

bug(id='P01-future-slot', property='P01', edits=[('program/src/purge_expired_requests.rs',
 'current_slot.saturating_sub(item.slot)', 'current_slot.wrapping_sub(item.slot)')], main=HEAD + '''
    set_slot(5000);
    w.run(&request_ix(q, 1, true, vec![], vec![], vec![])).unwrap();
    // the queue is processed on a cluster whose clock is behind the one of the request
    set_slot(4000);
    let before = w.get(&id).lamports;
    w.run(&purge_expired_requests(id, 0)).expect("purge");
    assert_eq!(items(&w, &q).len(), 1);
    assert_eq!(w.get(&id).lamports, before);
}
''', needs='a request recorded at a slot ahead of the current one (queue moved between rollup and base chain)',
    breaks='a fresh request looks immensely old and is purged and paid for')

bug(id='A04-chunked-uncounted', property='A04', edits=[('program/src/initialize_oracle_queue.rs', '''    // Finalize PDA size if needed
    if oracle_queue_info.owner''', '''    // Finalize PDA size if needed
    let fresh = oracle_queue_info.owner != &ephemeral_vrf_api::ID;
    if oracle_queue_info.owner'''),
 ('program/src/initialize_oracle_queue.rs', 'oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_add(1);',
  'oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_add(fresh as u64);')], main=HEAD + '''
    for ix in initialize_oracle_queue(admin(), id, 1, Some(30_000)) {
        w.run(&ix).expect("queue");
    }
    w.run(&close_oracle_queue(id, 0)).expect("close");
    // queue 1 is still open: the oracle may not be removed
    assert!(w.run(&remove_oracle(admin(), id)).is_err());
    w.run(&close_oracle_queue(id, 1)).expect("close");
    w.run(&remove_oracle(admin(), id)).expect("remove");
}
''', needs='a queue larger than 10 KiB, allocated in several instructions, then removal of its oracle',
    breaks='only queues created in one step are counted as open')

bug(id='F05-readonly-oracle', property='F05', edits=[('program/src/provide_randomness.rs',
 '.any(|acc| Pubkey::new_from_array(acc.pubkey).eq(oracle_info.key))', '.any(|acc| acc.is_writable == 1 && Pubkey::new_from_array(acc.pubkey).eq(oracle_info.key))')],
 main=HEAD + '''
    let meta = |writable| SerializableAccountMeta { pubkey: id.to_bytes(), is_signer: false, is_writable: writable };
    for wr in [true, false] {
        w.run(&request_ix(q, wr as u8, false, vec![], vec![meta(wr)], vec![])).unwrap();
    }
    let its = items(&w, &q);
    set_slot(slot() + 1);
    for it in its {
        let r = w.run(&provide_ix(id, 0, sk, it.id, vec![AccountMeta::new(id, true)]));
        assert!(r.is_err());
        assert!(callbacks().is_empty());
    }
}
''', needs='a request listing the fulfilling oracle as a read-only callback account',
    breaks='the oracle identity, a signer of the transaction, is passed to the consumer program')

bug(id='M02-short-queue', property='M02', edits=[('program/src/fees.rs', '''    **queue_lamports = (**queue_lamports)
        .checked_sub(amount)
        .ok_or(ProgramError::InsufficientFunds)?;
''', '''    let amount = amount.min(**queue_lamports);
    **queue_lamports = (**queue_lamports).saturating_sub(amount);
''')], main=HEAD + '''
    w.run(&request_ix(q, 1, false, vec![], vec![], vec![])).unwrap();
    let its = items(&w, &q);
    w.acc(q).lamports = 499_999;
    set_slot(slot() + 1);
    let total = w.total();
    assert!(w.run(&provide_ix(id, 0, sk, its[0].id, vec![])).is_err());
    assert_eq!(w.total(), total);
    assert_eq!(w.get(&q).lamports, 499_999);
}
''', needs='a queue account holding less than the fee it owes',
    breaks='the payout is silently cut to what is left and the queue is drained instead of the instruction failing')

bug(id='Q03-trim-args', property='Q03', edits=[(QF, '''            let item_end = cursor
                + size_of::<QueueItem>()
                + (item.callback_discriminator_len as usize)
                + metas_bytes
                + (item.args_len as usize);
            let next = Self::align_up(item_end, align);

            if item.used == 1 {
                last_used_end_aligned = next;
            }
''', '''            let vars_end = cursor
                + size_of::<QueueItem>()
                + (item.callback_discriminator_len as usize)
                + metas_bytes;
            let next = Self::align_up(vars_end + (item.args_len as usize), align);

            if item.used == 1 {
                last_used_end_aligned = if next < end { Self::align_up(vars_end, align) } else { end };
            }
''')], main=HEAD + '''
    for s in 0..2 {
        w.run(&request_ix(q, s, false, vec![s; 8], vec![], vec![10 + s; 40])).unwrap();
    }
    let its = items(&w, &q);
    set_slot(slot() + 1);
    w.run(&provide_ix(id, 0, sk, its[1].id, vec![])).expect("second");
    w.run(&request_ix(q, 9, false, vec![9; 8], vec![], vec![99; 40])).unwrap();
    w.run(&provide_ix(id, 0, sk, its[0].id, vec![])).expect("first");
    assert_eq!(&callbacks()[0].ix.data[40..], &[10; 40]);
}
''', needs='a live request with arguments followed by a removed one, then a new insertion',
    breaks='space reclamation stops before the arguments of the last live request, which the next insertion overwrites')

bug(id='V05-short-nonce', property='V05', edits=[('vrf/src/vrf.rs', 'let ikm = [&sk.to_bytes()[..], input].concat();', 'let ikm = [&sk.to_bytes()[..], &input[..24]].concat();')],
 main=HEAD + '''
    let _ = (&mut w, q);
    let a = [7u8; 32];
    let mut b = a;
    b[30] = 1;
    let (_, (u1, _, _)) = ephemeral_vrf::vrf::compute_vrf(sk, &a);
    let (_, (u2, _, _)) = ephemeral_vrf::vrf::compute_vrf(sk, &b);
    assert_ne!(u1, u2);
}
''', needs='two inputs that agree in their first 24 bytes', breaks='the proof nonce is shared by different inputs, so two proofs reveal the secret key')

bug(id='V01-unchecked-hash-relation', property='V01', edits=[('api/src/verify.rs', '''        output_compressed.0.to_vec(),
        commitment_base_compressed.0.to_vec(),
        commitment_hash_compressed.0.to_vec(),
        pk.0.to_vec(),
''', '''        output_compressed.0[..31].to_vec(),
        commitment_base_compressed.0.to_vec(),
        commitment_hash_compressed.0.to_vec(),
        pk.0.to_vec(),
'''), ('vrf/src/vrf.rs', '''    // Compute Challenge (domain-tagged)
    let challenge_input = [
        VRF_PREFIX_CHALLENGE.to_vec(),
        vrf_output.compress().to_bytes().to_vec(),
''', '''    // Compute Challenge (domain-tagged)
    let challenge_input = [
        VRF_PREFIX_CHALLENGE.to_vec(),
        vrf_output.compress().to_bytes()[..31].to_vec(),
'''), ('vrf/src/vrf.rs', '''        output_compressed.to_bytes().to_vec(),
        commitment_base_compressed.to_bytes().to_vec(),
''', '''        output_compressed.to_bytes()[..31].to_vec(),
        commitment_base_compressed.to_bytes().to_vec(),
''')], main=HEAD + '''
    let _ = (&mut w, q, sk);
    use ephemeral_vrf_api::consts as k;
    use solana_curve25519::{ristretto::PodRistrettoPoint as P, scalar::PodScalar};
    use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as G, Scalar};
    // An oracle without honest intent fixes U, V and then the challenge; the challenge has to bind
    // every byte of the output. Recompute the documented challenge and check the verifier against it.
    let hash = |b: &[u8]| solana_sdk::hash::hash(b).to_bytes();
    let sc = |tag: &[u8], x: &[u8]| Scalar::from_bytes_mod_order(hash(&[tag, x].concat()));
    let input = [4u8; 32];
    let h = sc(k::VRF_PREFIX_HASH_TO_POINT, &input) * G;
    let gamma = (sk * h).compress().to_bytes();
    let n = Scalar::from(99u64);
    let (u, v) = ((n * G).compress().to_bytes(), (n * h).compress().to_bytes());
    let ch = |g: &[u8]| sc(k::VRF_PREFIX_HASH_TO_SCALAR, &hash(&[k::VRF_PREFIX_CHALLENGE, g, &u, &v, &pk.compress().to_bytes(), &input].concat()));
    let ok = |c: Scalar| ephemeral_vrf_api::verify::verify_vrf(&P(pk.compress().to_bytes()), &input, &P(gamma), (&P(u), &P(v), &PodScalar((n + c * sk).to_bytes())));
    assert!(ok(ch(&gamma)));
    assert!(!ok(ch(&gamma[..31])));
}
''', needs='a proof whose challenge does not depend on the last byte of the output; prover and both verifiers were changed alike',
    breaks='the challenge no longer binds the whole output point, so the proof is not bound to it')

bug(id='R03-dup-metas', property='R03', edits=[('program/src/request_randomness.rs', '''        let metas = args
            .callback_accounts_metas
            .iter()
            .map(|ca| (*ca).into())
            .collect::<Vec<CompactAccountMeta>>();
''', '''        let mut metas = args
            .callback_accounts_metas
            .iter()
            .map(|ca| (*ca).into())
            .collect::<Vec<CompactAccountMeta>>();
        metas.dedup();
''')], main=HEAD + '''
    let m = |b| SerializableAccountMeta { pubkey: [b; 32], is_signer: false, is_writable: true };
    w.run(&request_ix(q, 1, false, vec![], vec![m(8), m(8), m(9)], vec![])).unwrap();
    let its = items(&w, &q);
    set_slot(slot() + 1);
    let extra = [8u8, 9].iter().map(|b| AccountMeta::new(Pubkey::new_from_array([*b; 32]), false)).collect();
    w.run(&provide_ix(id, 0, sk, its[0].id, extra)).expect("provide");
    let cb = callbacks();
    assert_eq!(cb[0].ix.accounts.len(), 4);
    assert_eq!(cb[0].ix.accounts[2].pubkey, Pubkey::new_from_array([8; 32]));
}
''', needs='a request that lists the same callback account twice in a row', breaks='the repeated account is dropped, so the consumer receives fewer accounts than it recorded')

bug(id='R05-meta-count-wrap', property='R05', edits=[(QF, 'if metas.len() > 20 || args.len() > 512 {', 'if metas.len() as u8 > 20 || args.len() > 512 {')], main=HEAD + '''
    let m = SerializableAccountMeta { pubkey: [8; 32], is_signer: false, is_writable: true };
    assert!(w.run(&request_ix(q, 1, false, vec![], vec![m; 21], vec![])).is_err());
    assert!(w.run(&request_ix(q, 1, false, vec![], vec![m; 260], vec![])).is_err());
    assert_eq!(items(&w, &q).len(), 0);
    w.run(&request_ix(q, 1, false, vec![], vec![m; 20], vec![])).unwrap();
}
''', needs='a request with 256 to 276 callback accounts (made by CPI, not bounded by the transaction size)', breaks='the limit on callback accounts is checked on a truncated count')

bug(id='F06-clock-behind', property='F06', edits=[('program/src/provide_randomness.rs', 'if Clock::get()?.slot <= item.slot {', 'if Clock::get()?.slot == item.slot {')], main=HEAD + '''
    set_slot(5000);
    w.run(&request_ix(q, 1, false, vec![], vec![], vec![])).unwrap();
    let its = items(&w, &q);
    assert!(w.run(&provide_ix(id, 0, sk, its[0].id, vec![])).is_err());
    set_slot(4990);
    assert!(w.run(&provide_ix(id, 0, sk, its[0].id, vec![])).is_err());
    set_slot(5001);
    w.run(&provide_ix(id, 0, sk, its[0].id, vec![])).unwrap();
}
''', needs='a clock behind the slot of the request (queue moved between rollup and base chain)', breaks='a request can be answered at a slot before the one it was made in')

bug(id='A06-future-registration', property='A06', edits=[('program/src/initialize_oracle_queue.rs', 'current_slot.saturating_sub(oracle_registration_slot)', 'current_slot.abs_diff(oracle_registration_slot)')], main='''mod world;
use ephemeral_vrf_api::prelude::*;
use world::*;
fn main() {
    let mut w = base();
    let id = solana_sdk::signer::Signer::pubkey(&solana_sdk::signature::Keypair::new_from_array([3; 32]));
    set_slot(5000);
    w.run(&add_oracle(admin(), id, [1; 32])).expect("add");
    let ix = initialize_oracle_queue(admin(), id, 0, None).remove(0);
    set_slot(4000);
    assert!(w.run(&ix).is_err());
    set_slot(5199);
    assert!(w.run(&ix).is_err());
    set_slot(5200);
    w.run(&ix).expect("queue");
}
''', needs='a registration slot ahead of the current one', breaks='an oracle registered in the future of the current clock may open queues at once')

bug(id='V03-neutral-element', property='V03', edits=[('api/src/verify.rs', '''    let lhs_hash = match multiply_ristretto(s, &h) {
''', '''    if output_compressed.0 == [0; 32] {
        return false;
    }
    let lhs_hash = match multiply_ristretto(s, &h) {
''')], main=HEAD + '''
    let _ = (&mut w, q, sk);
    use solana_curve25519::{ristretto::PodRistrettoPoint as P, scalar::PodScalar};
    use curve25519_dalek::{ristretto::CompressedRistretto as R, traits::Identity, RistrettoPoint, Scalar};
    // key zero: every element is neutral up to the commitments
    let input = [4u8; 32];
    let (out, (u, v, s)) = ephemeral_vrf::vrf::compute_vrf(Scalar::ZERO, &input);
    let neutral = RistrettoPoint::identity();
    let off = ephemeral_vrf::vrf::verify_vrf(neutral, &input, R(out.0), (R(u.0), R(v.0), s));
    let on = ephemeral_vrf_api::verify::verify_vrf(&P([0; 32]), &input, &P(out.0), (&P(u.0), &P(v.0), &PodScalar(s.to_bytes())));
    assert_eq!(on, off);
}
''', needs='a proof whose output is the neutral element', breaks='the on-chain verifier rejects a proof which the off-chain verifier accepts')

bug(id='A02-removes-first-only', property='A02', edits=[('program/src/modify_oracles.rs', '''        oracles.oracles.retain(|oracle| oracle.ne(&args.identity));
''', '''        if let Some(i) = oracles.oracles.iter().position(|o| o.eq(&args.identity)) {
            oracles.oracles.swap_remove(i);
        }
''')], main='''mod world;
use ephemeral_vrf_api::prelude::*;
use world::*;
fn main() {
    let mut w = base();
    let ids: Vec<Pubkey> = (1..5u8).map(|b| solana_sdk::signer::Signer::pubkey(&solana_sdk::signature::Keypair::new_from_array([b; 32]))).collect();
    for id in &ids {
        w.run(&add_oracle(admin(), *id, [1; 32])).expect("add");
    }
    w.run(&remove_oracle(admin(), ids[1])).expect("remove");
    let left = Oracles::try_from_bytes_with_discriminator(&w.get(&oracles_pda().0).data).unwrap().oracles;
    assert_eq!(left, vec![ids[0], ids[2], ids[3]]);
}
''', needs='removal of an oracle that is not among the last two of the registry', breaks='removing one oracle reorders the others in the registry')

bug(id='Q04-metas-length-overflow', property='Q04', edits=[(QF, '        let byte_len = count * size_of::<CompactAccountMeta>();\n', '        let byte_len = self.metas_len.wrapping_mul(size_of::<CompactAccountMeta>() as u16) as usize;\n')], main=HEAD + '''
    let _ = (&mut w, q, sk);
    let acc = vec![1u8; 4096];
    for n in [1u16, 100, 1000, 1986, 2000, 40000, u16::MAX] {
        let it = QueueItem { metas_offset: 112, metas_len: n, ..Default::default() };
        let m = it.account_metas(&acc);
        assert!(m.len() * 33 <= acc.len() - 112);
    }
}
''', needs='an entry with more than 1985 recorded accounts (corrupted or foreign account data)', breaks='the length in bytes overflows, so a slice far beyond the account is formed')

bug(id='R02-partial-hash', property='R02', edits=[('program/src/request_randomness.rs', 'try_borrow_data()?[16..48]', 'try_borrow_data()?[8..40]')], main=HEAD + '''
    let _ = sk;
    // two histories that differ only in the tail of the most recent slot hash
    let mut w2 = w.clone();
    let sh = solana_program::sysvar::slot_hashes::id();
    w2.acc(sh).data[45] ^= 0x55;
    w.run(&request_ix(q, 1, false, vec![], vec![], vec![])).unwrap();
    w2.run(&request_ix(q, 1, false, vec![], vec![], vec![])).unwrap();
    assert_ne!(items(&w, &q)[0].id, items(&w2, &q)[0].id);
}
''', needs='two chain histories whose latest slot hashes agree in their first 24 bytes', breaks='the request id binds the slot number twice and only part of the slot hash')

bug(id='F01-foreign-record', property='F01', edits=[('program/src/provide_randomness.rs', '''    oracle_data_info.has_seeds(
        &[ORACLE_DATA, oracle_info.key.to_bytes().as_ref()],
        &ephemeral_vrf_api::ID,
    )?;

''', ''), ('program/src/provide_randomness.rs', '    // Read queue header for', '''    oracle_data_info.has_owner(&ephemeral_vrf_api::ID)?;

    // Read queue header for''')], main=HEAD + '''
    let other = Keypair::new_from_array([4; 32]);
    let (sk2, pk2) = ephemeral_vrf::vrf::generate_vrf_keypair(&other);
    w.run(&add_oracle(admin(), other.pubkey(), pk2.compress().to_bytes())).unwrap();
    w.run(&request_ix(q, 1, false, vec![], vec![], vec![])).unwrap();
    let its = items(&w, &q);
    set_slot(slot() + 1);
    let mut ix = provide_ix(id, 0, sk2, its[0].id, vec![]);
    ix.accounts[2].pubkey = oracle_data_pda(&other.pubkey()).0;
    assert!(w.run(&ix).is_err());
    w.run(&provide_ix(id, 0, sk, its[0].id, vec![])).unwrap();
}
''', needs='the record of another registered oracle passed with a proof by that oracle', breaks='a proof by another key than the one registered for the queue owner is accepted')

bug(id='S01-queue-steps', property='S01', edits=[('api/src/sdk.rs', 'let inits = target_size.div_ceil(10240);', 'let inits = target_size / 10240 + 1;')], main='''mod world;
use ephemeral_vrf_api::prelude::*;
use world::*;
fn main() {
    let mut w = base();
    let id = solana_sdk::signer::Signer::pubkey(&solana_sdk::signature::Keypair::new_from_array([3; 32]));
    w.run(&add_oracle(admin(), id, [1; 32])).expect("add");
    set_slot(slot() + 200);
    for (i, size) in [5000u32, 10240, 10241, 30000, 30720].into_iter().enumerate() {
        for ix in initialize_oracle_queue(admin(), id, i as u8, Some(size)) {
            w.run(&ix).expect("step");
        }
        assert_eq!(w.get(&queue_of(&id, i as u8)).data.len(), size as usize);
    }
}
''', needs='a queue size that is a multiple of 10240', breaks='one step too many is built, which fails and takes the whole transaction with it')

MANIFESTS['sdk'] = '''[package]
name = "%(bin)s"
version = "0.1.0"
edition = "2021"

[dependencies]
ephemeral-vrf-sdk = { path = "/repo/sdk" }
ephemeral-vrf-api = { path = "/repo/api" }
solana-program = "3.0.0"

[workspace]
'''
bug(id='S06-repeated-byte', property='S06', kind='sdk', edits=[('sdk/src/rnd.rs', 'bytes[0], bytes[4], bytes[8], bytes[12], bytes[16], bytes[20], bytes[24], bytes[28],', 'bytes[0], bytes[4], bytes[8], bytes[12], bytes[16], bytes[20], bytes[20], bytes[28],')], main='''
use ephemeral_vrf_sdk::rnd::*;
fn main() {
    // flipping single seed bits must give exactly 64 different effects on the result
    for f in [random_u64 as fn(&[u8; 32]) -> u64, |b| random_i64(b) as u64] {
        let mut seen = std::collections::BTreeSet::new();
        for i in 0..256 {
            let mut b = [0u8; 32];
            b[i / 8] = 1 << (i % 8);
            let v = f(&b);
            if v != 0 {
                assert_eq!(v.count_ones(), 1);
                assert!(seen.insert(v));
            }
        }
        assert_eq!(seen.len(), 64);
    }
}
''', needs='looking at the joint distribution of two bytes of the result', breaks='one seed byte is used twice in a 64-bit value, which has only 56 bits of randomness')

bug(id='S05-biased-edge', property='S05', kind='sdk', edits=[('sdk/src/rnd.rs', '        if b < threshold {', '        if b <= threshold {')], main='''
use ephemeral_vrf_sdk::rnd::*;
fn main() {
    for (lo, hi) in [(1u8, 6u8), (0, 99), (10, 10), (0, 255), (3, 202)] {
        let range = hi as u16 - lo as u16 + 1;
        // every value must be hit by the same number of last bytes among those the helper accepts
        let mut b = [0u8; 32];
        let mut n = std::collections::BTreeMap::new();
        for last in 0..=255u8 {
            b[31] = last;
            // the other bytes tell whether the last one was used
            b[..31].fill(0);
            let v0 = random_u8_with_range(&b, lo, hi);
            b[..31].fill((1 % range) as u8);
            let v1 = random_u8_with_range(&b, lo, hi);
            if v0 == v1 || range == 1 {
                *n.entry(v0).or_insert(0) += 1;
            }
            assert!(v0 >= lo && v0 <= hi);
        }
        let c: std::collections::BTreeSet<_> = n.values().collect();
        assert!(c.len() <= 1, "{lo}..={hi}: {n:?}");
    }
}
''', needs='a seed byte equal to the rejection threshold', breaks='the lowest value of the range is drawn more often than the others')

bug(id='S08-vault-seed', property='S08', kind='sdk', edits=[('sdk/src/pda.rs', '''        &[b"undelegate-buffer", &$delegated_account.as_ref()]''', '''        &[b"undelegation-buffer", &$delegated_account.as_ref()]''')], main='''
use ephemeral_vrf_sdk::pda::*;
use solana_program::pubkey::Pubkey;
fn main() {
    let p: Pubkey = "DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh".parse().unwrap();
    for b in 0..20u8 {
        let a = Pubkey::new_from_array([b; 32]);
        let want = |s: &[u8]| Pubkey::find_program_address(&[s, a.as_ref()], &p).0;
        assert_eq!(delegation_record_pda_from_delegated_account(&a), want(b"delegation"));
        assert_eq!(delegation_metadata_pda_from_delegated_account(&a), want(b"delegation-metadata"));
        assert_eq!(undelegate_buffer_pda_from_delegated_account(&a), want(b"undelegate-buffer"));
    }
}
''', needs='use of the undelegation buffer address', breaks='the helper returns an address the delegation program never uses')

bug(id='S02-args-cut', property='S02', kind='sdk', edits=[('sdk/src/instructions.rs', '''            callback_args: params.callback_args.unwrap_or_default(),
''', '''            callback_args: params
                .callback_args
                .unwrap_or_default()
                .into_iter()
                .take(512)
                .collect(),
''')], main='''
use ephemeral_vrf_api::prelude::RequestRandomness as Wire;
use ephemeral_vrf_sdk::instructions::*;
fn main() {
    for n in [0usize, 1, 100, 512, 513, 600] {
        let ix = create_request_randomness_ix(RequestRandomnessParams {
            caller_seed: [7; 32],
            callback_discriminator: vec![1, 2, 3],
            callback_args: Some(vec![9; n]),
            ..Default::default()
        });
        let got = Wire::try_from_bytes(&ix.data[8..]).expect("decodes");
        assert_eq!(got.callback_args, vec![9; n]);
    }
}
''', needs='callback arguments longer than 512 bytes', breaks='over-long arguments are cut instead of being refused on-chain: the encoded request is not the one asked for')

import os as _os
FAKE = open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'fake.py')).read()
PYSH = '''#!/bin/bash
# Runs the built program against a stand-in RPC node on the loopback interface.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
exec timeout 250 python3 "$here/demo.py"
'''
def pybug(py, **k): bug(sh=PYSH, files={'fake.py': FAKE, 'demo.py': 'from fake import *\n' + py}, **k)
PR = 'vrf-oracle/src/oracle/processor.rs'
pybug('''
n = Node()
at, over = bytes([1]) * 32, bytes([2]) * 32
n.accounts[queue_key(0)] = queue(0, [(at, n.slot - 240)])
n.accounts[queue_key(1)] = queue(1, [(over, n.slot - 241)])
s = Service(n)
until(lambda: len(n.ops()) >= 2, 20); s.stop()
ops = [d for _, _, d in n.ops()]
assert any(d[0] == 4 and d[8:40] == at for d in ops), 'a request of age 240 is not expired for the program and must be answered'
assert any(d[0] == 9 and d[8] == 1 for d in ops), 'a request of age 241 must be purged'
assert not any(d[0] == 9 and d[8] == 0 for d in ops)
''', id='O06-edge-of-ttl', property='O06', edits=[(PR, 'let is_purge = age > QUEUE_TTL_SLOTS;', 'let is_purge = age >= QUEUE_TTL_SLOTS;')],
  needs='a request served exactly 240 slots after it was made', breaks='the oracle sends a purge the program will not act on, and the request goes unanswered')

pybug('''
n = Node(); n.confirm = False
n.accounts[queue_key(0)] = queue(0, [(bytes([1]) * 32, n.slot - 3)])
s = Service(n)
ok = until(lambda: len(n.ops()) >= 30, 30)
time.sleep(5)
before = len(n.ops())
# the worker has given up; the next periodic sweep has to take the request up again
n.confirm = True
again = until(lambda: len(n.ops()) > before, 75)
s.stop()
assert ok and again, (ok, before, 'never served again')
''', id='O03-gives-up-claimed', property='O03', edits=[(PR, '''                                    warn!("Transaction {sig} failed to confirm: {err}");
                                    attempts += 3;
''', '''                                    warn!("Transaction {sig} failed to confirm: {err}");
                                    attempts += 3;
                                    if attempts >= 100 {
                                        error!("Giving up on {}", Pubkey::new_from_array(item.id));
                                        return;
                                    }
''')], needs='34 confirmation errors in a row for one request, then a recovered RPC node', breaks='the worker ends without releasing its claim, so the request is never served again')

pybug('''
n = Node()
old = [bytes([k + 1]) * 32 for k in range(3)]
n.slot = 2000
n.accounts[queue_key(0)] = queue(0, [(old[0], 1990)])
n.accounts[queue_key(3)] = queue(3, [(old[1], 1990), (old[2], 1990)])
n.accounts[queue_key(200)] = queue(200, [(bytes([9]) * 32, 1990)])
s = Service(n)
until(lambda: len({d[8:40] for _, _, d in n.ops()}) >= 4, 20); s.stop()
got = {d[8:40] for _, _, d in n.ops() if d[0] == 4}
assert got == set(old) | {bytes([9]) * 32}, len(got)
''', id='O01-low-indices', property='O01', edits=[(PR, '    if oracle_queue_pda(&oracle_client.keypair.pubkey(), oracle_queue.index).0 == *queue {\n', '''    // Only the indices the CLI lists
    let owned = (0..20).any(|index| {
        oracle_queue_pda(&oracle_client.keypair.pubkey(), index).0 == *queue
    });
    if owned {
''')], needs='a queue with an index of 20 or more', breaks='the requests of such queues are never served')

pybug('''
def run(*a):
    n = Node()
    n.accounts[queue_key(3)] = queue(3, [])
    p = subprocess.run(['/repo/target/debug/vrf-cli', '-r', n.url, *a], capture_output=True, text=True, timeout=60)
    return n.ops(), p
who = bytes([5]) * 32
for size, want in ((None, 9500), (20000, 20000), (400, 400), (9500, 9500)):
    ops, p = run('initialize-oracle-queue', '-i', b58e(ORACLE), '--index', '3', *(['-b', str(size)] if size else []))
    assert ops, p.stderr
    for _, acc, d in ops:
        assert d[0] == 2 and struct.unpack('<I', d[8:12])[0] == want and d[12] == 3, (size, d.hex())
''', id='K01-small-queues', property='K01', edits=[('vrf-cli/src/main.rs', 'initialize_oracle_queue(signer.pubkey(), identity, *index, *bytes_to_allocate).to_vec()', '''initialize_oracle_queue(
                signer.pubkey(),
                identity,
                *index,
                bytes_to_allocate.filter(|bytes| *bytes >= 1_000),
            )
            .to_vec()''')], needs='a requested queue size below 1000 bytes', breaks='the command silently creates a queue of the default size')


pybug('''
n = Node()
env = dict(os.environ, RUST_LOG='debug')
p = subprocess.Popen(['/repo/target/debug/vrf-oracle', '--identity', IDENTITY, '--rpc-url', n.url, '--websocket-url', n.url.replace('http', 'ws')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
time.sleep(4); p.kill(); out = p.communicate()[0].decode(errors='replace')
assert b58e(ORACLE) in out, out
assert IDENTITY not in out, 'the identity key is in the log'
''', id='O09-debug-config', property='O09', edits=[('vrf-oracle/src/main.rs', '    let args = Args::parse();\n', '    let args = Args::parse();\n    log::debug!("configuration: {args:?}");\n')],
  needs='the debug log level and an explicitly given identity', breaks='the secret key of the oracle ends up in its log')
pybug('''
r = subprocess.run(['/repo/target/debug/vrf-cli', '-k', IDENTITY, '-r', 'http://127.0.0.1:1', 'list-queue'], capture_output=True, text=True, timeout=60)
out = r.stdout + r.stderr
assert r.returncode != 0 and b58e(ORACLE) in out, out
assert IDENTITY not in out, 'the key is in the error message'
''', id='O09-error-arguments', property='O09', edits=[('vrf-cli/src/main.rs', 'let blockhash = rpc_client.get_latest_blockhash()?;', '''let blockhash = rpc_client.get_latest_blockhash().map_err(|e| {
        let invocation: Vec<String> = std::env::args().skip(1).collect();
        anyhow::anyhow!("{e} while running `{}`", invocation.join(" "))
    })?;''')],
  needs='an RPC node that cannot be reached', breaks='the error report of the CLI contains the signing key given on the command line')


MANIFESTS['anchor'] = '''[package]
name = "%(bin)s"
version = "0.1.0"
edition = "2021"

[dependencies]
ephemeral-vrf-sdk = { path = "/repo/sdk", features = ["anchor"] }
anchor-lang = "1.0"
solana-invoke = "0.5.0"

[features]
idl-build = []

[patch.crates-io]
solana-invoke = { path = "invoke" }

[workspace]
'''
bug(id='S07-few-bumps', property='S07', kind='anchor', edits=[('sdk/vrf-macro/src/lib.rs', '''                let bump = Pubkey::try_find_program_address(&[ephemeral_vrf_sdk::consts::IDENTITY], &crate::ID).ok_or(::ephemeral_vrf_sdk::compat::anchor_lang::prelude::ProgramError::InvalidSeeds)?;
''', '''                // the account is already checked against its seeds: only its bump is needed
                let bump = [u8::MAX, u8::MAX - 1, u8::MAX - 2]
                    .into_iter()
                    .find(|bump| Pubkey::create_program_address(&[ephemeral_vrf_sdk::consts::IDENTITY, &[*bump]], &crate::ID).is_ok())
                    .map(|bump| (self.program_identity.key(), bump))
                    .unwrap_or((self.program_identity.key(), u8::MAX));
''')], main='''#![allow(unexpected_cfgs, dead_code, deprecated)]
use anchor_lang::prelude::*;
use ephemeral_vrf_sdk::anchor::vrf;
// the identity of this program has bump 250
declare_id!("ABMhQhbCYRg5KVMJV2pzQJgpCRNtYSzLDtnXgfkKM68S");
#[vrf]
#[derive(Accounts)]
pub struct Roll<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: the queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
}
fn info(key: Pubkey, owner: Pubkey, signer: bool, exec: bool) -> AccountInfo<'static> {
    AccountInfo::new(
        Box::leak(Box::new(key)),
        signer,
        true,
        Box::leak(Box::new(1_000_000)),
        Box::leak(Box::new([0u8; 8])),
        Box::leak(Box::new(owner)),
        exec,
    )
}
fn main() {
    let system = anchor_lang::solana_program::system_program::ID;
    let identity = Pubkey::find_program_address(&[b"identity"], &crate::ID).0;
    let vrf_id = <ephemeral_vrf_sdk::anchor::VrfProgram as anchor_lang::Id>::id();
    let infos: &'static [AccountInfo<'static>] = Box::leak(Box::new([
        info(Pubkey::new_unique(), system, true, false),
        info(Pubkey::new_unique(), vrf_id, false, false),
        info(identity, system, false, false),
        info(vrf_id, system, false, true),
        info(ephemeral_vrf_sdk::compat::slot_hashes::ID, system, false, false),
        info(system, system, false, true),
    ]));
    let mut rest = infos;
    let roll = Roll::try_accounts(&crate::ID, &mut rest, &[], &mut RollBumps::default(), &mut Default::default()).expect("accounts");
    let ix = ephemeral_vrf_sdk::compat::Instruction { program_id: vrf_id, accounts: vec![], data: vec![] };
    roll.invoke_signed_vrf(&infos[0], &ix).expect("request");
    let signers: Vec<_> = solana_invoke::seeds().iter().map(|s| Pubkey::create_program_address(&s.iter().map(|x| &x[..]).collect::<Vec<_>>(), &crate::ID).ok()).collect();
    assert_eq!(signers, vec![Some(identity)]);
}
''', files={'demo/invoke/Cargo.toml': '''[package]
name = "solana-invoke"
version = "0.5.0"
edition = "2021"

[dependencies]
solana-account-info = "3"
solana-instruction = "3"
solana-program-entrypoint = "3"
''', 'demo/invoke/src/lib.rs': '''//! A stand-in for the runtime's cross-program call: records the signer seeds it is given.
use solana_account_info::AccountInfo;
use solana_instruction::Instruction;
use solana_program_entrypoint::ProgramResult;
static SEEDS: std::sync::Mutex<Vec<Vec<Vec<u8>>>> = std::sync::Mutex::new(vec![]);
pub fn seeds() -> Vec<Vec<Vec<u8>>> {
    SEEDS.lock().unwrap().clone()
}
pub fn invoke(i: &Instruction, a: &[AccountInfo]) -> ProgramResult {
    invoke_signed(i, a, &[])
}
pub fn invoke_unchecked(i: &Instruction, a: &[AccountInfo]) -> ProgramResult {
    invoke_signed(i, a, &[])
}
pub fn invoke_signed(_: &Instruction, _: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    SEEDS.lock().unwrap().extend(seeds.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()));
    Ok(())
}
pub fn invoke_signed_unchecked(i: &Instruction, a: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    invoke_signed(i, a, seeds)
}
'''}, needs='a consumer program whose identity address has a bump below 253', breaks='requests of such programs are not signed by their identity')
