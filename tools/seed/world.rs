// A minimal native stand-in for the Solana runtime: accounts are serialised the way the loader
// does it, the program runs natively, and the system program is emulated for its CPIs.
#![allow(dead_code)]
use ephemeral_vrf_api::prelude::*;
use solana_program::entrypoint::deserialize;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Acc {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
}

#[derive(Clone, Debug)]
pub struct Cpi {
    pub ix: Instruction,
    pub signers: Vec<Pubkey>,
    pub ok: bool,
}

thread_local! {
    pub static SLOT: RefCell<u64> = RefCell::new(1000);
    pub static CPIS: RefCell<Vec<Cpi>> = RefCell::new(vec![]);
    // called for a CPI to an unknown program
    pub static FAIL_CB: RefCell<bool> = RefCell::new(false);
}

struct Stubs;
const SYSTEM: Pubkey = Pubkey::new_from_array([0; 32]);

fn u64at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = Clock {
            slot: SLOT.with(|s| *s.borrow()),
            epoch_start_timestamp: 0,
            epoch: 0,
            leader_schedule_epoch: 0,
            unix_timestamp: 1_700_000_000,
        };
        unsafe { *(p as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::rent::Rent) = Default::default() };
        0
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let signers: Vec<Pubkey> = seeds
            .iter()
            .map(|s| Pubkey::create_program_address(s, &ephemeral_vrf_api::ID).unwrap())
            .collect();
        let find = |k: &Pubkey| infos.iter().find(|a| a.key == k).cloned();
        // a signer in the CPI must be a signer of the transaction or a PDA signed for
        for m in &ix.accounts {
            let a = find(&m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            if m.is_signer && !(a.is_signer || signers.contains(&m.pubkey)) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !a.is_writable {
                return Err(ProgramError::InvalidArgument);
            }
        }
        let fail = FAIL_CB.with(|f| *f.borrow()) && ix.program_id != SYSTEM;
        CPIS.with(|c| {
            c.borrow_mut().push(Cpi {
                ix: ix.clone(),
                signers,
                ok: !fail,
            })
        });
        if fail {
            return Err(ProgramError::Custom(77));
        }
        if ix.program_id != SYSTEM {
            return Ok(());
        }
        let d = &ix.data;
        let a = find(&ix.accounts[0].pubkey).unwrap();
        match d[0] {
            0 => {
                let b = find(&ix.accounts[1].pubkey).unwrap();
                let (l, space) = (u64at(d, 4), u64at(d, 12));
                if b.lamports() > 0 {
                    return Err(ProgramError::Custom(0));
                }
                let f = a.lamports().checked_sub(l).ok_or(ProgramError::Custom(1))?;
                **a.lamports.borrow_mut() = f;
                **b.lamports.borrow_mut() += l;
                b.resize(space as usize)?;
                b.assign(&Pubkey::new_from_array(d[20..52].try_into().unwrap()));
            }
            1 => a.assign(&Pubkey::new_from_array(d[4..36].try_into().unwrap())),
            2 => {
                let b = find(&ix.accounts[1].pubkey).unwrap();
                let l = u64at(d, 4);
                let f = a.lamports().checked_sub(l).ok_or(ProgramError::Custom(1))?;
                **a.lamports.borrow_mut() = f;
                **b.lamports.borrow_mut() += l;
            }
            8 => a.resize(u64at(d, 4) as usize)?,
            n => panic!("system instruction {n}"),
        }
        Ok(())
    }
}

#[derive(Clone)]
pub struct World {
    pub accs: BTreeMap<Pubkey, Acc>,
}

pub fn slot() -> u64 {
    SLOT.with(|s| *s.borrow())
}
pub fn set_slot(n: u64) {
    SLOT.with(|s| *s.borrow_mut() = n)
}
pub fn cpis() -> Vec<Cpi> {
    CPIS.with(|c| c.borrow().clone())
}
/// CPIs to programs other than the system program, made by the last instruction
pub fn callbacks() -> Vec<Cpi> {
    cpis().into_iter().filter(|c| c.ix.program_id != SYSTEM).collect()
}

impl World {
    pub fn new() -> World {
        set_syscall_stubs(Box::new(Stubs));
        World { accs: BTreeMap::new() }
    }
    pub fn fund(&mut self, k: Pubkey, l: u64) {
        self.acc(k).lamports += l;
    }
    pub fn acc(&mut self, k: Pubkey) -> &mut Acc {
        self.accs.entry(k).or_insert(Acc { lamports: 0, data: vec![], owner: SYSTEM })
    }
    pub fn get(&self, k: &Pubkey) -> Acc {
        self.accs.get(k).cloned().unwrap_or(Acc { lamports: 0, data: vec![], owner: SYSTEM })
    }
    pub fn total(&self) -> u128 {
        self.accs.values().map(|a| a.lamports as u128).sum()
    }
    /// Runs one instruction; state changes are kept only if it succeeds (and it may not panic).
    pub fn run(&mut self, ix: &Instruction) -> Result<(), ProgramError> {
        CPIS.with(|c| c.borrow_mut().clear());
        let mut buf: Vec<u8> = vec![];
        let mut pos: BTreeMap<Pubkey, u8> = BTreeMap::new();
        let mut order = vec![];
        buf.extend((ix.accounts.len() as u64).to_le_bytes());
        for (i, m) in ix.accounts.iter().enumerate() {
            if let Some(j) = pos.get(&m.pubkey) {
                buf.extend([*j, 0, 0, 0, 0, 0, 0, 0]);
                continue;
            }
            pos.insert(m.pubkey, i as u8);
            order.push(m.pubkey);
            let a = self.get(&m.pubkey);
            let sg = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_signer);
            let wr = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_writable);
            buf.extend([0xff, sg as u8, wr as u8, 0]);
            buf.extend((a.data.len() as u32).to_le_bytes());
            buf.extend(m.pubkey.to_bytes());
            buf.extend(a.owner.to_bytes());
            buf.extend(a.lamports.to_le_bytes());
            buf.extend((a.data.len() as u64).to_le_bytes());
            buf.extend(&a.data);
            buf.extend(vec![0u8; 10240]);
            while buf.len() % 8 != 0 {
                buf.push(0);
            }
            buf.extend(0u64.to_le_bytes());
        }
        buf.extend((ix.data.len() as u64).to_le_bytes());
        buf.extend(&ix.data);
        buf.extend(ix.program_id.to_bytes());
        let mut mem: Vec<u64> = vec![0; buf.len() / 8 + 2];
        let p = mem.as_mut_ptr() as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(buf.as_ptr(), p, buf.len()) };
        let (pid, infos, data) = unsafe { deserialize(p) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            ephemeral_vrf_program::process_instruction(pid, &infos, data)
        }));
        let r = match r {
            Ok(r) => r,
            Err(_) => Err(ProgramError::Custom(0xdead)),
        };
        r?;
        for k in order {
            let a = infos.iter().find(|a| *a.key == k).unwrap();
            let new = Acc { lamports: a.lamports(), data: a.data.borrow().to_vec(), owner: *a.owner };
            self.accs.insert(k, new);
        }
        Ok(())
    }
}

pub const LOADER: Pubkey = solana_program::pubkey!("BPFLoaderUpgradeab1e11111111111111111111111");

/// The upgrade authority
pub fn admin() -> Pubkey {
    Pubkey::new_from_array([9; 32])
}

pub fn slothashes(w: &mut World) {
    let mut d = vec![0u8; 20_488];
    d[0] = 2;
    for (i, b) in d[8..].iter_mut().enumerate() {
        *b = (i * 7 + 3) as u8;
    }
    let k = solana_program::sysvar::slot_hashes::id();
    let a = w.acc(k);
    a.data = d;
    a.lamports = 1;
    a.owner = solana_program::sysvar::id();
}

/// registry initialised, program data with the upgrade authority in place
pub fn base() -> World {
    let mut w = World::new();
    w.fund(admin(), 1_000_000_000_000);
    slothashes(&mut w);
    let (pd, _) = Pubkey::find_program_address(&[ephemeral_vrf_api::ID.as_ref()], &LOADER);
    let mut d = vec![3u8, 0, 0, 0];
    d.extend(0u64.to_le_bytes());
    d.push(1);
    d.extend(admin().to_bytes());
    d.extend([0u8; 64]);
    *w.acc(pd) = Acc { lamports: 1_000_000_000, data: d, owner: LOADER };
    w.run(&initialize(admin())).expect("initialize");
    w
}

pub const QBYTES: u32 = 9500;

/// base plus a registered oracle with one initialised queue of index 0
pub fn with_oracle(identity: Pubkey, vrf_pk: [u8; 32]) -> World {
    let mut w = base();
    w.fund(identity, 1_000_000_000_000);
    w.run(&add_oracle(admin(), identity, vrf_pk)).expect("add");
    set_slot(slot() + 200);
    open_queue(&mut w, identity, 0);
    w
}

pub fn open_queue(w: &mut World, identity: Pubkey, index: u8) {
    for ix in initialize_oracle_queue(admin(), identity, index, Some(QBYTES)) {
        w.run(&ix).expect("queue");
    }
}

pub fn queue_of(identity: &Pubkey, index: u8) -> Pubkey {
    oracle_queue_pda(identity, index).0
}

pub fn consumer() -> Pubkey {
    Pubkey::new_from_array([5; 32])
}
pub fn payer() -> Pubkey {
    Pubkey::new_from_array([6; 32])
}

pub fn request_ix(queue: Pubkey, seed: u8, hp: bool, disc: Vec<u8>, metas: Vec<SerializableAccountMeta>, args: Vec<u8>) -> Instruction {
    let (ident, _) = Pubkey::find_program_address(&[IDENTITY], &consumer());
    let mut data = RequestRandomness {
        caller_seed: [seed; 32],
        callback_program_id: consumer(),
        callback_discriminator: disc,
        callback_accounts_metas: metas,
        callback_args: args,
    }
    .to_bytes();
    if !hp {
        data[0] = 8;
    }
    Instruction {
        program_id: ephemeral_vrf_api::ID,
        accounts: vec![
            AccountMeta::new(payer(), true),
            AccountMeta::new_readonly(ident, true),
            AccountMeta::new(queue, false),
            AccountMeta::new_readonly(SYSTEM, false),
            AccountMeta::new_readonly(solana_program::sysvar::slot_hashes::id(), false),
        ],
        data,
    }
}

/// ids of pending items, read through the public view
pub fn items(w: &World, queue: &Pubkey) -> Vec<QueueItem> {
    let mut d = w.get(queue).data;
    let q = QueueAccount::load(&mut d[8..]).unwrap();
    q.iter_items().collect()
}

use curve25519_dalek::Scalar;
use solana_curve25519::ristretto::PodRistrettoPoint;
use solana_curve25519::scalar::PodScalar;

pub fn provide_ix(identity: Pubkey, index: u8, sk: Scalar, id: [u8; 32], extra: Vec<AccountMeta>) -> Instruction {
    let (out, (u, v, s)) = ephemeral_vrf::vrf::compute_vrf(sk, &id);
    let mut ix = provide_randomness(
        identity,
        queue_of(&identity, index),
        consumer(),
        id,
        PodRistrettoPoint(out.0),
        PodRistrettoPoint(u.0),
        PodRistrettoPoint(v.0),
        PodScalar(s.to_bytes()),
    );
    ix.accounts.extend(extra);
    ix
}
