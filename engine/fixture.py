"""Consumer programs for the account macro: one accounts struct per combination of user-declared required accounts.
The source is written out at check time, expanded and type-checked by the compiler against the SDK in the current tree,
and the resulting MIR is dumped; nothing is executed."""
import os
ROLES = ['program_identity', 'vrf_program', 'slot_hashes', 'system_program']
HEAD = '''#![allow(unexpected_cfgs, dead_code, deprecated, unused_imports)]
use %(anchor)s::prelude::*;
use ephemeral_vrf_sdk::anchor::{vrf, VrfProgram};
declare_id!("CDiutifqugEkabdqwc5TK3FmSAgFpkP3RPE1642BCEhi");
'''
DECL = {
    'program_identity': '    /// CHECK: declared by the user\n    #[account(seeds = [b"identity"], bump)]\n    pub program_identity: %(raw)s,\n',
    'vrf_program': "    pub vrf_program: Program<'info, VrfProgram>,\n",
    'slot_hashes': '    /// CHECK: declared by the user\n    #[account(address = ephemeral_vrf_sdk::compat::slot_hashes::ID)]\n    pub slot_hashes: %(raw)s,\n',
    'system_program': "    pub system_program: Program<'info, System>,\n",
}
# where the declared accounts stand relative to the user's own fields
def user_fields(n):
    """names in declaration order: the declared roles stand before or after the user's own accounts"""
    have = [r for j, r in enumerate(ROLES) if n >> j & 1]
    front = [r for j, r in enumerate(have) if (n + j) % 2]
    return front, [r for r in have if r not in front]
OWN = """    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: queue
    #[account(mut, address = PINNED)]
    pub oracle_queue: %(raw)s,
    /// CHECK: look-alike names
    pub system_program_state: %(raw)s,
    /// CHECK: look-alike names
    #[account(address = PINNED)]
    pub vrf_programs: %(raw)s,
    /// CHECK: look-alike names
    #[account(mut, constraint = nonce > 3)]
    pub my_slot_hashes: %(raw)s,
    /// CHECK: look-alike names
    #[account(signer)]
    pub old_program_identity: %(raw)s,
    /// CHECK: look-alike names
    pub slot_hashes_old: %(raw)s,
    /// CHECK: look-alike names
    pub program_identity_2: %(raw)s,
    /// CHECK: look-alike names
    pub host_system_program: %(raw)s,
    /// CHECK: look-alike names
    pub a_vrf_program: %(raw)s,
    /// CHECK: look-alike names
    pub identity: %(raw)s,
"""
OWN_NAMES = ['payer', 'oracle_queue', 'system_program_state', 'vrf_programs', 'my_slot_hashes', 'old_program_identity', 'slot_hashes_old', 'program_identity_2', 'host_system_program', 'a_vrf_program', 'identity']
def source(cfg):
    m = {'anchor': 'anchor_lang', 'raw': "AccountInfo<'info>" if cfg == 'compat' else "UncheckedAccount<'info>"}
    s = HEAD % m
    for n in range(16):
        front, back = user_fields(n)
        body = ''.join(DECL[r] % m for r in front) + OWN % m + ''.join(DECL[r] % m for r in back)
        s += "#[vrf]\n#[derive(Accounts)]\n#[instruction(nonce: u8)]\npub struct C%d<'info> {\n%s}\n" % (n, body)
        s += "#[derive(Accounts)]\n#[instruction(nonce: u8)]\npub struct P%d<'info> {\n%s}\n" % (n, body)
    s += 'pub const PINNED: Pubkey = Pubkey::new_from_array([7; 32]);\n'
    # names every combination so that its code is generated
    for n in range(16):
        s += "pub fn request_c%d<'info>(a: &C%d<'info>, payer: &AccountInfo<'info>, ix: &ephemeral_vrf_sdk::compat::Instruction) -> ephemeral_vrf_sdk::compat::anchor_lang::solana_program::entrypoint::ProgramResult { a.invoke_signed_vrf(payer, ix) }\n" % (n, n)
    return s
VERSION = {'modern': ('anchor', '1.0'), 'compat': ('anchor-compat', '0.31')}
def write(dst, cfg, repo):
    os.makedirs(os.path.join(dst, 'src'), exist_ok=True)
    feat, ver = VERSION[cfg]
    put(os.path.join(dst, 'Cargo.toml'), '''[package]
name = "macro-consumer"
version = "0.0.0"
edition = "2021"
[lib]
name = "macro_consumer"
[features]
idl-build = []
[dependencies]
ephemeral-vrf-sdk = { path = "%s/sdk", features = ["%s"] }
anchor-lang = "%s"
[workspace]
''' % (repo, feat, ver))
    put(os.path.join(dst, 'src/lib.rs'), source(cfg))
    put(os.path.join(dst, 'Cargo.lock'), open(os.path.join(repo, 'Cargo.lock')).read())
def put(p, t):
    open(p, 'w').write(t)
