"""Rules over the path summaries of the on-chain program (process_instruction per instruction code)."""
from rules.base import *
import program as P
ID = pk('Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz')
DEFQ = pk('5hBR571xnXppuCPveTrctfTU7tJLSN94nq7kv7FRK5Tc')
IDENT = pk('9irBy75QS2BN81FUgXuHcjqceJJRuc9oDkAe8TKVvvAw')
SLOTHASHES = pk('SysvarS1otHashes111111111111111111111111111')
LOADER = pk('BPFLoaderUpgradeab1e11111111111111111111111')
MAGIC = pk('Magic11111111111111111111111111111111111111')
MAGIC_CTX = pk('MagicContext1111111111111111111111111111111')
SYSTEM = B(bytes(32))
FEE = {1: 800000, 0: 500000}
SYSI = 'solana_system_interface::instruction::'
API = 'ephemeral_vrf_api::'
NAMES = {0: 'initialize', 1: 'modify_oracles', 2: 'initialize_oracle_queue', 3: 'request_randomness(high)', 4: 'provide_randomness', 5: 'delegate', 6: 'undelegate',
         7: 'close_oracle_queue', 8: 'request_randomness(regular)', 9: 'purge_expired_requests', 196: 'process_undelegation'}
HANDLER = {0: 'process_initialize', 1: 'process_modify_oracles', 2: 'process_initialize_oracle_queue', 3: 'process_request_randomness', 4: 'process_provide_randomness',
           5: 'delegate', 6: 'undelegate', 7: 'close_oracle_queue', 8: 'process_request_randomness', 9: 'process_purge', 196: 'process_undelegation'}
A = P.acct
def key(i): return mk('key', A(i))
def owner(i): return mk('owner', A(i))
def data(i): return mk('data', A(i))
def lam(i): return mk('lam', A(i))
def signer(tr, i): return tr.holds(fld(A(i), 'is_signer'))
def writable(tr, i): return tr.holds(fld(A(i), 'is_writable'))
def pda(seeds, prog=None): return mk('pda', seeds, prog or ID)
def at_pda(tr, i, seeds, prog=None): return tr.holds(eqv(pda(seeds, prog), key(i)))
def owned(tr, i, by=None): return tr.holds(eqv(by or ID, owner(i)))
def tagged(tr, i, tag, n=None):
    """account i's type tag (first byte; full 8 bytes accepted too) and, if given, exact length"""
    D = data(i)
    t = tr.holds(eqz(subt(idx(D, ZERO), I(tag)))) or tr.holds(eqv(B(bytes([tag] + [0] * 7)), sub(D, ZERO, I(8))))
    return t and (n is None or tr.holds(eqz(subt(ln(D), I(n)))))
def oracle_fld(name):
    off, ty = LAYOUT[API + 'state::oracle::Oracle'][name]
    return off, ty
def oracle_rd(D, name):
    off, ty = oracle_fld(name); return rd(D, I(8 + off), ty)
def genuine_oracle(tr, i, k):
    """account i is the program-owned oracle record of identity k"""
    return at_pda(tr, i, cat(B(b'oracle'), k)) and owned(tr, i) and tagged(tr, i, 1, 56)
def pay(struct, field):
    off, ty = LAYOUT[API + 'instruction::' + struct][field]
    return rd(P.PAYLOAD, I(off), ty)
def traces(ctx, code):
    e, outs = P.run(code)
    ctx.saw(e, outs)
    r = [Tr(e, o, 'instruction %d (%s) succeeding path %d' % (code, NAMES[code], n)) for n, o in enumerate(filter(P.is_ok, outs))]
    ctx.ob('operation-present@%d' % code, bool(r), HANDLER[code], 'no succeeding path for this instruction code')
    w = where_fn(e, HANDLER[code])
    for t in r: t.where = w; t.code = code
    return r
def each(ctx, code, checks):
    """checks: [(name, predicate(tr))] required on every succeeding path"""
    for tr in traces(ctx, code):
        for name, p in checks:
            try: ok = bool(p(tr))
            except (IndexError, KeyError, AttributeError, TypeError) as x: ok = False
            ctx.ob('%s@%s' % (name, HANDLER[code]), ok, tr.where, tr.text)
def syscalls(tr): return [e for e in tr.evs('cpi') if e.args[1].op == 'call' and e.args[1].args[0].startswith(SYSI)]
def callbacks(tr): return [e for e in tr.evs('cpi', 'extcpi') if e not in syscalls(tr)]
def ixagg(ev):
    """(program, accounts, data) of a hand-built instruction"""
    ix = ev.args[1]
    return fld(ix, 'program_id'), fld(ix, 'accounts'), fld(ix, 'data')

# ---------------------------------------------------------------- fulfilment
def qrm(tr):
    r = tr.evs('q_rm'); return r[0] if len(r) == 1 else None
def qitem(tr):
    r = qrm(tr); return mk('q_item', r.args[1], r.args[2])
def vrf(tr):
    v = [f for f in tr.facts('vrf_ok')]
    return v
def vrf_args(f):
    """(public key, input, output, proof fields)"""
    a = [strip(x) for x in f.args]
    pf = []
    def go(x):
        x = strip(x)
        if x.op == 'agg': [go(y) for y in x.args[2:]]
        else: pf.append(x)
    for x in a[3:]: go(x)
    return a[0], a[1], a[2], tuple(pf)
def good_vrf(tr):
    """the proof verification guarding this path, bound to stored key, removed request and submitted fields"""
    rm = qrm(tr)
    if rm is None: return None
    for f in vrf(tr):
        k, i, o, pf = vrf_args(f)
        if k is not oracle_rd(data(2), 'vrf_pubkey'): continue
        if rm.args[2].op != 'q_idx' or rm.args[2].args[0] is not rm.args[1] or rm.args[2].args[1] is not i: continue
        return f
    return None
@rule('F01')
def f01(ctx):
    """every succeeding fulfilment path is guarded by verify_vrf(stored key of the typed program-owned record of the signer, id of the removed request, submitted output, submitted proof)"""
    P4 = 'ProvideRandomness'
    each(ctx, 4, [
        ('proof-verified', lambda t: good_vrf(t) is not None),
        ('record-genuine', lambda t: genuine_oracle(t, 2, key(0)) and signer(t, 0)),
        ('request-pending', lambda t: t.holds(mk('q_has', qrm(t).args[1], qrm(t).args[2].args[1]))),
        ('submitted-fields', lambda t: vrf_args(good_vrf(t))[1:] == (pay(P4, 'input'), pay(P4, 'output'), (pay(P4, 'commitment_base_compressed'), pay(P4, 'commitment_hash_compressed'), pay(P4, 'scalar')))),
        ('one-queue', lambda t: qrm(t).args[1] is mk('q_load', sub(data(3), I(8), ln(data(3)))))])
def cb(tr):
    c = callbacks(tr); return c[0] if len(c) == 1 else None
def hashed(o): return mk('sha256', o)
@rule('F02')
def f02(ctx):
    """callback data, besides the recorded discriminator and arguments, is exactly sha256 of the output argument of the guarding verification"""
    def p(t):
        d = catparts(ixagg(cb(t))[2])
        mid = [x for x in d if x.op not in ('q_disc', 'q_args')]
        return any(mid == [hashed(vrf_args(f)[2])] for f in vrf(t))
    each(ctx, 4, [('delivered-value-is-hash-of-proven-output', p)])
def final_queue(tr, i, A1):
    D = data(i)
    return w_(D, I(8), subt(ln(D), I(8)), 'bytes', A1)
@rule('F03')
def f03(ctx):
    """exactly one removal and one callback per succeeding path; the removal of that request is in the account data when the callback runs and is not undone"""
    def before(t):
        rm, c = qrm(t), cb(t)
        q1 = final_queue(t, 3, mk('q_rm', rm.args[1], rm.args[2]))
        snap = {s.args[0]: s.args[1] for s in c.args[4].args}
        return t.index(rm) < t.index(c) and snap.get(A(3)) is q1
    def after(t):
        rm = qrm(t)
        return t.cell('data', A(3)) is final_queue(t, 3, mk('q_rm', rm.args[1], rm.args[2]))
    each(ctx, 4, [
        ('exactly-one-removal', lambda t: qrm(t) is not None),
        ('removed-is-the-proven-request', lambda t: good_vrf(t) is not None),
        ('removed-is-pending', lambda t: t.holds(mk('q_has', qrm(t).args[1], qrm(t).args[2].args[1]))),
        ('exactly-one-callback', lambda t: cb(t) is not None),
        ('removal-recorded-before-callback', before), ('removal-kept', after)])
def meta_list(t, item):
    """VRF identity followed by the recorded accounts"""
    b = [u for u in subterms(ixagg(cb(t))[1], 'bv')]
    return b
@rule('F04')
def f04(ctx):
    """callback program, account metas and data are exactly the removed request's recorded values (value-number equality)"""
    def prog(t): return ixagg(cb(t))[0] is fld(qitem(t), 'callback_program_id')
    def dat(t):
        d = catparts(ixagg(cb(t))[2]); it = qitem(t)
        return len(d) == 3 and d[0] is mk('q_disc', it) and d[2] is mk('q_args', it) and d[1].op == 'sha256'
    def accs(t):
        a = catparts(ixagg(cb(t))[1]); it = qitem(t)
        if len(a) != 2 or a[0].op != 'arr' or len(a[0].args) != 1 or a[1].op != 'map': return False
        h = a[0].args[0]
        if fld(h, 'pubkey') is not key(1) and fld(h, 'pubkey') is not IDENT: return False
        return recorded_metas(a[1], it)
    def infos(t):
        """the accounts handed over: callback program, identity and the remaining accounts, unfiltered"""
        c = cb(t).args[2]
        have = catparts(c)
        flat = [x for p in have for x in (p.args if p.op == 'arr' else (p,))]
        return A(4) in flat and A(1) in flat and sub(P.ACCS, I(5), ln(P.ACCS)) in flat
    each(ctx, 4, [('callback-program', prog), ('callback-program-account', lambda t: t.holds(eqv(fld(qitem(t), 'callback_program_id'), key(4)))),
                  ('callback-data', dat), ('callback-accounts', accs), ('callback-account-infos', infos)])
def recorded_metas(m, it):
    src, body, b = m.args
    if src is not mk('q_metas', it): return False
    e = idx(src, b)
    w = fld(e, 'is_writable')
    fw = fld(body, 'is_writable')
    return fld(body, 'pubkey') is fld(e, 'pubkey') and (fw is pos(w) or fw is w or fw is eqz(subt(w, ONE)))
@rule('F05')
def f05(ctx):
    """in every callback: signer seeds are only the identity PDA's, only the identity meta is a signer and it is read-only at the genuine address, recorded metas are non-signers, and the oracle's key is not among them"""
    def seeds(t):
        s = cb(t).args[3]
        ss = [flatseed(x) for x in s.args] if s.op == 'arr' else None
        return ss is not None and len(ss) == 1 and ss[0] is not None and len(ss[0]) == 2 and ss[0][0] is B(b'identity')
    def metas(t):
        a = catparts(ixagg(cb(t))[1])
        heads = [x for p in a if p.op == 'arr' for x in p.args]
        maps = [p for p in a if p.op != 'arr']
        if any(p.op != 'map' for p in maps): return False
        sg = [h for h in heads if fld(h, 'is_signer') is not FALSE]
        return all((fld(h, 'is_signer') is TRUE or t.holds(fld(h, 'is_signer'))) and fld(h, 'is_writable') is FALSE and (fld(h, 'pubkey') in (key(1), IDENT)) for h in sg) and len(sg) == 1 and all(fld(p.args[1], 'is_signer') is FALSE for p in maps)
    def ident(t): return t.holds(eqv(key(1), IDENT))
    def refused(t):
        it = qitem(t); m = mk('q_metas', it)
        for f in t.facts('any', False):
            if f.args[0] is m and f.args[2] is eqv(key(0), fld(idx(m, f.args[1]), 'pubkey')): return True
        return False
    each(ctx, 4, [('signer-seeds', seeds), ('only-identity-signs', metas), ('identity-genuine', ident), ('oracle-not-among-accounts', refused)])
def flatseed(s):
    s = strip(s)
    if s.op != 'arr': return None
    return [strip(x) for x in s.args]
@rule('F06')
def f06(ctx):
    """guard current slot > recorded slot of the removed request on every succeeding path"""
    each(ctx, 4, [('strictly-later-slot', lambda t: t.holds(pos(subt(CLOCK('slot'), fld(qitem(t), 'slot')))))])
def CLOCK(f): return fld(mk('sysvar', 'Clock'), f)

@rule('F07')
def f07(ctx):
    """signer, genuine record and genuine queue of the same identity on every succeeding path"""
    def q(t):
        off = LAYOUT[API + 'state::queue::Queue']['index'][0]
        return at_pda(t, 3, cat(B(b'queue'), key(0), arr(idx(data(3), I(8 + off))))) and owned(t, 3) and tagged(t, 3, 3)
    each(ctx, 4, [('oracle-signed', lambda t: signer(t, 0)), ('record-genuine', lambda t: genuine_oracle(t, 2, key(0))), ('queue-genuine', q)])

# ---------------------------------------------------------------- requests
REQ = (3, 8)
def DEC(): return mk('dec', B(b'ephemeral_vrf_api::instruction::RequestRandomness'), P.PAYLOAD)
def req(f): return fld(DEC(), f)
def qadd(tr):
    r = tr.evs('q_add'); return r[0].args[1:] if len(r) == 1 else None
def queue0(i): return mk('q_load', sub(data(i), I(8), ln(data(i))))
@rule('R01')
def r01(ctx):
    """payer signed, and the identity PDA of the very program recorded in the entry signed"""
    def caller(t):
        A0, item, disc, metas, args = qadd(t)
        p = fld(item, 'callback_program_id')
        return signer(t, 1) and at_pda(t, 1, B(b'identity'), p) and p is req('callback_program_id')
    for c in REQ: each(ctx, c, [('one-entry', lambda t: qadd(t) is not None), ('payer-signed', lambda t: signer(t, 0)), ('callback-program-identity-signed', caller)])
@rule('R02')
def r02(ctx):
    """the entry id is sha256 over seed, Clock slot, SlotHashes bytes of the genuine sysvar account, discriminator, program, Clock time and queue position"""
    def parts(t):
        i = fld(qadd(t)[1], 'id')
        return catparts(i.args[0]) if i.op == 'sha256' else []
    sh = sub(data(4), I(16), I(48))
    def le(n, v): return mk('le', n, v)
    ing = [('caller-seed', lambda t: req('caller_seed')), ('slot', lambda t: le(8, CLOCK('slot'))), ('slot-hash', lambda t: sh),
           ('discriminator', lambda t: req('callback_discriminator')), ('program', lambda t: req('callback_program_id')),
           ('time', lambda t: le(8, CLOCK('unix_timestamp'))), ('queue-position', lambda t: le(4, rd(qadd(t)[0], ZERO, 'u32')))]
    def whole(s, t): return s is not None and s in parts(t)
    for c in REQ:
        each(ctx, c, [('id-binds-' + n, lambda t, f=f: whole(f(t), t)) for n, f in ing] +
             [('slot-hashes-genuine', lambda t: t.holds(eqv(key(4), SLOTHASHES)))])
@rule('R03')
def r03(ctx):
    """the queue entry written equals the submitted request, field by field"""
    for c in REQ:
        def metas(t):
            m = qadd(t)[3]
            if m.op != 'map' or m.args[0] is not req('callback_accounts_metas'): return False
            e = idx(m.args[0], m.args[2]); b = m.args[1]
            return fld(b, 'pubkey') is fld(e, 'pubkey') and fld(b, 'is_writable') is fld(e, 'is_writable')
        def stored(t): return t.cell('data', A(2)) is final_queue(t, 2, mk('q_add', *qadd(t)))
        each(ctx, c, [('one-entry', lambda t: qadd(t) is not None), ('entry-in-supplied-queue', lambda t: qadd(t)[0] is queue0(2) and stored(t)),
                      ('slot', lambda t: fld(qadd(t)[1], 'slot') is CLOCK('slot')), ('id-is-hash', lambda t: fld(qadd(t)[1], 'id').op == 'sha256'),
                      ('program', lambda t: fld(qadd(t)[1], 'callback_program_id') is req('callback_program_id')),
                      ('discriminator', lambda t: qadd(t)[2] is req('callback_discriminator')), ('accounts', metas), ('arguments', lambda t: qadd(t)[4] is req('callback_args')),
                      ('priority', lambda t, c=c: fld(qadd(t)[1], 'priority_request') is I(1 if c == 3 else 0))])
@rule('R04')
def r04(ctx):
    """owner and type tag of the queue account are guards of every succeeding request path"""
    for c in REQ: each(ctx, c, [('queue-owned-by-program', lambda t: owned(t, 2)), ('queue-tagged', lambda t: tagged(t, 2, 3))])
@rule('R05')
def r05_handler(ctx):
    """discriminator length <= 8 guards every succeeding request path; whole submitted lists are inserted"""
    for c in REQ:
        each(ctx, c, [('discriminator-at-most-8', lambda t: t.fails(pos(subt(ln(qadd(t)[2]), I(8))))),
                      ('nothing-truncated', lambda t: qadd(t)[2] is req('callback_discriminator') and qadd(t)[4] is req('callback_args') and qadd(t)[3].op == 'map' and qadd(t)[3].args[0] is req('callback_accounts_metas'))])

# ---------------------------------------------------------------- lamports
def feasible(t, x, vals):
    return [v for v in vals if t.st.decide(eqz(subt(x, I(v)))) is not False]
def delta(t, i): return subt(t.cell('lam', A(i)), lam(i))
def lam_cells(t): return {c[1]: v for c, v in t.st.store.items() if c[0] == 'lam'}
def exempt(t, i): return t.st.decide(eqv(key(i), DEFQ))
def native(t):
    """lamport changes made by the program itself: {account: delta}, ignoring the effects of the callback"""
    r = {}
    for a, v in lam_cells(t).items():
        m = {u: u.args[1] for u in subterms(v, 'lamafter')}
        d = subt(substm(v, m) if m else v, mk('lam', a))
        if d is not ZERO: r[a] = d
    return r
def tot(t):
    T = total_of(t)
    if T is None: return False
    if exempt(t, 1) is True: return not native(t)
    n = native(t)
    if t.fails(pos(T)): return not n or n == {A(1): mul(I(-1), T), A(0): T}
    if not n:      # unpaid only when nothing was purged or the queue is exempt
        neg = [f for f, v in t.st.facts.items() if not v and f.op == 'and']
        return any(set(f.args) <= {pos(T), not_(eqv(key(1), DEFQ)), not_(eqv(DEFQ, key(1)))} for f in neg)
    return exempt(t, 1) is False and n == {A(1): mul(I(-1), T), A(0): T}
@rule('M01')
def m01(ctx):
    """fee amounts of request, fulfilment and purge agree per priority; only the default ephemeral queue is exempt"""
    for c in REQ:
        def fee(t, c=c):
            tf = syscalls(t)
            if exempt(t, 2) is True: return not tf and not native(t)
            if exempt(t, 2) is not False: return False
            amt = FEE[1 if c == 3 else 0]
            if len(tf) != 1 or not tf[0].args[1].args[0].endswith('::transfer'): return False
            f, to, n = [strip(x) for x in tf[0].args[1].args[1:4]]
            return f is key(0) and to is key(2) and n is I(amt) and native(t) == {A(0): I(-amt), A(2): I(amt)}
        each(ctx, c, [('fee-charged', fee)])
    def paid(t):
        if exempt(t, 3) is True: return not native(t)
        if exempt(t, 3) is not False: return False
        amts = {FEE[v] for v in feasible(t, fld(qitem(t), 'priority_request'), (0, 1))}
        if len(amts) != 1: return False
        a = amts.pop(); return native(t) == {A(3): I(-a), A(0): I(a)}
    each(ctx, 4, [('fee-paid-out', paid)])
    purge_rule(ctx, 'fees')
    each(ctx, 9, [('fee-paid-out', tot)])
@rule('M02')
def m02(ctx):
    """each fee payout is zero-sum, guarded by balance >= amount and by the absence of overflow of the credit"""
    for c in (4, 9):
        def cons(t):
            s = ZERO
            for d in native(t).values(): s = add(s, d)
            return s is ZERO and len(native(t)) in (0, 2)
        def guard(t):
            for a, d in native(t).items():
                m = {}
                base = [u for u in subterms(t.cell('lam', a), 'lamafter')]
                L = mk('lam', a)
                L2 = base[0] if base else L
                isneg = t.holds(pos(mul(I(-1), d)))
                if isneg:
                    if not (t.ge(L, mul(I(-1), d)) or t.ge(L2, mul(I(-1), d))): return False
                else:
                    if not any(t.st.facts.get(mk('bool', *x)) is False for x in ovf(L, d) + ovf(L2, d)) and not t.holds(not_(pos(subt(add(L, d), I(2**64 - 1))))): return False
            return True
        def full(t):     # what is owed does not shrink to what the queue happens to hold
            if exempt(t, 3) is True: return not native(t)
            n = native(t); d = n.get(A(0))
            return set(n) == {A(0), A(3)} and d.op == 'int' and d.args[0] > 0
        each(ctx, c, [('zero-sum', cons), ('no-overdraw-no-overflow', guard), ('full-amount-or-failure', full if c == 4 else tot)])
def ovf(a, d): return [('ovf', 'Add', a, d, 64), ('ovf', 'Add', d, a, 64)]
def minbal(n): return lambda u: u.op == 'call' and u.args[0].endswith('minimum_balance') and len(u.args) > 2 and u.args[2] is n
@rule('M03')
def m03(ctx):
    """over every succeeding path of the account-creating, -resizing and -closing instructions: lamport deltas sum to zero, created and resized accounts end at or above (resized: exactly at) the rent minimum of their final size, closed accounts end at zero with the whole balance credited to the recipient"""
    for c in (0, 1, 2, 7):
        def zsum(t):
            s = ZERO
            for a, v in lam_cells(t).items(): s = add(s, subt(v, mk('lam', a)))
            return t.simp(s) is ZERO
        def funded(t):
            for cc, D in t.st.store.items():
                if cc[0] != 'data': continue
                a = cc[1]; n = ln(D)
                own = t.st.store.get(('@', fld(a, 'owner'))) or t.st.store.get(('@', mk('owner', a)))
                L = t.simp(t.cell('lam', a))
                rs = [e for e in t.evs('resize') if e.args[1] is a]
                closed = own is SYSTEM
                if closed:
                    if L is not ZERO or n is not ZERO: return False
                    continue
                if own is ID or rs:
                    n2 = rs[-1].args[2] if rs else n
                    if t.holds(eqz(subt(n, n2))) is False and n is not n2: return False
                    cand = [u for u in list(subterms(L, 'call')) + [u for f in t.st.facts for u in subterms(f, 'call')] if minbal(n2)(u)]
                    if own is ID and not rs:
                        if not any(t.ge(L, m) for m in cand): return False
                    elif not any(subt(L, m) is ZERO or t.ge(L, m) and t.ge(m, L) for m in cand): return False
            return True
        def closed_to(t):
            for e in t.evs('assign'):
                a = e.args[1]
                rcpt = [x for x, v in lam_cells(t).items() if occurs(mk('lam', a), v) and x is not a]
                if rcpt != [A(0)]: return False
            return True
        each(ctx, c, [('zero-sum', zsum), ('rent-and-size', funded), ('closed-balance-to-recipient', closed_to)])

# ---------------------------------------------------------------- purge
def purge_loop(t):
    """(queue phi, index phi, total phi, loop event)"""
    for e in t.evs('loop'):
        ph = e.args[2]
        D = [p for p, i in ph if p.args[-1][0][0] == 'data' and p.args[-1][0][1] is A(1)]
        if D: return e, D[0], {p: i for p, i in ph}
    return None
def total_of(t):
    """the term paid out after the loop: an expression over the loop's variables that starts at 0"""
    L = purge_loop(t)
    if L is None: return None
    e, outs = P.run(9)
    for n, o in enumerate(filter(P.is_ok, outs)):
        x = Tr(e, o, '')
        if purge_loop(x) is None or purge_loop(x)[0] is not L[0]: continue
        T = native(x).get(A(0))
        if T is not None and not isint(T): return T
    return None
def index_phi(e, D, p):
    """p is the position at which items are inspected or removed: 1; it is one past that position: -1; neither: 0"""
    for b in e.args[3]:
        at = [u.args[1] for x in b.args[0] for u in walk(x[0]) if u.op in ('q_item', 'q_in')] + [ev.args[2] for ev in b.args[2] if ev.args[0] == 'q_rm']
        if p in at: return 1
        if subt(p, ONE) in at: return -1
    return 0
def counted_out(t, e, D, ph, i, cnt0):
    """a step counter equal to position plus removals reached the initial number of entries"""
    for p, p0 in ph.items():
        if p is i or p is D: continue
        for sg in (1, -1):
            if not all(subt(dict(b.args[1]).get(p, p), p) is mul(I(sg), add(subt(dict(b.args[1]).get(i, i), i), I(len([x for x in b.args[2] if x.args[0] == 'q_rm'])))) for b in e.args[3]): continue
            if sg == 1 and p0 is ph[i] and t.ge(p, cnt0) or sg == -1 and subt(p0, cnt0) is ZERO and ph[i] is ZERO and t.ge(ZERO, p): return True
    return False
def purge_rule(ctx, what):
    LIM = 240
    for t in traces(ctx, 9):
        L = purge_loop(t)
        if not ctx.ob('purge-loop@' + HANDLER[9], L is not None, t.where, t.text): continue
        e, D, ph = L
        ix = [p for p in ph if index_phi(e, D, p)]
        T = total_of(t)
        if what == 'fees' and not ctx.ob('fee-accumulator@' + HANDLER[9], T is not None and substm(T, ph) is ZERO, t.where, t.text): continue
        if not ctx.ob('single-position@' + HANDLER[9], len(ix) == 1, t.where, t.text): continue
        i = ix[0]; fw = index_phi(e, D, i) > 0; at = i if fw else subt(i, ONE)
        Q = sub(D, I(8), ln(data(1)))
        cnt0 = rd(ph[D], I(8), 'u32')
        if what == 'expiry':
            ctx.ob('starts-at-first-entry@' + HANDLER[9], ph[i] is ZERO if fw else subt(ph[i], cnt0) is ZERO, t.where, t.text)
            ctx.ob('starts-from-stored-queue@' + HANDLER[9], ph[D] in (final_queue(t, 1, queue0(1)), data(1)), t.where, t.text)
            cnt = rd(D, I(8), 'u32')
            ctx.ob('stops-only-after-last-entry@' + HANDLER[9], t.ge(i, cnt) or t.fails(mk('q_in', Q, i)) or counted_out(t, e, D, ph, i, cnt0) if fw else t.ge(ZERO, i), t.where, t.text)
            ctx.ob('result-stored@' + HANDLER[9], t.cell('data', A(1)) is D, t.where, t.text)
        for b in e.args[3]:
            conds, ups, evs = b.args
            st = C.State()
            for x in conds: st.assume(x[0], x[1])
            tb = Tr(t.eng, C.Out('ret', TRUE, st), 'purge step')
            up = dict(ups)
            rms = [x for x in evs if x.args[0] == 'q_rm']
            others = [x for x in evs if x.args[0] not in ('q_rm',)]
            item = mk('q_item', Q, at)
            old = pos(subt(subt(CLOCK('slot'), fld(item, 'slot')), I(LIM)))
            txt = lambda: t.text() + '\nstep ' + show(b, 14)
            if what == 'expiry':
                if rms:
                    ctx.ob('removes-only-expired@' + HANDLER[9], len(rms) == 1 and not others and rms[0].args[1] is Q and rms[0].args[2] is at and tb.holds(old), t.where, txt)
                    ctx.ob('position-kept-after-removal@' + HANDLER[9], up.get(i, i) is (i if fw else at), t.where, txt)
                    ctx.ob('removal-stored@' + HANDLER[9], up.get(D) is w_(D, I(8), subt(ln(data(1)), I(8)), 'bytes', mk('q_rm', Q, at)), t.where, txt)
                else:
                    ctx.ob('keeps-unexpired@' + HANDLER[9], not others and tb.fails(old), t.where, txt)
                    ctx.ob('advances-by-one@' + HANDLER[9], up.get(i) is (add(i, ONE) if fw else at) and up.get(D, D) is D, t.where, txt)
            else:
                if rms:
                    amts = {FEE[v] for v in feasible(tb, fld(item, 'priority_request'), (0, 1))}
                    inc = subt(substm(T, up), T)
                    ctx.ob('fee-of-removed-request@' + HANDLER[9], len(amts) == 1 and inc is I(next(iter(amts))), t.where, txt)
                else: ctx.ob('no-fee-without-removal@' + HANDLER[9], substm(T, up) is T, t.where, txt)
@rule('P01')
def p01(ctx):
    """purge loop: each step either removes the entry at the current position under the guard age > 240 and stays, or leaves it under the negated guard and advances by one; it starts at 0 and exits only at the pending count (or runs from the last entry down to 0, where a removal moves nothing still to be visited)"""
    purge_rule(ctx, 'expiry'); purge_rule(ctx, 'fees')
@rule('P02')
def p02(ctx):
    """queue is program-owned at the address derived from the named oracle and index; lamports move only from it to that oracle"""
    def q(t): return owned(t, 1) and any(at_pda(t, 1, cat(B(b'queue'), key(0), arr(x))) for x in (rd(P.PAYLOAD, ZERO, 'u8'),))
    def to(t): return set(native(t)) <= {A(0), A(1)} and not t.evs('cpi', 'extcpi')
    each(ctx, 9, [('queue-of-named-oracle', q), ('paid-to-that-oracle-only', to)])

# ---------------------------------------------------------------- registry
def progdata(t):
    """(upgrade-authority option term) read from the program-data account 3"""
    for f in t.facts('isvar'):
        if f.args[1] == 'ProgramData':
            x = f.args[0]
            cs = [u for u in subterms(x, 'call') if 'deserialize' in u.args[0]]
            if len(cs) == 1 and strip(cs[0].args[1]) is data(3) and t.holds(isvar(cs[0], 'Ok')):
                return fld(as_(x, 'ProgramData'), 'upgrade_authority_address')
    return None
def MO(f): return pay('ModifyOracle', f)
@rule('A01')
def a01(ctx):
    """every succeeding registry change is guarded by: account 3 is the loader-derived program-data address, it decodes as ProgramData with an authority, that authority is account 0, and account 0 signed"""
    def auth(t):
        u = progdata(t)
        return u is not None and t.holds(isvar(u, 'Some')) and t.holds(eqv(fld(as_(u, 'Some'), '0', 0), key(0)))
    each(ctx, 1, [('authority-signed', lambda t: signer(t, 0)), ('program-data-genuine', lambda t: at_pda(t, 3, ID, LOADER)), ('signer-is-authority', auth)])
def ORACLES(i): return mk('dec', B(b'ephemeral_vrf_api::state::oracles::Oracles'), sub(data(i), I(8), ln(data(i))))
TAG0 = B(bytes(8))
def registry_list(t, i):
    """the oracle list stored in registry account i on this path (None if unrecognised)"""
    D = t.cell('data', A(i)); ps = catparts(D)
    if len(ps) < 2 or ps[0] is not TAG0: return None
    if len(ps) == 2:
        c = strip(ps[1]); c = c.args[0] if c.op == 'ok' else None
        if c is not None and c.op == 'call' and (c.args[0].endswith('to_vec') or 'serialize' in c.args[0]) and len(c.args) == 2: return fld(strip(c.args[1]), 'oracles', 0)
    n = ps[1]      # the same encoding spelled out: a length prefix and the entries
    if n.op != 'le' or n.args[0] != 4: return None
    if len(ps) == 2: return arr() if n.args[1] is ZERO else None
    v = ps[2].args[0] if len(ps) == 3 and ps[2].op == 'concat' else None
    return v if v is not None and n.args[1] is ln(v) else None
def adding(t): return t.holds(eqz(MO('operation')))
def removing(t): return t.holds(eqz(subt(MO('operation'), ONE)))
@rule('A02')
def a02(ctx):
    """each succeeding path has operation 0 or 1; 0 stores list ++ [identity] and a record with submitted key, current slot and no queues; 1 stores exactly the list filtered by != identity and empties the record; sizes match"""
    def known(t): return adding(t) or removing(t)
    def lst(t):
        old = fld(ORACLES(1), 'oracles'); new = registry_list(t, 1)
        ident = MO('identity')
        if adding(t): return new is cat(old, arr(ident))
        if removing(t):
            return new is not None and new.op == 'filt' and new.args[0] is old and (lambda x: new.args[1] is x and new.args[3] is not_(eqv(ident, x)))(idx(old, new.args[2]))
        return False
    def rec(t):
        D = t.cell('data', A(2)); own = t.st.store.get(('@', fld(A(2), 'owner')))
        if removing(t): return ln(D) is ZERO and own is SYSTEM
        return adding(t) and own is ID and rd(D, ZERO, 'u8') is ONE and ln(D) is I(56) and same_bytes(oracle_rd(D, 'vrf_pubkey'), MO('oracle_pubkey'), 32) and \
            oracle_rd(D, 'registration_slot') is CLOCK('slot') and oracle_rd(D, 'open_queue') is ZERO
    def size(t):
        rs = [e for e in t.evs('resize') if e.args[1] is A(1)]
        new = registry_list(t, 1)
        if len(rs) != 1 or new is None: return False
        n = ln(new)
        if adding(t): n = add(ln(fld(ORACLES(1), 'oracles')), ONE)
        return rs[0].args[2] is add(mul(I(32), n), I(12))
    def rent_dest(t):      # record lamports
        return True
    each(ctx, 1, [('operation-known', known), ('list', lst), ('record', rec), ('registry-resized', size),
                  ('registry-read-is-typed', lambda t: tagged(t, 1, 0) and at_pda(t, 1, B(b'oracles')))])
    e, outs = P.run(1)
    ok = [Tr(e, o, '') for o in outs if P.is_ok(o)]
    ctx.ob('both-operations-possible@' + HANDLER[1], any(map(adding, ok)) and any(map(removing, ok)), where_fn(e, HANDLER[1]))
@rule('A03')
def a03(ctx):
    """identity is refused when zero/system or off-curve; registry and record are the derived addresses"""
    def valid(t):
        d = MO('identity')
        return t.fails(eqv(d, SYSTEM))
    def curve(t):
        return any(f.op == 'validate_edwards' or f.op == 'call' and 'validate_edwards' in str(f.args[0]) for f in t.facts() if occurs(MO('identity'), f) and 'validate_edwards' in show(f))
    each(ctx, 1, [('identity-not-zero', valid), ('identity-on-curve', curve), ('registry-address', lambda t: at_pda(t, 1, B(b'oracles'))),
                  ('record-address', lambda t: at_pda(t, 2, cat(B(b'oracle'), MO('identity'))))])
def same_bytes(a, b, n): return a is b or all(idx(a, I(j)) is idx(b, I(j)) for j in range(n))
def record_change(t, i):
    """change of the open-queue count of record i: an int, or None if the record changed otherwise"""
    D0, D1 = data(i), t.cell('data', A(i))
    if D1 is D0: return 0
    off, ty = oracle_fld('open_queue')
    o0, o1 = oracle_rd(D0, 'open_queue'), oracle_rd(D1, 'open_queue')
    if not same_bytes(oracle_rd(D1, 'vrf_pubkey'), oracle_rd(D0, 'vrf_pubkey'), 32) or oracle_rd(D1, 'registration_slot') is not oracle_rd(D0, 'registration_slot') or idx(D1, ZERO) is not idx(D0, ZERO): return None
    if o1.op == 'satsub' and o1.args == (o0, ONE): return -1
    d = subt(o1, o0)
    return d.args[0] if isint(d) else None
def qtag(D):
    """queue type tag of final data: True tagged, False zero, None other"""
    s = sub(D, ZERO, I(8))
    if s is B(bytes([3] + [0] * 7)): return True
    return None
@rule('A04')
def a04(ctx):
    """open-queue count: +1 exactly on paths that tag a queue, -1 exactly on paths that close a tagged queue, 0 in a new record, required 0 for removal; no other instruction writes a record"""
    def init(t): return record_change(t, 2) == (1 if qtag(t.cell('data', A(3))) else 0)
    def close(t):
        tg = t.st.decide(eqv(B(bytes([3] + [0] * 7)), sub(data(2), ZERO, I(8))))
        if t.cell('data', A(2)) is data(2): return False
        ch = record_change(t, 1)
        if ch == 0 and t.fails(and_(eqv(B(bytes([3] + [0] * 7)), sub(data(2), ZERO, I(8))), pos(oracle_rd(data(1), 'open_queue')))): return True      # a count of zero stays zero
        return tg is not None and ch == (-1 if tg else 0)
    each(ctx, 2, [('count-up-iff-initialised', init)])
    each(ctx, 7, [('count-down-iff-initialised', close)])
    each(ctx, 1, [('removal-needs-zero', lambda t: adding(t) or t.holds(eqz(oracle_rd(data(2), 'open_queue')))),
                  ('new-record-zero', lambda t: removing(t) or oracle_rd(t.cell('data', A(2)), 'open_queue') is ZERO)])
    for c, q in ((3, 2), (8, 2), (4, 3), (9, 1), (0, 1)):
        each(ctx, c, [('no-other-account-written', lambda t, q=q: all(cc[1] is A(q) or v is mk('data', cc[1]) for cc, v in t.st.store.items() if cc[0] == 'data' and not (v.op == 'dataafter')))])
@rule('A05')
def a05(ctx):
    """initialisation: signer, empty account at the derived address, result is an empty tagged registry owned by the program"""
    def res(t):
        l = registry_list(t, 1)
        return l is not None and ln(l) is ZERO and t.st.store.get(('@', fld(A(1), 'owner'))) is ID
    each(ctx, 0, [('signer', lambda t: signer(t, 0)), ('was-empty', lambda t: t.holds(eqz(ln(data(1))))), ('derived-address', lambda t: at_pda(t, 1, B(b'oracles'))), ('empty-tagged-registry', res)])
def IQ(f): return pay('InitializeOracleQueue', f)
@rule('A06')
def a06(ctx):
    """queue initialisation: both signatures, genuine record, derived queue address, registration age >= 200"""
    def age(t): return t.holds(pos(subt(subt(CLOCK('slot'), oracle_rd(data(2), 'registration_slot')), I(199))))
    each(ctx, 2, [('payer-signed', lambda t: signer(t, 0)), ('oracle-signed', lambda t: signer(t, 1)), ('record-genuine', lambda t: genuine_oracle(t, 2, key(1))),
                  ('queue-address', lambda t: at_pda(t, 3, cat(B(b'queue'), key(1), arr(IQ('index'))))), ('age-200', age)])
@rule('A07')
def a07(ctx):
    """queue account all zero beforehand; non-final steps grow by exactly 10240 and leave it untagged; the final step reaches the requested size, tags it and records the index"""
    D0 = data(3); tgt = None
    def zero(t):
        return any(f.args[0] is D0 and f.args[2] is pos(idx(D0, f.args[1])) for f in t.facts('any', False)) or t.holds(eqz(ln(D0)))
    def step(t):
        D = t.cell('data', A(3)); n = ln(D); tgt = IQ('target_size')
        if qtag(D):
            off = LAYOUT[API + 'state::queue::Queue']['index'][0]
            return n is tgt and rd(D, I(8 + off), 'u8') is IQ('index') and t.holds(not_(pos(subt(subt(tgt, ln(D0)), I(10240)))))
        grown = n is add(ln(D0), I(10240)) or n is I(10240) and (t.holds(eqz(ln(D0))) or t.fails(eqv(ID, owner(3))))
        untouched = D.op in ('zeros', 'resized')
        return grown and untouched and t.holds(pos(subt(subt(tgt, ln(D0)), I(10240))))
    each(ctx, 2, [('was-zeroed', zero), ('step', step)])
    e, outs = P.run(2)
    ok = [Tr(e, o, '') for o in outs if P.is_ok(o)]
    ctx.ob('can-finish-and-can-continue@' + HANDLER[2], any(qtag(t.cell('data', A(3))) for t in ok) and any(not qtag(t.cell('data', A(3))) for t in ok), where_fn(e, HANDLER[2]))
@rule('A08')
def a08(ctx):
    """close: signer, owned queue at derived address, genuine record, zero pending; afterwards no lamports, no data, system-owned, balance to the oracle"""
    def left(t):
        return t.cell('lam', A(2)) is ZERO and ln(t.cell('data', A(2))) is ZERO and t.st.store.get(('@', fld(A(2), 'owner'))) is SYSTEM
    def bal(t): return native(t) == {A(2): mul(I(-1), lam(2)), A(0): lam(2)}
    each(ctx, 7, [('oracle-signed', lambda t: signer(t, 0)), ('queue-address', lambda t: at_pda(t, 2, cat(B(b'queue'), key(0), arr(pay('CloseOracleQueue', 'index')))) and owned(t, 2)),
                  ('record-genuine', lambda t: genuine_oracle(t, 1, key(0))), ('no-pending', lambda t: t.holds(eqz(rd(data(2), I(8), 'u32')))),
                  ('account-erased', left), ('balance-to-oracle', bal)])

# ---------------------------------------------------------------- delegation
def ext(t, name):
    r = t.evs('extcpi', 'cpi')
    return r[0].args[2:] if len(r) == 1 and r[0].args[0] == 'extcpi' and str(r[0].args[1]).endswith(name) else None
@rule('D01')
def d01(ctx):
    """delegate / undelegate: signer, queue address of that signer and index, program's own id as owner program, genuine magic program and context, exactly one library call with those accounts and seeds"""
    def DA(t, n):
        d = ext(t, 'cpi::delegate_account'); return strip(fld(d[0], n)) if d else None
    def seeds(t):
        d = ext(t, 'cpi::delegate_account'); s = flatseed(d[1])
        return s == [B(b'queue'), key(0), arr(pay('DelegateOracleQueue', 'index'))]
    def cfg(t):
        d = ext(t, 'cpi::delegate_account'); c = strip(d[2])
        return fld(c, 'commit_frequency_ms') is ZERO and strip(fld(c, 'validator')).op == 'agg' and strip(fld(as_(strip(fld(c, 'validator')), 'Some'), '0', 0)) is SYSTEM
    each(ctx, 5, [('delegation-parameters', cfg), ('oracle-signed', lambda t: signer(t, 0)), ('queue-address', lambda t: at_pda(t, 1, cat(B(b'queue'), key(0), arr(pay('DelegateOracleQueue', 'index'))))),
                  ('own-program', lambda t: t.holds(eqv(ID, key(6))) and DA(t, 'owner_program') is A(6)),
                  ('delegated-account', lambda t: DA(t, 'pda') is A(1) and DA(t, 'payer') is A(0)),
                  ('protocol-accounts', lambda t: (DA(t, 'buffer'), DA(t, 'delegation_record'), DA(t, 'delegation_metadata'), DA(t, 'delegation_program'), DA(t, 'system_program')) == (A(2), A(3), A(4), A(5), A(7))),
                  ('seeds', seeds)])
    def und(t):
        d = ext(t, 'commit_and_undelegate_accounts')
        return d is not None and strip(d[0]) is A(0) and [strip(x) for x in strip(d[1]).args] == [A(1)] and strip(d[2]) is A(2) and strip(d[3]) is A(3)
    each(ctx, 6, [('oracle-signed', lambda t: signer(t, 0)), ('queue-address', lambda t: at_pda(t, 1, cat(B(b'queue'), key(0), arr(pay('UndelegateOracleQueue', 'index'))))),
                  ('magic-program', lambda t: t.holds(eqv(key(3), MAGIC))), ('magic-context', lambda t: t.holds(eqv(key(2), MAGIC_CTX))), ('library-call', und)])
@rule('D02')
def d02(ctx):
    """process_undelegation: exactly the library's undelegate_account with the program id, the given accounts and the decoded seeds; 4 accounts; decoding failure refused"""
    def call(t):
        d = ext(t, 'cpi::undelegate_account')
        return d is not None and [strip(x) for x in d[:5]] == [A(0), ID, A(1), A(2), A(3)] and strip(d[5]).op == 'dec' and strip(d[5]).args[1] is P.PAYLOAD
    each(ctx, 196, [('guarded-library-call', call), ('four-accounts', lambda t: t.holds(eqz(subt(ln(P.ACCS), I(4))))), ('seeds-decoded', lambda t: any(f.args[0].op == 'call' or 'borsh' in show(f) for f in t.facts('isvar') if occurs(P.PAYLOAD, f)))])

# ---------------------------------------------------------------- dispatch and checks
CODES = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 196)
def op_of(t):
    """operation performed on a succeeding path, from its effects"""
    if t.evs('extcpi'):
        n = str(t.evs('extcpi')[0].args[1])
        return 5 if n.endswith('::delegate_account') else 6 if 'commit_and_undelegate' in n else 196 if n.endswith('::undelegate_account') else None
    if t.evs('q_add'):
        pr = fld(qadd(t)[1], 'priority_request'); return 3 if pr is ONE else 8 if pr is ZERO else None
    if t.evs('q_rm') and callbacks(t): return 4
    if any(x.args[0] == 'q_rm' for e in t.evs('loop') for b in e.args[3] for x in b.args[2]): return 9
    sysn = [e.args[1].args[0][len(SYSI):] for e in syscalls(t)]
    created = {cc[1].args[0] for cc, v in t.st.store.items() if cc[0] == '@' and v is ID and cc[1].op == 'fld'}
    if A(1) in created and any(f is eqv(pda(B(b'oracles')), key(1)) for f in t.facts()): return 0
    if any(f is eqv(pda(ID, LOADER), key(3)) for f in t.facts()): return 1
    if any(f.op == 'eqv' and 'queue' in show(f, 9) and occurs(key(3), f) for f in t.facts()): return 2
    if t.evs('assign'): return 7
    return None
@rule('D03')
def d03(ctx):
    """with arbitrary instruction data, every succeeding path is guarded by the program id, an 8-byte header and one defined code, and performs that code's operation; discriminants pairwise distinct and equal to the published wire codes and account tags"""
    e, outs = P.run(None); ctx.saw(e, outs)
    seen = set()
    for n, o in enumerate(filter(P.is_ok, outs)):
        t = Tr(e, o, 'any-code succeeding path %d' % n)
        cs = [c for c in CODES if t.holds(eqz(subt(idx(P.DATA, ZERO), I(c))))]
        ctx.ob('code-defined@dispatch', len(cs) == 1, 'process_instruction', t.text)
        ctx.ob('program-id@dispatch', t.holds(eqv(P.PROGRAM_ID, ID)), 'process_instruction', t.text)
        ctx.ob('header-8@dispatch', t.holds(pos(subt(ln(P.DATA), I(7)))), 'process_instruction', t.text)
        if cs:
            seen.add(cs[0]); op = op_of(t)
            ctx.ob('operation-of-code-%d@dispatch' % cs[0], op == cs[0], 'process_instruction', lambda: 'performs operation %s\n' % op + t.text())
    for c in CODES: ctx.ob('code-%d-reachable@dispatch' % c, c in seen, 'process_instruction')
    ty = {x.get('path'): x for x in e.types if x['k'] == 'adt'}
    en = ty.get(API + 'instruction::EphemeralVrfInstruction')
    d = {v['name']: int(v['discr']) for v in en['variants']} if en else {}
    want = {'Initialize': 0, 'ModifyOracle': 1, 'InitializeOracleQueue': 2, 'RequestHighPriorityRandomness': 3, 'ProvideRandomness': 4, 'DelegateOracleQueue': 5, 'UndelegateOracleQueue': 6, 'CloseOracleQueue': 7, 'RequestRandomness': 8, 'PurgeExpiredRequests': 9, 'ProcessUndelegation': 196}
    ctx.ob('wire-codes@EphemeralVrfInstruction', sorted(d.values()) == sorted(want.values()), 'EphemeralVrfInstruction', str(d))
    en = ty.get(API + 'state::AccountDiscriminator')
    d = {v['name']: int(v['discr']) for v in en['variants']} if en else {}
    ctx.ob('account-tags@AccountDiscriminator', d == {'Oracles': 0, 'Oracle': 1, 'Queue': 3}, 'AccountDiscriminator', str(d))
# ---------------------------------------------------------------- typed access, error propagation
STEEL = API + 'steel::'
def helper_runs(ctx, name, args):
    """(function, path summaries) of every implementation of validation helper `name` for accounts"""
    e = P.engine()
    for k, i in enumerate(e.insts):
        if i.get('trait_item', '') .endswith('AccountInfoValidation::' + name) and str(k) in e.fns:
            st = C.State(); av = []
            for n, v in enumerate(args):
                st.store[('arg', str(n))] = v; av.append(ref(('arg', str(n))))
            outs = e.run(k, av, st, 0); ctx.saw(e, outs)
            yield i, e, outs
ADDR, SEEDS, PROG = mk('sym', 'address'), mk('sym', 'seeds'), mk('sym', 'program')
SYSVAR_OWNER = pk('Sysvar1111111111111111111111111111111111111')
HELPERS = {
 'is_signer': ([A(0)], lambda t: signer(t, 0)), 'is_writable': ([A(0)], lambda t: writable(t, 0)), 'is_empty': ([A(0)], lambda t: t.holds(eqz(ln(data(0))))),
 'is_sysvar': ([A(0), ADDR], lambda t: t.holds(eqv(key(0), ADDR)) and owned(t, 0, SYSVAR_OWNER)), 'has_address': ([A(0), ADDR], lambda t: t.holds(eqv(key(0), ADDR))),
 'has_owner': ([A(0), ADDR], lambda t: owned(t, 0, ADDR)),
 'has_seeds': ([A(0), SEEDS, PROG], lambda t: any(f.op == 'eqv' and key(0) in f.args and any(u.op == 'pda' and u.args[1] is PROG and occurs(SEEDS, u.args[0]) for u in f.args) for f in t.facts())),
}
@rule('D04')
def d04_helpers(ctx):
    """account validation helpers: every Ok path of each helper is guarded by the condition it stands for, and it has both Ok and Err paths"""
    for name, (args, cond) in HELPERS.items():
        for i, e, outs in helper_runs(ctx, name, args):
            w = where_fn(e, i['path'])
            oks = [Tr(e, o, 'helper %s' % name) for o in outs if P.is_ok(o)]
            for t in oks: ctx.ob('helper-condition@' + name, cond(t), w, t.text)
            ctx.ob('helper-accepts@' + name, bool(oks), w, 'never succeeds')
            ctx.ob('helper-refuses@' + name, any(map(P.is_err, outs)), w, 'never fails')
    e, outs = P.run(1)
def reads(tr):
    """accounts whose initial data some guard, effect or result of the path interprets"""
    got = {}; seen = set()
    def go(x, par):
        if isinstance(x, tuple):
            for y in x: go(y, par)
        elif isinstance(x, T):
            if x.op == 'data' and par not in ('len', 'any'): got.setdefault(x.args[0], set()).add(par)
            if x in seen: return
            seen.add(x)
            for y in x.args: go(y, x.op)
    for f in tr.st.facts: go(f, '')
    for e in tr.st.events: go(e, '')
    for c, v in tr.st.store.items():
        if c[0] in ('lam', '@') or c[0] == 'data' and v is not mk('data', c[1]): go(v, '')
    return got
@rule('D04')
def d04_typed(ctx):
    """on every succeeding path each account whose content is interpreted is one of: an owned, 56-byte account tagged oracle record; a tagged account at the registry address; an account of at least 8 bytes tagged queue, or owned at the derived queue address; a fixed sysvar/program-data address; or an account established to be all zero. Written oracle records are writable"""
    for code in CODES:
        n = {A(i): i for i in range(8)}
        for t in traces(ctx, code):
            if t.evs('extcpi') and code in (5, 6, 196): continue
            for a in reads(t):
                i = n.get(a)
                if i is None: ctx.fail('typed-access@%s' % HANDLER[code], t.where, 'content of %s is interpreted\n' % show(a) + t.text()); continue
                D = data(i); long = t.holds(pos(subt(ln(D), I(7))))
                queue_pda = any(f.op == 'eqv' and key(i) in f.args and any(u.op == 'pda' and catparts(u.args[0])[0] is B(b'queue') and u.args[1] is ID for u in f.args) for f in t.facts())
                zero = any(f.args[0] is D for f in t.facts('any', False)) or t.holds(eqz(ln(D)))
                fixed = t.holds(eqv(key(i), SLOTHASHES)) or at_pda(t, i, ID, LOADER)
                oracle = owned(t, i) and tagged(t, i, 1, 56)
                ok = oracle or (tagged(t, i, 0) and long and at_pda(t, i, B(b'oracles'))) or (long and (tagged(t, i, 3) or owned(t, i) and queue_pda)) or fixed or zero
                ctx.ob('typed-access@%s' % HANDLER[code], ok, t.where, lambda: 'content of account %d is interpreted without an established type\n' % i + t.text())
                if oracle and t.cell('data', a) is not D: ctx.ob('written-record-writable@%s' % HANDLER[code], writable(t, i), t.where, t.text)
def all_events(evs):
    for e in evs:
        yield e
        if e.args[0] == 'loop':
            for b in e.args[3]: yield from all_events(b.args[2:] if False else (b.args[2].args if isinstance(b.args[2], T) else b.args[2]))
@rule('D05')
def d05(ctx):
    """no succeeding path contains a failed callee: no in-crate function returned Err and no fallible call (decoding, CPI, borrow, resize, sysvar) failed on it"""
    for code in CODES:
        for t in traces(ctx, code):
            bad = [e for e in all_events(t.st.events) if e.args[0] in ('errret', 'fail')]
            ctx.ob('failing-callee-aborts@' + HANDLER[code], not bad, t.where, lambda: 'ignored: ' + ', '.join(show(e, 5) for e in bad) + '\n' + t.text())
            ign = [f for f, v in t.st.facts.items() if f.op == 'isvar' and (f.args[1] == 'Ok' and not v or f.args[1] == 'Err' and v)]
            ctx.ob('failing-call-aborts@' + HANDLER[code], not ign, t.where, lambda: 'ignored failure: ' + ', '.join(show(f, 6) for f in ign) + '\n' + t.text())
def uses_of(fn, local):
    """is the local read anywhere (drops and storage markers do not count)?"""
    def inpl(p): return p and p[0] == local
    def inop(o): return o and o[0] in ('cp', 'mv') and inpl(o[1])
    def scan(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('cp', 'mv') and isinstance(x[1], list) and x[1] and x[1][0] == local: return True
            if len(x) >= 2 and x[0] in ('ref', 'disc', 'rawref', 'addr') and any(isinstance(y, list) and y and y[0] == local and len(y) == 3 and isinstance(y[1], list) for y in x): return True
            return any(scan(y) for y in x)
        return False
    for b in fn['blocks']:
        for s in b['s']:
            if s[0] == '=' and scan(s[2]): return True
        t = b['t']
        if t[0] == 'drop': continue
        if t[0] == 'call':
            if scan(t[2]) or scan(t[3]): return True
        elif scan(t): return True
    return local == 0
@rule('D05')
def d05_dropped(ctx):
    """in every program/api function reachable from process_instruction, the Result of every call is consumed (never dropped unread)"""
    e, outs = P.run(None, summ=False) if False else P.run(None)
    names = set().union(*[P.run(c)[0].analysed for c in CODES])
    for k, i in enumerate(e.insts):
        if i['crate'] not in ('ephemeral_vrf_program', 'ephemeral_vrf_api') or str(k) not in e.fns or i['full'] not in names: continue
        fn = e.fns[str(k)]
        for b in fn['blocks']:
            t = b['t']
            if t[0] != 'call' or b.get('c'): continue
            ty = e.types[t[4][2]]
            if ty['k'] != 'adt' or ty['path'] != 'core::result::Result' or t[4][1]: continue
            callee = e.types[t[1]].get('inst')
            cn = e.insts[callee]['path'] if callee is not None else '?'
            ctx.ob('result-consumed@%s->%s' % (i['path'], cn.split('::')[-1]), uses_of(fn, t[4][0]), '%s (%s)' % (i['path'], ':'.join(map(str, b['sp'] or []))), 'the Result of %s is dropped' % cn)
