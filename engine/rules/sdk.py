"""Client side: instruction builders (API crate and consumer SDK) against the account contract and decoder the on-chain
program actually has, both obtained from the current source by the same analysis."""
from rules.base import *
import rules.prog as R
import program as P
import hashlib
IXT = 'solana_instruction::Instruction'
ID = R.ID
SYS, SLOTH = B(bytes(32)), pk('SysvarS1otHashes111111111111111111111111111')
CONFIGS = ['workspace', 'sdk-backward-compat', 'sdk-anchor', 'sdk-anchor-compat']
_e = {}
def eng(dump, cfg='workspace'):
    k = (dump, cfg)
    if k not in _e:
        _e[k] = C.Engine(extract.load(dump, cfg)); _e[k].wire = True
    return _e[k]
def fn(e, suffix):
    r = [k for k in e.find(suffix) if e.insts[k]['crate'].startswith('ephemeral_vrf')]
    if len(r) != 1: raise C.AnalysisError('function %s not found' % suffix)
    return r[0]
def call(e, suffix, args, assume=()):
    st = C.State()
    for a in assume: st.assume(a, True)
    k = fn(e, suffix)
    tys = [l['t'] for l in e.fns[str(k)]['locals'][1:1 + e.fns[str(k)]['argc']]]
    a2 = []
    for j, (v, t) in enumerate(zip(args, tys)):
        d = e.types[t]
        if d['k'] == 'ref':
            e.hint(v, d['to']); st.store[('arg', 'p%d' % j)] = v; a2.append(ref(('arg', 'p%d' % j)))
        else: e.hint(v, t); a2.append(v)
    if len(tys) != len(args): raise C.AnalysisError('signature of %s changed' % suffix)
    return e.run(k, a2, st, 0)
def ixparts(v):
    """(program id, [(key, signer, writable)], data) of an instruction value"""
    if v.op == 'upd': base = {n: fld(v, n) for n in ('program_id', 'accounts', 'data')}; p, a, d = base['program_id'], base['accounts'], base['data']
    elif v.op == 'agg' and v.args[0] == IXT: p, a, d = v.args[2:5]
    else: return None
    if a.op != 'arr': return None
    ms = []
    for m in a.args:
        t = tuple(fld(m, n, j) for j, n in enumerate(('pubkey', 'is_signer', 'is_writable')))
        ms.append(t)
    return p, ms, d

# ------------------------------------------------------------------ the program's account contract
FREE = {0: {0}, 1: {0}, 2: {0, 1}, 3: {0, 2}, 8: {0, 2}, 4: {0, 3, 4}, 5: {0, 1}, 6: {0, 1}, 7: {0}, 9: {0}}
NACC = {0: 3, 1: 5, 2: 5, 3: 5, 8: 5, 4: 5, 5: 8, 6: 4, 7: 3, 9: 2}
# writable accounts demanded by the external protocol code the handler hands its accounts to (delegation program, magic program)
EXTW = {5: {0, 1, 2, 3, 4}, 6: {0, 2}}
def slots(t, f):
    r = set()
    for u in walk(t):
        if u.op == f and u.args and u.args[0].op == 'idx' and u.args[0].args[0] is P.ACCS and isint(u.args[0].args[1]): r.add(u.args[0].args[1].args[0])
    return r
def contract(ctx, name, where, code, ix, dec=None):
    """obligations relating a built instruction to the succeeding paths of the program's handler for `code`"""
    prog, metas, data = ix
    ctx.ob('addressed-to-program@' + name, prog is ID, where, lambda: show(prog))
    tag = idx(data, ZERO)
    ctx.ob('operation-code@' + name, tag is I(code), where, lambda: 'first byte %s, expected %d' % (show(tag), code))
    e, outs = P.run(code); ctx.saw(e, outs)
    payload = sub(data, I(8), ln(data))
    m = {P.PAYLOAD: payload, ln(P.PAYLOAD): ln(payload), P.PROGRAM_ID: ID, ln(P.ACCS): I(len(metas))}
    if dec is not None: m[R.DEC()] = dec
    for i, (k, s, w) in enumerate(metas):
        m[mk('key', P.acct(i))] = k
        m[fld(P.acct(i), 'is_signer')] = s
        m[fld(P.acct(i), 'is_writable')] = w
    good = 0; sig, wr = set(), set(EXTW.get(code, ())); acc = []
    problems = {}
    for n, o in enumerate(x for x in outs if P.is_ok(x)):
        bad = []; dead = False
        for f, v in o.st.facts.items():
            g = substm(f, m)
            if isint(g):
                if bool(g.args[0]) != v:
                    # a requirement on length, signer or writable flags this instruction cannot meet
                    bad.append('%s must be %s' % (show(f, 9), v)); dead = True
                for i in slots_flag(f, 'is_signer'): sig.add(i)
                for i in slots_flag(f, 'is_writable'): wr.add(i)
                continue
            for i in slots_flag(f, 'is_signer'): sig.add(i)
            for i in slots_flag(f, 'is_writable'): wr.add(i)
            if f.op == 'eqv' and v:
                for x, y in (f.args, f.args[::-1]):
                    if x.op == 'key' and slots(x, 'key') and not mentions_state(y):
                        i = slots(x, 'key').pop()
                        if i < len(metas) and i not in FREE[code]: bad.append('account %d is %s, the program requires %s' % (i, show(metas[i][0], 9), show(substm(y, m), 9)))
            mx = max(list(slots(f, 'key') | slots(f, 'owner') | slots(f, 'data')) or [-1])
            if mx >= len(metas): bad.append('account %d is required' % mx)
        for c, v in o.st.store.items():
            if c[0] in ('data', 'lam', 'owner') and v is not mk(c[0], c[1]) and not v.op.endswith('after') or c[0] == '@' and not v.op.endswith('after'):
                a = c[1] if c[0] != '@' else None
                if a is None:
                    a = next((u for z in c[1:] if isinstance(z, T) for u in walk(z) if u.op == 'idx' and u.args[0] is P.ACCS), None)
                if a is not None and a.op == 'idx' and a.args[0] is P.ACCS and isint(a.args[1]): wr.add(a.args[1].args[0])
        if bad:
            for b in bad: problems.setdefault(b, n)
        else: good += 1; acc.append((o, m))
    ctx.ob('program-can-accept@' + name, good > 0, where, lambda: 'no succeeding path of instruction %d accepts the built instruction:\n' % code + '\n'.join(problems))
    for i in sorted(wr):
        if i < len(metas): ctx.ob('writable-flag@%s#%d' % (name, i), metas[i][2] is TRUE, where, lambda: 'account %d is modified by the program but not marked writable' % i)
    for i, (k, s, w) in enumerate(metas):
        ctx.ob('signer-flag@%s#%d' % (name, i), s is (TRUE if i in sig else FALSE), where, lambda: 'account %d: signer flag %s, the program %s a signature' % (i, show(s), 'requires' if i in sig else 'does not require'))
    ctx.ob('account-count@' + name, len(metas) == NACC[code], where, lambda: '%d accounts' % len(metas))
    return acc
def slots_flag(f, name):
    r = set()
    for u in walk(f):
        if u.op == 'fld' and u.args[1] == name and u.args[0].op == 'idx' and u.args[0].args[0] is P.ACCS and isint(u.args[0].args[1]): r.add(u.args[0].args[1].args[0])
    return r
def mentions_state(t): return any(u.op in ('data', 'owner', 'lam', 'sysvar', 'call', 'errof', 'ok') for u in walk(t))
def feasible_outs(outs):
    return [o for o in outs if o.kind == 'ret' or not o.st.refuted()]

# ------------------------------------------------------------------ S02
def params(e):
    p = mk('sym', 'params'); k = fn(e, 'instructions::create_request_randomness_ix')
    e.hint(p, e.fns[str(k)]['locals'][1]['t'])
    for f in ('payer', 'oracle_queue', 'callback_program_id', 'caller_seed'): HINT[fld(p, f)] = ('len', 32)
    return p
def variants(p):
    """(label, assumptions, expected account list, expected args)"""
    m, a = fld(p, 'accounts_metas'), fld(p, 'callback_args')
    for lm, cm in (('metas', 'Some'), ('no metas', 'None')):
        for la, ca in (('args', 'Some'), ('no args', 'None')):
            yield '%s, %s' % (lm, la), (isvar(m, cm), isvar(a, ca)), fld(as_(m, 'Some'), '0', 0) if cm == 'Some' else None, fld(as_(a, 'Some'), '0', 0) if ca == 'Some' else None
BUILD = {'create_request_randomness_ix': 3, 'create_request_regular_randomness_ix': 8}
@rule('S02')
def s02(ctx):
    """for each SDK feature set and each present/absent combination of the optional parameters, the builder's bytes are computed as a byte-string term and fed to the program crate's own decoder: it must return exactly the parameters; code byte, addresses, order, signer and writable flags must meet every guard of the handler's succeeding paths"""
    api = eng('ephemeral_vrf_api-lib')
    for cfg in CONFIGS:
        e = eng('ephemeral_vrf_sdk-lib', cfg); p = params(e)
        for b, code in BUILD.items():
            name = '%s[%s]' % (b, cfg); w = where_fn(e, 'instructions::' + b)
            for label, asm, metas, args in variants(p):
                outs = feasible_outs(call(e, 'instructions::' + b, [p], asm)); ctx.saw(e, outs)
                ok = len(outs) == 1 and outs[0].kind == 'ret'
                if not ctx.ob('builder-total@' + name, ok, w, lambda: label + ': ' + '; '.join('%s %s' % (o.kind, show(o.val, 5)) for o in outs)): continue
                ix = ixparts(outs[0].val)
                if not ctx.ob('builder-shape@' + name, ix is not None, w, lambda: show(outs[0].val, 8)): continue
                for i, want in ((0, fld(p, 'payer')), (2, fld(p, 'oracle_queue'))):
                    ctx.ob('caller-account@%s#%d' % (name, i), i < len(ix[1]) and ix[1][i][0] is want, w, lambda: show(ix[1][i][0]))
                ctx.ob('caller-identity@' + name, len(ix[1]) > 1 and ix[1][1][0] is mk('pda', B(b'identity'), fld(p, 'callback_program_id')), w, lambda: show(ix[1][1][0], 9))
                # decode with the program crate's decoder
                body = sub(ix[2], I(8), ln(ix[2]))
                st = C.State(); st.store[('arg', 'b')] = body
                for a in asm: st.assume(a, True)
                douts = api.run(fn(api, 'instruction::RequestRandomness::try_from_bytes'), [ref(('arg', 'b'))], st, 0)
                douts = feasible_outs(douts); ctx.saw(api, douts)
                oks = [o for o in douts if o.kind == 'ret' and o.val.op == 'agg' and o.val.args[1] == 'Ok']
                if not ctx.ob('decodes@' + name, len(oks) == 1 == len(douts), w, lambda: label + ': decoder outcomes ' + '; '.join(show(o.val, 6) for o in douts)): continue
                v = oks[0].val.args[2]
                contract(ctx, name, w, code, ix, v)
                want = dict(caller_seed=fld(p, 'caller_seed'), callback_program_id=fld(p, 'callback_program_id'), callback_discriminator=fld(p, 'callback_discriminator'),
                            callback_accounts_metas=metas if metas is not None else arr(), callback_args=args if args is not None else arr())
                for f, x in want.items():
                    got = fld(v, f)
                    ctx.ob('field-%s@%s' % (f, name), got is x, w, lambda: '%s: decoded %s, supplied %s' % (label, show(got, 9), show(x, 9)))
@rule('S02')
def s02_meta(ctx):
    """the account descriptor type round-trips field by field between the SDK's encoder and the program's decoder"""
    api = eng('ephemeral_vrf_api-lib')
    import prims_wire as W
    for cfg in CONFIGS:
        e = eng('ephemeral_vrf_sdk-lib', cfg)
        ty = next(t for t in e.types if t['k'] == 'adt' and t['path'].endswith('SerializableAccountMeta'))
        ty2 = next(t for t in api.types if t['k'] == 'adt' and t['path'].endswith('SerializableAccountMeta'))
        x = mk('sym', 'meta')
        for f in ('is_signer', 'is_writable'): HINT[fld(x, f)] = (False, 1); BOOLTERMS.add(fld(x, f))
        b = W.ser(e, C.State(), ty, x)
        w = where_fn(e, 'types::SerializableAccountMeta')
        if not ctx.ob('meta-encoder@' + cfg, b is not None, w): continue
        os = W.de(api, C.State(), ty2, cat(b, mk('sym', 'rest'))); ctx.saw(api); ctx.saw(e)
        v = [o for o in os if o[0] is not None]
        ctx.ob('meta-roundtrip@' + cfg, len(os) == len(v) == 1 and W.eta(v[0][0]) is x and v[0][1] is mk('sym', 'rest'), w, lambda: 'bytes %s decode to %s' % (show(b, 9), [show(o[0], 9) if o[0] is not None else None for o in os]))

# ------------------------------------------------------------------ S03
def const(e, path):
    """value of a workspace constant as a byte string"""
    for c in e.d['consts']:
        if c['path'] == path or c['path'].endswith('::' + path):
            return e._const(dict(c['val'], t=c['val'].get('t')) if False else c['val'])
    return None
def oncurve(b):
    p = 2 ** 255 - 19; d = -121665 * pow(121666, -1, p) % p
    y = int.from_bytes(b, 'little') & (1 << 255) - 1
    if y >= p: y %= p
    u, v = (y * y - 1) % p, (d * y * y + 1) % p
    x2 = u * pow(v, -1, p) % p
    return x2 == 0 or pow(x2, (p - 1) // 2, p) == 1
def find_pda(seeds, prog):
    for bump in range(255, -1, -1):
        h = hashlib.sha256(b''.join(seeds) + bytes([bump]) + prog + b'ProgramDerivedAddress').digest()
        if not oncurve(h): return h, bump
@rule('S03')
def s03(ctx):
    """published SDK constants (each feature set) compared with the constants the program crate uses; the identity address and bump recomputed from the program id and seed with the address-derivation formula"""
    api = eng('ephemeral_vrf_api-lib'); ctx.saw(api)
    e, outs = P.run(4); ctx.saw(e, outs)
    pid = const_of(api, 'ID')
    ctx.ob('program-id@api', pid is not None and pid.op == 'bytes', 'api/src/lib.rs', lambda: str(pid))
    seed = const_of(api, 'consts::IDENTITY')
    for name, tr in (('program_identity_pda', None),):
        o = [x for x in call(api, 'state::program_identity_pda', [])]; ctx.saw(api, o)
        w = where_fn(api, 'state::program_identity_pda')
        good = len(o) == 1 and o[0].kind == 'ret' and pid is not None and seed is not None
        if ctx.ob('identity-helper@api', good, w):
            a, bump = fld(o[0].val, '0', 0), fld(o[0].val, '1', 1)
            x, b = find_pda([seed.args[0]], pid.args[0])
            sym = a is mk('pda', seed, pid) and bump is mk('bump', seed, pid)
            ctx.ob('identity-address@api', sym or a is B(x), w, lambda: 'published %s, derived %s' % (show(a), x.hex()))
            ctx.ob('identity-bump@api', sym or bump is I(b), w, lambda: 'published bump %s, derived %d' % (show(bump), b))
    for cfg in CONFIGS:
        s = eng('ephemeral_vrf_sdk-lib', cfg); ctx.saw(s)
        W = 'sdk/src/consts.rs'
        g = lambda n: const_of(s, 'consts::' + n)
        ctx.ob('VRF_PROGRAM_ID@' + cfg, g('VRF_PROGRAM_ID') is pid, W, lambda: show(g('VRF_PROGRAM_ID')))
        ctx.ob('IDENTITY@' + cfg, g('IDENTITY') is seed, W, lambda: show(g('IDENTITY')))
        if pid is not None and seed is not None:
            x, b = find_pda([seed.args[0]], pid.args[0])
            ctx.ob('VRF_PROGRAM_IDENTITY@' + cfg, g('VRF_PROGRAM_IDENTITY') is B(x), W, lambda: 'published %s, derived %s' % (show(g('VRF_PROGRAM_IDENTITY')), x.hex()))
        ctx.ob('DEFAULT_EPHEMERAL_QUEUE@' + cfg, g('DEFAULT_EPHEMERAL_QUEUE') is const_of(api, 'consts::DEFAULT_EPHEMERAL_QUEUE') is not None, W, lambda: show(g('DEFAULT_EPHEMERAL_QUEUE')))
        for idf in [k for k in s.find('id') if s.insts[k]['crate'] == 'ephemeral_vrf_sdk' and (s.insts[k]['path'] == 'id' or 'VrfProgram' in s.insts[k]['path'])]:
            o = s.run(idf, [], C.State(), 0)
            ctx.ob('id-function@%s[%s]' % (s.insts[idf]['path'], cfg), len(o) == 1 and o[0].val is pid, s.insts[idf]['path'], lambda: str([show(z.val) for z in o]))
    # the queue the program exempts from payment is the published ephemeral default
    used = set()
    for code in (3, 8):
        e, outs = P.run(code); ctx.saw(e, outs)
        for o in outs:
            for f in o.st.facts:
                for u in walk(f):
                    if u.op == 'eqv' and mk('key', P.acct(2)) in u.args:
                        y = u.args[0] if u.args[1] is mk('key', P.acct(2)) else u.args[1]
                        if y.op == 'bytes': used.add(y)
    q = const_of(eng('ephemeral_vrf_sdk-lib'), 'consts::DEFAULT_EPHEMERAL_QUEUE')
    ctx.ob('exempt-queue@request', used <= {q}, R.HANDLER[3], lambda: str([show(u) for u in used]))
def const_of(e, path):
    for c in e.d['consts']:
        if c['path'] == path:
            v = e._const(c['val'])
            while v.op == 'agg' and len(v.args) == 3: v = v.args[2]
            while v.op in ('ref', '&'): v = e.loadref(C.State(), v) if v.op == 'ref' else v.args[0]
            if v.op == 'arr': v = norm_arr(v.args, True)
            return v
    return None

# ------------------------------------------------------------------ S04
def conv(e, item, suffix):
    return [k for k, x in enumerate(e.insts) if x.get('trait_item') == item and str(k) in e.fns and x['crate'] == 'ephemeral_vrf_sdk']
@rule('S04')
def s04(ctx):
    """every conversion implementation of the compatibility layer is evaluated on an opaque value: address bytes, both flags, account order and data must come through unchanged"""
    for cfg in CONFIGS:
        e = eng('ephemeral_vrf_sdk-lib', cfg); n = 0
        todo = [(k, item) for item in ('compat::Modern::modern', 'compat::Compat::compat') for k in conv(e, item, '')]
        def flat(k): return e.types[e.fns[str(k)]['locals'][1]['t']].get('path', '').endswith('AccountMeta')
        todo.sort(key=lambda q: not flat(q[0])); before = dict(e.summaries); good = {}
        try:
            for k, item in todo:
                path = e.insts[k]['path']; w = where_fn(e, path); name = '%s[%s]' % (path, cfg)
                at = e.fns[str(k)]['locals'][1]['t']; rt = e.fns[str(k)]['locals'][0]['t']
                x = mk('sym', 'value:' + e.types[at]['s'])
                outs = feasible_outs(e.run(k, [x], C.State(), 0)); ctx.saw(e, outs); n += 1
                ty = e.types[at]; many = flat(k) and len(outs) > 1
                if not ctx.ob('total@' + name, (many or len(outs) == 1) and all(o.kind == 'ret' for o in outs), w, lambda: str([o.kind for o in outs])): good[e.insts[k]['full']] = False; continue
                r = ctx.ob('lossless@' + name, all(lossless(e, ty, x, o.val, o.st) for o in outs), w, lambda: show(outs[0].val, 9))
                # a conversion of one entry that branches on its flags and loses nothing on any branch: the identity, when a whole list goes through it
                f = e.insts[k]['full']; good[f] = good.get(f, True) and bool(r)
                if many and good[f]: e.summaries[f] = lambda eng, st, a, i, d, t: [C.Out('ret', a[0], st)]
                elif not good[f]: e.summaries.pop(f, None)
        finally: e.summaries = before
        ctx.ob('conversions-present@' + cfg, n >= 6, 'sdk/src/compat/mod.rs', '%d conversions' % n)
def meta_id(x, v, st=None):
    def same(a, b):
        if a is b: return True
        if st is None: return False
        d = st.decide(b)
        return d is not None and (a is TRUE and d or a is FALSE and not d)
    return v is x or all(same(fld(v, f, j), fld(x, f)) for j, f in enumerate(('pubkey', 'is_signer', 'is_writable')))
def list_id(e, ety, x, v):
    if v is x: return True
    if v.op == 'map' and v.args[0] is x:
        el = idx(x, v.args[2])
        return lossless(e, ety, el, v.args[1])
    return False
def lossless(e, ty, x, v, st=None):
    if v is x: return True
    if ty['k'] != 'adt': return False
    p = ty['path']
    if p == IXT: 
        return fld(v, 'program_id', 0) is fld(x, 'program_id') and fld(v, 'data', 2) is fld(x, 'data') and list_id(e, {'k': 'adt', 'path': 'solana_instruction::account_meta::AccountMeta'}, fld(x, 'accounts'), fld(v, 'accounts', 1))
    if p.endswith('AccountMeta'): return meta_id(x, v, st)
    if p == 'alloc::vec::Vec': return list_id(e, e.types[ty['args'][0]], x, v)
    return False

# ------------------------------------------------------------------ S05 / S06
RND = mk('sym', 'seed'); HINT[RND] = ('len', 32)
def rnd_run(ctx, e, name, args=(), assume=()):
    st = C.State()
    for a in assume: st.assume(a, True)
    st.store[('arg', 'seed')] = RND
    outs = feasible_outs(e.run(fn(e, 'rnd::' + name), [ref(('arg', 'seed'))] + list(args), st, 0)); ctx.saw(e, outs)
    return outs
def bytes_of(v, width):
    """the seed byte indices an integer is assembled from, in order, or None"""
    if v.op == 'reint': return bytes_of(v.args[1], width)
    if width == 1: 
        return [v.args[1].args[0]] if v.op == 'idx' and v.args[0] is RND and isint(v.args[1]) else None
    if v.op == 'rd' and v.args[0].op in ('arr', 'cat', 'sub') and v.args[1] is ZERO and ln(v.args[0]) is I(width): v = v.args[0]
    if v.op == 'rd' and v.args[0] is RND and isint(v.args[1]): return list(range(v.args[1].args[0], v.args[1].args[0] + width))
    if v.op in ('fromle', 'frombe', 'le_val') or v.op.startswith('from'):
        xs = [z for z in v.args if isinstance(z, T) and z.op in ('arr', 'cat', 'sub')]
        if len(xs) == 1: v = xs[0]
    if v.op in ('arr', 'cat', 'sub'):
        r = []
        for j in range(width):
            b = idx(v, I(j))
            if not (b.op == 'idx' and b.args[0] is RND and isint(b.args[1])): return None
            r.append(b.args[1].args[0])
        return r
    return None
WIDTH = {'random_u8': 1, 'random_u32': 4, 'random_i32': 4, 'random_u64': 8, 'random_i64': 8}
def ev(t, env):
    """value of a closed arithmetic term under an assignment, or None"""
    if t in env: return env[t]
    if t.op == 'int': return t.args[0]
    a = [ev(x, env) if isinstance(x, T) else x for x in t.args]
    if t.op == 'lin':
        c, parts = lin_parts(t) if isinstance(lin_parts(t), tuple) else (None, None)
        vs = [(ev(x, env), k) for x, k in (parts.items() if isinstance(parts, dict) else parts)]
        return None if any(v is None for v, _ in vs) else c + sum(v * k for v, k in vs)
    if any(x is None for x in a): return None
    f = {'pos': lambda x: int(x > 0), 'eqz': lambda x: int(x == 0), 'not': lambda x: int(not x), 'rem': lambda x, y: x % y, 'div': lambda x, y: x // y,
         'mul': lambda x, y: x * y, 'and': lambda *xs: int(all(xs)), 'or': lambda *xs: int(any(xs))}.get(t.op)
    if f: return f(*a)
    if t.op in ('band', 'bitand'): return a[-2] & a[-1]
    if t.op in ('bor', 'bitor'): return a[-2] | a[-1]
    if t.op in ('bxor', 'bitxor'): return a[-2] ^ a[-1]
    if t.op == 'shr': return a[0] >> a[1]
    if t.op == 'trunc': return a[1] & (1 << a[0]) - 1
    return None
@rule('S06')
def s06(ctx):
    """each helper is evaluated on an opaque seed: exactly one outcome, no panic path, and the value is an integer assembled from as many distinct seed bytes as it has; the boolean's truth table over its only seed byte depends on exactly one bit"""
    for cfg in CONFIGS:
        e = eng('ephemeral_vrf_sdk-lib', cfg); got = {}
        for n, wdt in WIDTH.items():
            w = where_fn(e, 'rnd::' + n); outs = rnd_run(ctx, e, n); name = '%s[%s]' % (n, cfg)
            if not ctx.ob('total@' + name, len(outs) == 1 and outs[0].kind == 'ret', w, lambda: str([(o.kind, show(o.val)) for o in outs])): continue
            bs = bytes_of(outs[0].val, wdt); got[n] = bs
            ctx.ob('distinct-seed-bytes@' + name, bs is not None and len(bs) == wdt == len(set(bs)) and all(0 <= b < 32 for b in bs), w, lambda: show(outs[0].val, 9))
        for s, u in (('random_i32', 'random_u32'), ('random_i64', 'random_u64')):
            ctx.ob('signed-reinterprets-unsigned@%s[%s]' % (s, cfg), got.get(s) is not None and got.get(s) == got.get(u), where_fn(e, 'rnd::' + s), lambda: '%s vs %s' % (got.get(s), got.get(u)))
        outs = rnd_run(ctx, e, 'random_bool'); w = where_fn(e, 'rnd::random_bool'); name = 'random_bool[%s]' % cfg
        if ctx.ob('total@' + name, bool(outs) and all(o.kind == 'ret' for o in outs), w):
            bytes_ = {u for o in outs for t in [o.val] + list(o.st.facts) for u in walk(t) if u.op == 'idx' and u.args[0] is RND}
            ok = len(bytes_) == 1; tab = []
            if ok:
                b = next(iter(bytes_))
                for x in range(256):
                    r = [ev(o.val, {b: x}) for o in outs if all(bool(ev(f, {b: x})) == v for f, v in o.st.facts.items())]
                    tab.append(r[0] if len(r) == 1 else None)
                ok = None not in tab and len(set(tab)) == 2 and any(all(tab[x] == tab[x & (1 << k)] for x in range(256)) for k in range(8))
            ctx.ob('single-bit@' + name, ok, w, lambda: '; '.join(show(o.val, 9) for o in outs))
def normrem(t):
    """rem(constant, r) -> constant - r*(constant div r)"""
    m = {}
    for u in walk(t):
        if u.op == 'rem' and isint(u.args[0]) and not isint(u.args[1]): m[u] = subt(u.args[0], mul(u.args[1], mk('div', u.args[0], u.args[1])))
    return substm(t, m) if m else t
@rule('S05')
def s05(ctx):
    """all paths of the ranged helper for an opaque seed and bounds with min <= max: no panic; the value lies between the bounds given only that a remainder is smaller than its divisor; a path that uses byte j is taken exactly when byte j is below R*(256 div R), R = max-min+1, and uses j mod R; other paths have found all 32 bytes unusable"""
    a, b = mk('sym', 'min'), mk('sym', 'max'); HINT[a] = HINT[b] = (False, 8)
    R = add(subt(b, a), ONE); TH = mul(R, mk('div', I(256), R))
    BY = [idx(RND, I(j)) for j in range(32)]
    for cfg in CONFIGS:
        e = eng('ephemeral_vrf_sdk-lib', cfg); w = where_fn(e, 'rnd::random_u8_with_range'); name = 'random_u8_with_range[%s]' % cfg
        C.NOMERGE[0] = True
        try: outs = rnd_run(ctx, e, 'random_u8_with_range', [a, b], [not_(pos(subt(a, b)))])
        finally: C.NOMERGE[0] = False
        ctx.ob('no-panic@' + name, bool(outs) and all(o.kind == 'ret' for o in outs), w, lambda: '; '.join(show(o.val, 6) for o in outs if o.kind != 'ret'))
        for n, o in enumerate(outs):
            if o.kind != 'ret': continue
            st = o.st.copy()
            for u in walk(o.val):
                if u.op == 'rem': st.assume(pos(subt(u.args[1], u)), True); st.assume(pos(add(u, ONE)), True)
            tr = Tr(e, o, 'path %d' % n)
            ctx.ob('in-range@' + name, st.decide(pos(add(subt(o.val, a), ONE))) is True and st.decide(pos(add(subt(b, o.val), ONE))) is True, w, lambda: 'value %s\n%s' % (show(o.val, 9), tr.text()[:1500]))
            F = [(normrem(f), v) for f, v in o.st.facts.items()]
            D = dict(F); s2 = None; side = {}
            for j in range(32):
                r = D.get(pos(subt(TH, BY[j]))); q = D.get(pos(add(subt(BY[j], TH), ONE)))
                side[j] = r if r is not None else None if q is None else not q
                if side[j] is None and any(occurs(BY[j], f) for f in D):
                    if s2 is None:
                        s2 = C.State()
                        for f, v in F:
                            if not isint(f): s2.assume(f, v)
                    side[j] = s2.decide(pos(subt(TH, BY[j])))
            below = {j for j in side if side[j] is True}; above = {j for j in side if side[j] is False}
            used = [j for j in range(32) if occurs(BY[j], o.val)]
            if len(above) == 32:
                ctx.ob('fallback-only-when-exhausted@' + name, True, w); continue
            ok = len(used) == 1 and used[0] in below and normrem(o.val) is add(a, mk('rem', BY[used[0]], R))
            ok = ok and all(f in (pos(subt(TH, BY[used[0]])), not_(pos(subt(TH, BY[used[0]]))), pos(add(subt(BY[used[0]], TH), ONE))) for f, v in F if occurs(BY[used[0]], f))
            ctx.ob('unbiased-byte@' + name, ok, w, lambda: 'value %s on\n%s' % (show(o.val, 9), tr.text()[:1500]))

# ------------------------------------------------------------------ S08
DLP = pk('DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh')
A0, A1 = mk('sym', 'arg0'), mk('sym', 'arg1')
PDAS = {'delegation_record_pda_from_delegated_account': ([A0], cat(B(b'delegation'), A0), DLP), 'delegation_metadata_pda_from_delegated_account': ([A0], cat(B(b'delegation-metadata'), A0), DLP),
    'commit_state_pda_from_delegated_account': ([A0], cat(B(b'state-diff'), A0), DLP), 'commit_record_pda_from_delegated_account': ([A0], cat(B(b'commit-state-record'), A0), DLP),
    'delegate_buffer_pda_from_delegated_account_and_owner_program': ([A0, A1], cat(B(b'buffer'), A0), A1), 'undelegate_buffer_pda_from_delegated_account': ([A0], cat(B(b'undelegate-buffer'), A0), DLP),
    'fees_vault_pda': ([], B(b'fees-vault'), DLP), 'validator_fees_vault_pda_from_validator': ([A0], cat(B(b'v-fees-vault'), A0), DLP), 'program_config_from_program_id': ([A0], cat(B(b'p-conf'), A0), DLP),
    'ephemeral_balance_pda_from_payer': ([A0, A1], cat(B(b'balance'), A0, arr(A1)), DLP)}
@rule('S08')
def s08(ctx):
    """each delegation address helper, in each feature set, returns find_program_address(protocol seeds, delegation program) for an opaque account"""
    for cfg in CONFIGS:
        e = eng('ephemeral_vrf_sdk-lib', cfg)
        HINT[A0] = ('len', 32)
        for n, (args, seeds, prog) in PDAS.items():
            w = where_fn(e, 'pda::' + n)
            outs = call(e, 'pda::' + n, args); ctx.saw(e, outs)
            ctx.ob('address@%s[%s]' % (n, cfg), len(outs) == 1 and outs[0].kind == 'ret' and outs[0].val is mk('pda', seeds, prog), w, lambda: '; '.join(show(o.val, 9) for o in outs) + ' expected ' + show(mk('pda', seeds, prog), 9))

# ------------------------------------------------------------------ S07
import re, fixture
MCONF = {'macro-modern': 'modern', 'macro-compat': 'compat'}
def adt_fields(e, name):
    t = [t for t in e.types if t['k'] == 'adt' and t['path'] == name]
    return t[0]['variants'][0]['fields'] if len(t) == 1 and len(t[0]['variants']) == 1 else None
def accepting(ctx, e, name):
    """validated-accounts paths of the derive for `name`: per path {constraint text} by field"""
    ks = [k for k, x in enumerate(e.insts) if str(k) in e.fns and x['path'].startswith('<%s<' % name) and x['path'].endswith('::try_accounts')]
    if len(ks) != 1: raise C.AnalysisError('derived account validation of %s not found' % name)
    st = C.State(); args = []
    for n in ('program_id', 'accounts', 'data', 'bumps', 'reallocs'):
        v = mk('sym', n)
        if n == 'program_id': HINT[v] = ('len', 32)
        st.store[('arg', n)] = v; args.append(ref(('arg', n)))
    outs = e.run(ks[0], args, st, 0); ctx.saw(e, outs)
    r = []
    for o in outs:
        if o.kind != 'ret' or o.val.op != 'agg' or o.val.args[1] != 'Ok': continue
        v = o.val.args[2]; L = [n for n, _ in adt_fields(e, name)]
        m = {fld(v, n, j): mk('sym', 'account ' + n) for j, n in enumerate(L)}
        by = {n: set() for n in L}; by[None] = set()
        for f, val in o.st.facts.items():
            g = substm(f, m)
            if g.op == 'isvar' and g.args[0].op == 'call' and 'try_accounts' in str(g.args[0].args[0]): continue
            if any(u.op == 'sym' and u.args == ('account ' + n,) for u in walk(g) for n in L):
                for n in L:
                    if any(u.op == 'sym' and u.args == ('account ' + n,) for u in walk(g)): by[n].add((g, val))
            else: by[None].add((g, val))
        r.append((o, by))
    return r
def keyeq(facts):
    """(addresses the account's key is required to equal, other constraints)"""
    k, rest = set(), []
    for g, v in facts:
        ks = [a for a in g.args if a.op == 'call' and 'key' in str(a.args[0]) or a.op == 'key' or a.op == 'fld' and a.args[1] == 'key'] if g.op == 'eqv' else []
        if v and len(ks) == 1: k.add(next(a for a in g.args if a is not ks[0]))
        else: rest.append((g, v))
    return k, rest
def text(facts, name): return {re.sub(r'\b[CP]\d+\b', 'S', show(g, 40)) + str(v) for g, v in facts}
@rule('S07')
def s07(ctx):
    """the macro is expanded by the compiler on 16 accounts structs (every combination of user-declared required accounts, mixed with look-alike names and other constraints) per anchor generation. Types: the expanded struct has the user's fields, unchanged and in order, plus exactly the missing required ones with the required types. Dataflow over the derived validation: an accepted struct implies each added address constraint and every constraint of the same struct without the macro. Dataflow over the generated request method: its success is that of one signed CPI of the given instruction with payer, identity, queue and slot hashes, signed with the identity seed and canonical bump of crate::ID"""
    ID_ = B(b58('CDiutifqugEkabdqwc5TK3FmSAgFpkP3RPE1642BCEhi'))
    for cfg, gen in MCONF.items():
        W = 'sdk/vrf-macro/src/lib.rs: vrf (expanded with %s)' % ('feature anchor' if gen == 'modern' else 'feature anchor-compat')
        try: e = C.Engine(extract.load('macro_consumer-lib', cfg))
        except extract.BuildFailed as x:
            if 'could not compile `macro-consumer`' not in str(x): raise
            ctx.fail('expansion-compiles@' + cfg, W, str(x)); continue
        ctx.ob('expansion-compiles@' + cfg, True, W)
        anchor = 'anchor_lang::'
        for n in range(16):
            name = 'C%d' % n; tag = '%s[%s]' % (name, cfg)
            have = [r for j, r in enumerate(fixture.ROLES) if n >> j & 1]; missing = [r for r in fixture.ROLES if r not in have]
            F, P0 = adt_fields(e, name), adt_fields(e, 'P%d' % n)
            if not ctx.ob('struct-expanded@' + tag, F is not None and P0 is not None, W): continue
            L = [a for a, _ in F]; D = dict(map(tuple, F))
            ctx.ob('user-fields-kept@' + tag, [f for f in F if f[0] in dict(map(tuple, P0))] == P0, W, lambda: 'declared %s, expanded %s' % (P0, F))
            for r in fixture.ROLES:
                ctx.ob('required-account-present-once@%s.%s' % (tag, r), L.count(r) == 1, W, lambda: 'fields %s' % L)
            ctx.ob('nothing-else-added@' + tag, set(L) == {a for a, _ in P0} | set(fixture.ROLES), W, lambda: 'fields %s' % L)
            for r, want in (('vrf_program', 'ephemeral_vrf_sdk::anchor::VrfProgram'), ('system_program', 'System')):
                if r in missing: ctx.ob('program-account-type@%s.%s' % (tag, r), bool(re.match(r'anchor_lang::.*Program<.*%s>$' % want, D.get(r, ''))), W, lambda: D.get(r))
            try: acc, base = accepting(ctx, e, name), accepting(ctx, e, 'P%d' % n)
            except C.AnalysisError as x: ctx.fail('validation-analysed@' + tag, W, str(x)); continue
            ctx.ob('validation-analysed@' + tag, bool(acc) and bool(base), W)
            want = {'program_identity': mk('pda', B(b'identity'), mk('sym', 'program_id')), 'slot_hashes': SLOTH}
            for o, by in acc:
                for r, k in want.items():
                    if r not in missing: continue
                    keys, rest = keyeq(by.get(r, ()))
                    ctx.ob('address-constraint@%s.%s' % (tag, r), keys == {k}, W, lambda: 'key constrained to %s, required %s' % ([show(x) for x in keys], show(k)))
                    ctx.ob('no-further-constraint@%s.%s' % (tag, r), not rest, W, lambda: '; '.join(show(x, 9) for x, _ in rest))
                for f in [a for a, _ in P0]:
                    ctx.ob('user-constraints-kept@%s.%s' % (tag, f), all(text(b[f], name) <= text(by[f], name) for _, b in base), W, lambda: 'without macro %s\nwith macro %s' % ([text(b[f], name) for _, b in base], text(by[f], name)))
            # the request method
            ks = [k for k, x in enumerate(e.insts) if str(k) in e.fns and re.match(r'%s(::)?<.*>::invoke_signed_vrf$' % name, x['path'])]
            if not ctx.ob('request-method@' + tag, len(ks) == 1, W): continue
            st = C.State(); S, PAY, IX = mk('sym', 'self'), mk('sym', 'payer'), mk('sym', 'ix')
            for nm, v in (('self', S), ('payer', PAY), ('ix', IX)): st.store[('arg', nm)] = v
            outs = e.run(ks[0], [ref(('arg', nm)) for nm in ('self', 'payer', 'ix')], st, 0); ctx.saw(e, outs)
            ctx.ob('request-total@' + tag, all(o.kind == 'ret' for o in outs), W, lambda: str([(o.kind, show(o.val, 5)) for o in outs]))
            oks = 0
            for o in outs:
                if o.kind != 'ret': continue
                cpi = [v for v in o.st.events if v.args[0] == 'cpi']; fail = [v for v in o.st.events if v.args[0] == 'fail']
                tr = Tr(e, o, tag + ' request')
                if o.val.op == 'agg' and o.val.args[1] == 'Ok':
                    oks += 1
                    if not ctx.ob('request-performed@' + tag, len(cpi) == 1 and not fail, W, tr.text): continue
                    _, ix, accs, seeds, snap = cpi[0].args
                    ctx.ob('instruction-forwarded@' + tag, ix is IX, W, lambda: show(ix))
                    got = [acctof(a) for a in accs.args] if accs.op == 'arr' else []
                    for r, a in (('payer', PAY), ('program_identity', fld(S, 'program_identity')), ('oracle_queue', fld(S, 'oracle_queue')), ('slot_hashes', fld(S, 'slot_hashes'))):
                        ctx.ob('account-forwarded@%s.%s' % (tag, r), a in got, W, lambda: 'forwarded: %s' % show(accs, 9))
                    sg = [seedsof(x) for x in strip(seeds).args] if strip(seeds).op == 'arr' else []
                    ctx.ob('identity-signature@' + tag, sg == [cat(B(b'identity'), arr(mk('bump', B(b'identity'), ID_)))], W, lambda: 'signer seeds %s' % show(seeds, 12))
                else:
                    none = [f for f, v in o.st.facts.items() if not v and f.op == 'isvar' and f.args[0].op == 'call' and f.args[0].args[0] == 'try_find_program_address']
                    ctx.ob('refusal-only-if-call-fails@' + tag, bool(none) or bool(fail) and not cpi, W, tr.text)
            ctx.ob('request-can-succeed@' + tag, oks > 0, W)
def acctof(a):
    a = strip(a)
    while a.op == 'call' and 'to_account_info' in str(a.args[0]) or a.op == 'call' and str(a.args[0]).endswith('::clone'): a = strip(a.args[1])
    return a
def seedsof(x):
    x = strip(x)
    return cat(*[strip(y) for y in x.args]) if x.op == 'arr' else x

# accounts the handler passes on to the delegation program, which recomputes their addresses from the queue: (library helper, seed prefix, program)
EXTA = {5: {2: ('delegate_buffer_pda_from_delegated_account_and_owner_program', b'buffer', ID), 3: ('delegation_record_pda_from_delegated_account', b'delegation', None),
            4: ('delegation_metadata_pda_from_delegated_account', b'delegation-metadata', None), 5: ('delegation program', None, None)}}
def isext(got, helper, args, seeds, prog):
    if seeds is None: return got is DLP
    got = strip(got)
    if got is mk('pda', seeds, prog or DLP): return True
    return got.op == 'call' and got.args[0].endswith('::' + helper) and [strip(a) for a in got.args[1:]] == args
# ------------------------------------------------------------------ S01
PRM = [mk('sym', 'p%d' % j) for j in range(8)]
# builder -> (code, parameter count, {caller-chosen account slot: parameter}, {argument of the wire struct: parameter or constant}, wire struct)
API = {
    'initialize': (0, 1, {0: 0}, {}, 'Initialize'),
    'add_oracle': (1, 3, {0: 0}, {'identity': 1, 'oracle_pubkey': 2}, 'ModifyOracle'),
    'remove_oracle': (1, 2, {0: 0}, {'identity': 1}, 'ModifyOracle'),
    'initialize_oracle_queue': (2, 4, {0: 0, 1: 1}, {'index': 2}, 'InitializeOracleQueue'),
    'provide_randomness': (4, 8, {0: 0, 3: 1, 4: 2}, {'input': 3, 'output': 4, 'commitment_base_compressed': 5, 'commitment_hash_compressed': 6, 'scalar': 7}, 'ProvideRandomness'),
    'delegate_oracle_queue': (5, 3, {0: 0, 1: 1}, {'index': 2}, 'DelegateOracleQueue'),
    'undelegate_oracle_queue': (6, 3, {0: 0, 1: 1}, {'index': 2}, 'UndelegateOracleQueue'),
    'close_oracle_queue': (7, 2, {0: 0}, {'index': 1}, 'CloseOracleQueue'),
    'purge_expired_requests': (9, 2, {0: 0}, {'index': 1}, 'PurgeExpiredRequests'),
}
DEFAULT_SIZE = 9500
def offsets(e, name):
    t = [t for t in e.types if t['k'] == 'adt' and t['path'] == 'instruction::' + name]
    if len(t) != 1: raise C.AnalysisError('wire struct %s not found' % name)
    fs = t[0]['variants'][0]['fields']; offs = t[0]['offsets']; size = t[0]['size']
    r = {}
    for j, (n, ty) in enumerate(fs):
        nxt = min([o for o in offs if o > offs[j]] + [size]); sz = next((x.get('size') for x in e.types if x['s'] == ty), nxt - offs[j])
        r[n] = (offs[j], sz, ty)
    return r, size
def steps(v):
    """(number of elements, element) of a list of identical instructions"""
    if v.op == 'map' and v.args[0].op == 'range' and not occurs(v.args[2], v.args[1]): return ln(v.args[0]), v.args[1]
    if v.op == 'rep': return v.args[1], v.args[0]
    if v.op == 'arr' and v.args and all(x is v.args[0] for x in v.args): return I(len(v.args)), v.args[0]
    return None
def rangecount(c): return c
@rule('S01')
def s01(ctx):
    """each client builder is evaluated on opaque parameters; the built instruction is substituted for the handler's inputs (account keys, flags, count and instruction data) in every succeeding path of the operation: some path must remain satisfiable, every signer the handler insists on and every account it (or the program it hands its accounts to) modifies must be flagged; arguments stand at the offsets of the wire struct; for queue initialisation the number of steps equals the 10240-byte chunks of the requested size"""
    e = eng('ephemeral_vrf_api-lib')
    for b, (code, n, acc, args, st) in API.items():
        w = where_fn(e, 'sdk::' + b)
        for p in PRM: HINT.pop(p, None)
        prm = [mk('sym', '%s.%s' % (b, j)) for j in range(n)]
        k = fn(e, 'sdk::' + b)
        for p, l in zip(prm, e.fns[str(k)]['locals'][1:]):
            if e.types[l['t']].get('size') == 32: HINT[p] = ('len', 32)
        outs = [o for o in call(e, 'sdk::' + b, prm) if not (o.kind == 'panic' and printing(o))]; ctx.saw(e, outs)
        if not ctx.ob('builder-total@' + b, bool(outs) and all(o.kind == 'ret' for o in outs), w, lambda: str([(o.kind, show(o.val, 4)) for o in outs])): continue
        off, size = offsets(e, st)
        for o in outs:
            v = o.val
            if b == 'initialize_oracle_queue':
                some_ = o.st.decide(isvar(prm[3], 'Some'))
                if not ctx.ob('size-default-decided@' + b, some_ is not None, w): continue
                t = fld(as_(prm[3], 'Some'), '0', 0) if some_ else I(DEFAULT_SIZE)
                r = steps(v)
                if v is arr(): r = (ZERO, None)
                if not ctx.ob('steps-shape@' + b, r is not None, w, lambda: show(v, 8)): continue
                cnt, v = r
                ctx.ob('step-count@' + b, chunks(cnt, t), w, lambda: 'emits %s steps for a queue of %s bytes' % (show(cnt, 9), show(t)))
                if v is None: continue
                args = dict(args, target_size=t)
            ix = ixparts(v)
            if not ctx.ob('builder-shape@' + b, ix is not None, w, lambda: show(v, 8)): continue
            ok = contract(ctx, b, w, code, ix) or []
            for i, j in acc.items():
                ctx.ob('caller-account@%s#%d' % (b, i), i < len(ix[1]) and ix[1][i][0] is prm[j], w, lambda: show(ix[1][i][0]) if i < len(ix[1]) else 'missing')
            ctx.ob('data-length@' + b, ln(ix[2]) is I(8 + size), w, lambda: show(ln(ix[2])))
            for i, want in EXTA.get(code, {}).items():
                got = ix[1][i][0] if i < len(ix[1]) else None
                h, seeds, prog = want
                ctx.ob('protocol-account@%s#%d' % (b, i), got is not None and isext(got, h, seeds and [ix[1][1][0], ID][:2 if 'owner' in h else 1], seeds and cat(B(seeds), ix[1][1][0]), prog), w,
                       lambda: 'account %d is %s, the delegation protocol expects %s' % (i, got is not None and show(got, 6), h))
            for a, x in args.items():
                x = prm[x] if isinstance(x, int) else x
                if not ctx.ob('argument-known@%s.%s' % (b, a), a in off, w): continue
                o0, sz, ty = off[a]
                got = rd(sub(ix[2], I(8), ln(ix[2])), I(o0), ty) if ty in SIZES else sub(ix[2], I(8 + o0), I(8 + o0 + sz))
                ctx.ob('argument@%s.%s' % (b, a), got is x, w, lambda: 'data carries %s, caller gave %s' % (show(got, 9), show(x)))
            if b in ('add_oracle', 'remove_oracle'):
                for ko, m in ok:
                    fin = substm(ko.st.store.get(('data', P.acct(2)), ZERO), m)
                    stored = occurs(prm[2], fin) if b == 'add_oracle' else False
                    if b == 'add_oracle': ctx.ob('operation-meaning@' + b, stored, w, lambda: 'an accepted path leaves the oracle record as %s' % show(fin, 9))
                    else: ctx.ob('operation-meaning@' + b, lam_zero(ko), w, lambda: Tr(None, ko, b).text()[:3000])
def lam_zero(o):
    return any(c[0] == 'lam' and c[1] is P.acct(2) and v is ZERO for c, v in o.st.store.items()) or any(v.args[0] == 'close' for v in o.st.events)
def printing(o):
    """a formatting failure of a diagnostic print: Display of an address into a String cannot fail"""
    return 'unwrap_failed' in show(o.val, 4) and any(v is False and f.op == 'isvar' and 'fmt' in show(f, 6) for f, v in o.st.facts.items())
def chunks(c, t):
    if isint(t): return isint(c) and c.args[0] == -(-t.args[0] // 10240)
    if c is mk('div', add(t, I(10239)), I(10240)): return True
    pts = list(range(0, 20482)) + [10240 * k + d for k in (5, 100, 1024, 419430) for d in (-1, 0, 1)]
    return all(ev(c, {t: x}) == -(-x // 10240) for x in pts)
