"""The proof system: prover and both verifiers as algebraic normal forms over opaque scalars, points and hashes."""
from rules.base import *
import algebra as A
SK, KP = mk('sym', 'sk'), mk('sym', 'keypair')
def bsym(n):
    x = mk('sym', n); HINT[x] = ('len', 32); return x
INP, PKB, OUT, U, V, S = (bsym(n) for n in ('input', 'PK', 'Gamma', 'U', 'V', 's'))
PKP, SS = A.decode(PKB)[0], A.scdecode(S)[0]
_e = {}
def eng(n):
    if n not in _e: _e[n] = C.Engine(extract.load(n))
    return _e[n]
LIB, API = 'ephemeral_vrf-lib', 'ephemeral_vrf_api-lib'
def fn(e, path):
    r = e.find(path)
    if len(r) != 1: raise C.AnalysisError('function %s not found' % path)
    return r[0]
def start(assume=()):
    st = C.State()
    for a in assume: st.assume(a, True)
    return st
def refs(st, **kw):
    for n, v in kw.items(): st.store[('arg', n)] = v
    return [ref(('arg', n)) for n in kw]
def prover():
    e = eng(LIB); st = start(); r = refs(st, i=INP)
    return e, e.run(fn(e, 'vrf::compute_vrf'), [SK, r[0]], st, 0)
def keygen():
    e = eng(LIB); st = start(); r = refs(st, k=KP)
    return e, e.run(fn(e, 'vrf::generate_vrf_keypair'), r, st, 0)
def offchain(pkp, out, u, v, s, assume=(), inp=INP):
    e = eng(LIB); st = start(assume); r = refs(st, i=inp)
    return e, e.run(fn(e, 'vrf::verify_vrf'), [pkp, r[0], out, tup(u, v, s)], st, 0)
def onchain(pkb, out, u, v, sb, assume=(), inp=INP):
    e = eng(API); st = start(assume)
    p, i, o, a, b, c = refs(st, p=pkb, i=inp, o=out, u=u, v=v, s=sb)
    return e, e.run(fn(e, 'verify::verify_vrf'), [p, i, o, tup(a, b, c)], st, 0)
PRE = (mk('ondec', PKB), mk('canon', S))
VER = {'off-chain': lambda assume=(): offchain(PKP, OUT, U, V, SS, assume + PRE), 'on-chain': lambda assume=(): onchain(PKB, OUT, U, V, S, assume)}
WH = {'off-chain': (LIB, 'vrf::verify_vrf'), 'on-chain': (API, 'verify::verify_vrf')}
def where(v): return where_fn(eng(WH[v][0]), WH[v][1])
def accepting(e, outs, label):
    for n, o in enumerate(outs):
        if o.kind != 'ret': continue
        st = o.st.copy()
        if st.assume(o.val, True) and not st.refuted(): yield Tr(e, C.Out('ret', TRUE, st), '%s path %d (accepts)' % (label, n))
def spec(tr):
    """(c, H) such that the path has established s*G = U + c*PK and s*H = V + c*Gamma; or an explanation"""
    eqs = [f.args[0] for f in tr.facts('pteq')]
    c = H = None
    for d in eqs:
        p = A.pparts(d)
        u = p.get(A.decode(U)[0])
        if u is None or u.op != 'int' or abs(u.args[0]) != 1: continue
        if u is ONE: d = A.padd(A.IDENT, d, -1); p = A.pparts(d)
        cc = A.sneg(p.get(PKP, ZERO))
        if A.pteq(A.pmul(SS, A.G), A.padd(A.decode(U)[0], A.pmul(cc, PKP))) is A.pteq(d, A.IDENT) and not occurs(S, cc): c = cc
    for d in eqs:
        p = A.pparts(d)
        v = p.get(A.decode(V)[0])
        if v is None or v.op != 'int' or abs(v.args[0]) != 1: continue
        if v is ONE: d = A.padd(A.IDENT, d, -1); p = A.pparts(d)
        cc = A.sneg(p.get(A.decode(OUT)[0], ZERO))
        if c is not None and cc is not c: continue
        rest = A.padd(A.padd(d, A.decode(V)[0]), A.pmul(cc, A.decode(OUT)[0]))
        h = divide(rest, SS)
        if h is not None and h is not A.IDENT: H = h
    return c, H
def divide(p, s):
    """q with p = s*q, or None"""
    r = {}
    for b, k in A.pparts(p).items():
        d = {}
        for f, co in A.sparts(k).items():
            if f.count(s) != 1: return None
            g = list(f); g.remove(s); d[tuple(g)] = co
        r[b] = A.smk(d)
    return A.pmk(r)
HASHES = ('sha256', 'sha512', 'okm', 'hkdf', 'keccak', 'blake3')
def whole(x, t):
    """x enters t unabridged: as an operand of a concatenation, hash or scalar/point conversion, not through a slice or an element"""
    return any(x in u.args for u in walk(t) if u.op in HASHES + ('cat', 'scmod', 'scmodw', 'h2c', 'cmp', 'ptdec', 'scdec', 'pt', 'sc', 'scbytes', 'kpbytes') and isinstance(u, T)) or x is t or \
        any(u.op == 'pt' and any(x in p for p in u.args[0]) or u.op == 'sc' and any(x in p[1] for p in u.args[0]) for u in walk(t))
def outside(t):
    """subterms of t not hidden inside a compressed group element"""
    st = [t]; seen = set()
    while st:
        u = st.pop()
        if isinstance(u, tuple): st.extend(u); continue
        if not isinstance(u, T) or u in seen: continue
        seen.add(u); yield u
        if u.op != 'cmp': st.extend(u.args)
def whole_out(x, t):
    return any(x in u.args for u in outside(t) if u.op in HASHES + ('cat', 'scbytes'))
def hashed(t):
    return [u for u in walk(t) if u.op in HASHES or u.op == 'h2c']
def transcript(c):
    """the hash inside c whose preimage carries the transcript"""
    return [u for u in walk(c) if u.op in HASHES]
def requirements(c, H):
    return [('gamma-decodes', mk('ondec', OUT)), ('u-decodes', mk('ondec', U)), ('v-decodes', mk('ondec', V)),
            ('base-relation', A.pteq(A.pmul(SS, A.G), A.padd(A.decode(U)[0], A.pmul(c, PKP)))),
            ('hash-relation', A.pteq(A.pmul(SS, H), A.padd(A.decode(V)[0], A.pmul(c, A.decode(OUT)[0]))))]
_sp = {}
def specs(v):
    """the (c, H) pairs of the accepting paths of verifier v"""
    if v not in _sp:
        e, outs = VER[v]()
        _sp[v] = (e, outs, [(t,) + spec(t) for t in accepting(e, outs, v + ' verifier')])
    return _sp[v]
@rule('V01')
def v01(ctx):
    """on every accepting path of each verifier the facts established include both group equations in normal form, with one challenge c that is a hash over the whole of Gamma, U, V, PK and the input, and H a function of the whole input; all elements decode; rejecting requires a failed requirement"""
    for v in VER:
        e, outs, sp = specs(v); ctx.saw(e, outs); w = where(v)
        ctx.ob('verifier-has-accepting-path@' + v, bool(sp), w)
        for t, c, H in sp:
            ctx.ob('accepts-only-with-base-relation@' + v, c is not None, w, t.text)
            ctx.ob('accepts-only-with-hash-relation@' + v, H is not None, w, t.text)
            if c is None or H is None: continue
            for n, x in (('gamma', OUT), ('u', U), ('v', V), ('public-key', PKB), ('input', INP)):
                ctx.ob('challenge-covers-%s@%s' % (n, v), any(whole(x, h) for h in transcript(c)), w, lambda: 'c = ' + show(c, 12))
            ctx.ob('challenge-is-hash-derived@' + v, c.op in ('scmod', 'scmodw') and bool(transcript(c)), w, lambda: show(c, 10))
            ctx.ob('challenge-independent-of-response@' + v, not occurs(S, c), w, lambda: show(c, 10))
            ctx.ob('hashed-point-from-whole-input@' + v, whole(INP, H) and not any(occurs(x, H) for x in (OUT, U, V, S, PKB)) and bool(hashed(H)), w, lambda: 'H = ' + show(H, 12))
            for n, r in requirements(c, H)[:3] + ([('public-key-decodes', PRE[0]), ('response-decodes', PRE[1])]):
                ctx.ob('accepts-only-if-%s@%s' % (n, v), t.holds(r), w, t.text)
        for n, o in enumerate(outs):
            ctx.ob('verifier-never-panics@' + v, o.kind == 'ret', w, Tr(e, o, '%s path %d' % (v, n)).text)
def leaks(t, secrets):
    """secret terms reachable in t other than under a group element"""
    bad = []
    st = [t]; seen = set()
    while st:
        u = st.pop()
        if isinstance(u, tuple): st.extend(u); continue
        if not isinstance(u, T) or u in seen: continue
        seen.add(u)
        if u in secrets: bad.append(u); continue
        if u.op == 'cmp': continue
        st.extend(u.args)
    return bad
def parts(o):
    """(Gamma, U, V, s) of a prover path"""
    g = fld(o.val, '0', 0); pr = fld(o.val, '1', 1)
    return g, fld(pr, '0', 0), fld(pr, '1', 1), fld(pr, '2', 2)
PW = lambda: where_fn(eng(LIB), 'vrf::compute_vrf')
@rule('V02')
def v02(ctx):
    """the prover's output, substituted into each verifier, normalises to acceptance on every path: s*G - U - c*PK and s*H - V - c*Gamma are identically zero with the prover's terms, transcript hashes are the same value numbers"""
    e, outs = prover(); ctx.saw(e, outs)
    ctx.ob('prover-returns@prover', any(o.kind == 'ret' for o in outs), PW())
    for o in outs:
        ctx.ob('prover-never-panics@prover', o.kind == 'ret', PW(), Tr(e, o, 'prover').text)
        if o.kind != 'ret': continue
        g, u, v, s = parts(o)
        P = A.pmul(SK, A.G); fs = [f if b else not_(f) for f, b in o.st.facts.items()]
        for n, (e2, os) in (('off-chain', offchain(P, g, u, v, s, tuple(fs))), ('on-chain', onchain(A.compress(P), g, u, v, A.scbytes(s), tuple(fs)))):
            ctx.saw(e2, os)
            for o2 in os: ctx.ob('honest-proof-accepted@' + n, o2.kind == 'ret' and o2.st.decide(o2.val) is True, where(n), Tr(e2, o2, 'verifier on prover output (%s)' % o2.kind).text)
    e, outs = keygen(); ctx.saw(e, outs)
    for o in outs: ctx.ob('public-key-is-secret-times-base@keygen', o.kind == 'ret' and fld(o.val, '1', 1) is A.pmul(fld(o.val, '0', 0), A.G), where_fn(e, 'vrf::generate_vrf_keypair'), Tr(e, o, 'keygen').text)
@rule('V03')
def v03(ctx):
    """both verifiers have the same challenge and hashed-point terms, accept exactly under the same requirements (accepting implies all of them; under all of them no path rejects or panics)"""
    sp = {v: specs(v)[2] for v in VER}
    ref_c = None
    for v in VER:
        e, outs, ps = specs(v); ctx.saw(e, outs)
        for t, c, H in ps:
            if ref_c is None: ref_c = (c, H)
            ctx.ob('same-challenge@verifiers', c is not None and c is ref_c[0], where(v), lambda: '%s: c = %s' % (v, show(c, 12) if c is not None else None))
            ctx.ob('same-hashed-point@verifiers', H is not None and H is ref_c[1], where(v), lambda: '%s: H = %s' % (v, show(H, 12) if H is not None else None))
    if ref_c is None or None in ref_c: return
    R = requirements(*ref_c)
    for v in VER:
        e, outs, ps = specs(v)
        for t, c, H in ps:
            for n, r in R: ctx.ob('accept-implies-%s@%s' % (n, v), t.holds(r), where(v), t.text)
        e, outs = VER[v](tuple(r for n, r in R) + PRE); ctx.saw(e, outs)
        for o in outs: ctx.ob('requirements-imply-accept@' + v, o.kind == 'ret' and o.st.decide(o.val) is True, where(v), Tr(e, o, 'all requirements assumed (%s)' % o.kind).text)
PURE = ('int', 'sym', 'bytes', 'lin', 'mul', 'len', 'agg', 'arr', 'cat', 'sub', 'idx', 'rd', 'sc', 'pt', 'cmp', 'ptdec', 'scbytes', 'scdec', 'scmod', 'scmodw', 'h2c', 'okm', 'hkdf', 'sha256', 'sha512', 'kpbytes', 'zeros', 'pod', 'le', 'be', '&', 'w', 'wi', 'fld', 'ref', 'scinv', 'ondec', 'canon', 'pteq', 'isvar', 'not', 'and', 'eqz', 'pos', 'eqv', 'ok', 'errof', 'map', 'bv', 'phi', 'trunc', 'rem', 'div', 'xor', 'rep', 'as')
PURECRATES = ('core::', 'alloc::', 'curve25519_dalek', '<curve25519_dalek', 'hkdf::', 'sha2::', 'hmac::', 'digest::', 'solana_sha256_hasher', 'solana_keccak', 'solana_keypair', 'solana_signer', 'subtle', '<', 'zeroize', 'ed25519', 'solana_signature', 'solana_address', 'solana_hash')
AMBIENT = ('rand', 'std::time', 'time::', 'std::env', 'std::thread', 'std::process', 'std::fs', 'std::net', 'getrandom', 'std::sync', 'once_cell', 'thread_local', 'Instant', 'SystemTime', 'new_rand', 'random')
def ambient(t, allowed):
    """sources other than the allowed inputs"""
    r = []
    for u in walk(t):
        if u.op == 'sym' and u not in allowed and u is not A.G: r.append(u)
        if u.op in ('call', 'mutby', 'havoc', 'static', 'const', 'unk'):
            nm = str(u.args[0]) if u.args else u.op
            if u.op == 'call' and nm.startswith(PURECRATES) and not any(a in nm for a in AMBIENT): continue
            if u.op == 'mutby': continue
            r.append(u)
    return r
@rule('V04')
def v04(ctx):
    """every leaf of the prover's output, proof and of the key pair is the secret, the input or a compile-time constant; no clock, RNG, environment or other ambient source is reachable; the output mentions both the secret and the whole input"""
    for nm, (e, outs), allowed in (('prover', prover(), (SK, INP)), ('keygen', keygen(), (KP,))):
        ctx.saw(e, outs); w = where_fn(e, 'vrf::compute_vrf' if nm == 'prover' else 'vrf::generate_vrf_keypair')
        rets = [o for o in outs if o.kind == 'ret']
        ctx.ob('returns@' + nm, bool(rets), w)
        for o in rets:
            t = Tr(e, o, nm)
            bad = ambient(o.val, allowed) + [x for f in o.st.facts for x in ambient(f, allowed)]
            ctx.ob('deterministic@' + nm, not bad, w, lambda: 'depends on %s\n%s' % ([show(b, 4) for b in bad[:6]], t.text()))
            ev = [x for x in o.st.events if any(a in str(x.args[1]) for a in AMBIENT)]
            ctx.ob('no-ambient-effect@' + nm, not ev, w, t.text)
        amb = sorted(n for n in e.opaque if any(a in n for a in AMBIENT))
        ctx.ob('no-ambient-call@' + nm, not amb, w, lambda: str(amb))
        for o in rets:
            if nm == 'prover':
                g = parts(o)[0]
                ctx.ob('output-depends-on-secret@prover', occurs(SK, g) and g.op == 'cmp', w, lambda: show(g, 9))
                ctx.ob('output-depends-on-whole-input@prover', whole(INP, g), w, lambda: show(g, 9))
            else:
                sk, pk_ = fld(o.val, '0', 0), fld(o.val, '1', 1)
                ctx.ob('secret-scalar-from-whole-keypair@keygen', any(u.op == 'kpbytes' and whole(u, sk) for u in walk(sk)) and bool(hashed(sk)), w, lambda: show(sk, 9))
                ctx.ob('public-key-is-secret-times-base@keygen', pk_ is A.pmul(sk, A.G), w, lambda: show(pk_, 9))
@rule('V05')
def v05(ctx):
    """the proof is (k*G, k*H, k + c*sk) with k a one-way hash over the whole secret and the whole input; no other part of the result, and no call made on the way, carries the secret scalar or the nonce outside a group element"""
    e, outs = prover(); ctx.saw(e, outs); w = PW()
    for o in outs:
        if o.kind != 'ret': continue
        g, u, v, s = parts(o); t = Tr(e, o, 'prover')
        k = None
        if u.op == 'cmp':
            p = A.pparts(u.args[0])
            if list(p) == [A.G]: k = p[A.G]
        ctx.ob('commitment-is-nonce-times-base@prover', k is not None, w, lambda: show(u, 9))
        if k is None: continue
        ctx.ob('nonce-is-hash-derived@prover', k.op in ('scmod', 'scmodw') and bool(hashed(k)), w, lambda: show(k, 9))
        skb = A.scbytes(SK)
        ctx.ob('nonce-depends-on-whole-secret@prover', any(whole_out(x, h) for h in hashed(k) for x in (SK, skb)), w, lambda: show(k, 9))
        ctx.ob('nonce-depends-on-whole-input@prover', any(whole(INP, h) for h in hashed(k)), w, lambda: show(k, 9))
        if k.op not in ('scmod', 'scmodw'): continue
        n = [x for x in walk(k) if x.op == 'sub' and x.args[0].op in HASHES]
        ctx.ob('nonce-has-full-width@prover', all(isint(ln(x)) and ln(x).args[0] >= 32 for x in n) and (not isint(ln(k.args[0])) or ln(k.args[0]).args[0] >= 32), w, lambda: show(k, 9))
        H = divide(g.args[0], SK) if g.op == 'cmp' else None
        ctx.ob('output-is-secret-times-hashed-point@prover', H is not None and not occurs(SK, H), w, lambda: show(g, 9))
        ctx.ob('second-commitment-is-nonce-times-hashed-point@prover', H is not None and v is A.compress(A.pmul(k, H)), w, lambda: show(v, 9))
        sec = {SK, k, skb, A.scbytes(k)}
        c = None
        rest = A.sadd(s, k, -1)
        d = {}
        for f, co in A.sparts(rest).items():
            if f.count(SK) != 1: d = None; break
            g2 = list(f); g2.remove(SK); d[tuple(g2)] = co
        if d: c = A.smk(d)
        ctx.ob('response-is-nonce-plus-challenge-times-secret@prover', c is not None and not leaks(c, sec), w, lambda: 's = ' + show(s, 9))
        if c is not None:
            for nm, x in (('gamma', g), ('u', u), ('v', v), ('public-key', A.compress(A.pmul(SK, A.G))), ('input', INP)):
                ctx.ob('challenge-binds-%s@prover' % nm, any(whole(x, h) for h in transcript(c)), w, lambda: show(c, 12))
        for nm, x in (('gamma', g), ('u', u), ('v', v)): ctx.ob('no-secret-outside-group-element@prover/' + nm, not leaks(x, sec), w, lambda: show(x, 9))
        ctx.ob('nothing-else-published@prover', o.val.op == 'agg' and len(o.val.args) == 4 and len(o.val.args[3].args) == 5, w, lambda: show(o.val, 4))
        ev = [x for x in o.st.events if x.args[0] != 'loop' and any(leaks(y, sec) for y in x.args[1:] if isinstance(y, T))]
        ctx.ob('secret-passed-to-no-effect@prover', not ev, w, t.text)
    e2, outs = keygen(); ctx.saw(e2, outs)
    for o in outs:
        if o.kind == 'ret':
            sk = fld(o.val, '0', 0)
            ctx.ob('secret-scalar-is-hash-of-private-key@keygen', sk.op in ('scmod', 'scmodw') and any(u.op == 'kpbytes' and whole_out(u, h) for h in hashed(sk) for u in walk(h)), where_fn(e2, 'vrf::generate_vrf_keypair'), lambda: show(sk, 9))
    IO = ('std::io', 'print', 'log::', 'msg', 'std::fs', 'std::net', 'std::env', 'tracing', 'eprint')
    io = sorted(n for n in e.opaque if any(a in n for a in IO))
    ctx.ob('no-output-call-in-prover@prover', not io, w, lambda: str(io))
@rule('V06')
def v06(ctx):
    """the hashed point's discrete logarithm with respect to the base point must not be a public term; the output must have the secret as a factor"""
    e, outs = prover(); ctx.saw(e, outs)
    for o in outs:
        if o.kind != 'ret': continue
        g = parts(o)[0]
        H = divide(g.args[0], SK) if g.op == 'cmp' else None
        ctx.ob('output-has-secret-factor@prover', H is not None and not occurs(SK, H), PW(), lambda: show(g, 9))
        if H is None: continue
        ctx.ob('hashed-point-depends-on-whole-input@prover', whole(INP, H), PW(), lambda: show(H, 9))
        ctx.ob('hashed-point-discrete-log-unknown@prover', unknown_log(H), where_fn(e, 'vrf::hash_to_point'), lambda: 'H = %s is a publicly computable multiple of the base point, so Gamma = sk*H = h*PK is computable from the public key' % show(H, 9))
    for v in VER:
        e, outs, sp = specs(v); ctx.saw(e, outs)
        for t, c, H in sp:
            if H is not None: ctx.ob('hashed-point-discrete-log-unknown@%s-verifier' % v, unknown_log(H), where(v), lambda: 'H = ' + show(H, 9))
def unknown_log(H):
    """no multiple of the base point with a coefficient free of secrets: the point comes from a hash-to-group map"""
    p = A.pparts(H)
    return A.G not in p and all(any(u.op == 'h2c' for u in walk(b)) for b in p)
