"""Transfer functions of the curve, hash and key-derivation libraries."""
from prims import *
from algebra import *
CD = 'curve25519_dalek::'
SC, RP, TB = CD + 'scalar::Scalar', CD + 'ristretto::RistrettoPoint', CD + 'ristretto::RistrettoBasepointTable'
CR = CD + 'ristretto::CompressedRistretto'
TRANSPARENT.add(CR)
def tyname(eng, ty):
    while ty is not None and ty['k'] == 'ref': ty = eng.types[ty['to']]
    return ty.get('path') if ty is not None else None
def val(eng, st, v):
    v = strip(eng.val(st, v))
    while v.op in ('ref', 'guard'): v = strip(eng.val(st, content(eng, st, v)))
    return v
def point(v):
    if basepoint_limbs(v): return G
    if v.op == 'const' and 'RistrettoBasepointTable' in str(v.args[0]): return G
    if v.op == 'deref': return point(v.args[0])
    return v
def scalar(v):
    if v.op == 'agg' and v.args[0].endswith('Scalar') and v.args[2:] and v.args[2].op == 'bytes': return I(int.from_bytes(v.args[2].args[0], 'little'))
    return v
def kinds(eng, i):
    return [tyname(eng, t) for t in ttas(eng, i)]
def arith(f):
    def g(eng, st, a, i, d, t):
        ks = kinds(eng, i)
        if not ks or ks[0] not in (SC, RP, TB): return None
        if len(ks) < 2 or ks[1] is None: ks = [ks[0], ks[0]]
        def conv(k, v):
            v = val(eng, st, v)
            return scalar(v) if k == SC else point(v)
        return f(eng, st, a, ks, [conv(k, v) for k, v in zip(ks, a)])
    return g
def bop(name):
    def f(eng, st, a, ks, v):
        p = [k != SC for k in ks]
        if name == 'mul':
            if not p[0] and not p[1]: return smul(*v)
            return pmul(v[0], v[1]) if p[1] else pmul(v[1], v[0])
        if name == 'add': return padd(*v) if p[0] else sadd(*v)
        return padd(v[0], v[1], -1) if p[0] else sadd(v[0], v[1], -1)
    return f
_old = {}
def over(nm, g):
    old = TABLE.get(nm)
    def h(eng, st, a, i, d, t):
        r = g(eng, st, a, i, d, t)
        return r if r is not None else (old(eng, st, a, i, d, t) if old else None)
    TABLE[nm] = h
for nm in ('mul', 'add', 'sub'):
    f = bop(nm)
    over('core::ops::arith::%s::%s' % (nm.capitalize(), nm), arith(lambda eng, st, a, ks, v, f=f: ret(f(eng, st, a, ks, v), st)))
    def asg(eng, st, a, ks, v, f=f):
        eng.storeref(st, a[0], f(eng, st, a, ks, v)); return ret(UNIT, st)
    over('core::ops::arith::%sAssign::%s_assign' % (nm.capitalize(), nm), arith(asg))
over('core::ops::arith::Neg::neg', arith(lambda eng, st, a, ks, v: ret(padd(IDENT, v[0], -1) if ks[0] != SC else sneg(v[0]), st)))
def pe(eng, st, a, i, d, t):
    ks = kinds(eng, i)
    if not ks or ks[0] not in (SC, RP): return None
    x, y = val(eng, st, a[0]), val(eng, st, a[1])
    e = pteq(point(x), point(y)) if ks[0] == RP else (TRUE if sadd(scalar(x), scalar(y), -1) is ZERO else mk('eqv', *sorted((x, y))))
    return ret(not_(e) if eng.names[i].endswith('::ne') else e, st)
over('core::cmp::PartialEq::eq', pe); over('core::cmp::PartialEq::ne', pe)
def cte(eng, st, a, i, d, t):
    r = pe(eng, st, a, i, d, t)
    if r is not None: return r
    ks = kinds(eng, i)
    if ks and ks[0] == CR: return ret(eqv(val(eng, st, a[0]), val(eng, st, a[1])), st)
over('subtle::ConstantTimeEq::ct_eq', cte)
@prim('subtle::Choice::unwrap_u8')
def _(eng, st, a, i, d, t): return ret(val(eng, st, a[0]), st)
def chconv(eng, st, a, i, d, t):
    ts = [x['s'] for x in ttas(eng, i) if x is not None]
    if 'subtle::Choice' in ts and 'bool' in ts: return ret(a[0], st)
over('core::convert::From::from', chconv); over('core::convert::Into::into', chconv)
def chbit(fn):
    def g(eng, st, a, i, d, t):
        ts = ttas(eng, i)
        if ts and ts[0] is not None and ts[0]['s'] == 'subtle::Choice': return ret(fn(a[0], a[1]), st)
    return g
over('core::ops::bit::BitAnd::bitand', chbit(and_)); over('core::ops::bit::BitOr::bitor', chbit(or_))
def dflt(eng, st, a, i, d, t):
    ks = kinds(eng, i)
    if ks and ks[0] == RP: return ret(IDENT, st)
    if ks and ks[0] == SC: return ret(ZERO, st)
    if ks and ks[0] == CR: return ret(B(bytes(32)), st)
over('core::default::Default::default', dflt); over('curve25519_dalek::traits::Identity::identity', dflt)
@prim('curve25519_dalek::traits::IsIdentity::is_identity')
def _(eng, st, a, i, d, t): return ret(pteq(point(val(eng, st, a[0])), IDENT), st)
@prim(RP + '::mul_base', )
def _(eng, st, a, i, d, t): return ret(pmul(scalar(val(eng, st, a[0])), G), st)
@prim(RP + '::vartime_double_scalar_mul_basepoint')
def _(eng, st, a, i, d, t):
    x, A, y = (val(eng, st, v) for v in a)
    return ret(padd(pmul(scalar(x), point(A)), pmul(scalar(y), G)), st)
@prim(RP + '::compress')
def _(eng, st, a, i, d, t): return ret(compress(point(val(eng, st, a[0]))), st)
@prim(CR + '::to_bytes', CR + '::as_bytes')
def _(eng, st, a, i, d, t):
    if eng.names[i].endswith('as_bytes'): return ret(a[0], st)
    return ret(val(eng, st, a[0]), st)
@prim(CR + '::decompress')
def _(eng, st, a, i, d, t):
    p, c = decode(val(eng, st, a[0]))
    return [C.Out('ret', some(p) if r else NONE, s) for r, s in eng.fork(st, c)]
@prim(CR + '::from_slice')
def _(eng, st, a, i, d, t):
    b = val(eng, st, a[0])
    return [C.Out('ret', ok(b) if r else err(UNIT), s) for r, s in eng.fork(st, eqz(subt(ln(b), I(32))))]
@prim(RP + '::from_uniform_bytes')
def _(eng, st, a, i, d, t): return ret(mk('h2c', val(eng, st, a[0])), st)
@prim(RP + '::hash_from_bytes', SC + '::hash_from_bytes')
def _(eng, st, a, i, d, t): return ret(mk('h2c' if 'Ristretto' in eng.names[i] else 'scmod', val(eng, st, a[0]), str((targ(eng, i) or {}).get('s'))[:80]), st)
@prim(SC + '::from_bytes_mod_order', SC + '::from_bytes_mod_order_wide')
def _(eng, st, a, i, d, t):
    b = val(eng, st, a[0])
    if b.op == 'scbytes': return ret(b.args[0], st)
    if b.op == 'bytes': return ret(I(int.from_bytes(b.args[0], 'little') % (2 ** 252 + 27742317777372353535851937790883648493)), st)
    return ret(mk('scmod', b), st)
@prim(SC + '::to_bytes', SC + '::as_bytes')
def _(eng, st, a, i, d, t):
    b = scbytes(scalar(val(eng, st, a[0])))
    if eng.names[i].endswith('as_bytes'): return ret(eng.newcell(st, b), st)
    return ret(b, st)
@prim(SC + '::from_canonical_bytes')
def _(eng, st, a, i, d, t):
    s, c = scdecode(val(eng, st, a[0]))
    return [C.Out('ret', some(s) if r else NONE, x) for r, x in eng.fork(st, c)]
@prim('subtle::CtOption::is_some', 'subtle::CtOption::is_none')
def _(eng, st, a, i, d, t):
    v = isvar(val(eng, st, a[0]), 'Some'); return ret(v if eng.names[i].endswith('some') else not_(v), st)
@prim('subtle::CtOption::unwrap')
def _(eng, st, a, i, d, t):
    v = val(eng, st, a[0])
    if v.op == 'agg': return ret(v.args[2], st) if v.args[1] == 'Some' else panic('unwrap', st)
@prim(SC + '::invert')
def _(eng, st, a, i, d, t): return ret(mk('scinv', scalar(val(eng, st, a[0]))), st)
# ---- syscall wrappers
CV = 'solana_curve25519::ristretto::'
def both(eng, st, conds, mkval):
    """Some(value) when every operand decodes, None otherwise"""
    live = [st]; out = []
    for c in conds:
        nxt = []
        for s in live:
            for r, s2 in eng.fork(s, c):
                if r: nxt.append(s2)
                else: out.append(C.Out('ret', NONE, s2))
        live = nxt
    return [C.Out('ret', some(mkval), s) for s in live] + out
def names(mod, *fs): return [CV + f for f in fs] + [CV + 'target_arch::' + f for f in fs]
@prim(*names('r', 'multiply_ristretto'))
def _(eng, st, a, i, d, t):
    s, c1 = scdecode(val(eng, st, a[0])); p, c2 = decode(val(eng, st, a[1]))
    return both(eng, st, [c1, c2], compress(pmul(s, p)))
@prim(*names('r', 'add_ristretto', 'subtract_ristretto'))
def _(eng, st, a, i, d, t):
    p, c1 = decode(val(eng, st, a[0])); q, c2 = decode(val(eng, st, a[1]))
    return both(eng, st, [c1, c2], compress(padd(p, q, -1 if 'subtract' in eng.names[i] else 1)))
@prim(*names('r', 'multiscalar_multiply_ristretto'))
def _(eng, st, a, i, d, t):
    ss, ps = elems(val(eng, st, a[0])), elems(val(eng, st, a[1]))
    if ss is None or ps is None or len(ss) != len(ps): return None
    acc = IDENT; cs = []
    for s, p in zip(ss, ps):
        s, c1 = scdecode(strip(s)); p, c2 = decode(strip(p)); cs += [c1, c2]; acc = padd(acc, pmul(s, p))
    return both(eng, st, cs, compress(acc))
@prim(*names('r', 'validate_ristretto'))
def _(eng, st, a, i, d, t): return ret(decode(val(eng, st, a[0]))[1], st)
# ---- key derivation
@prim('hkdf::Hkdf::new')
def _(eng, st, a, i, d, t):
    salt = val(eng, st, a[0])
    return ret(mk('hkdf', strip(salt.args[2]) if salt.op == 'agg' and salt.args[1] == 'Some' else salt, val(eng, st, a[1]), str((targ(eng, i) or {}).get('s'))[:120]), st)
@prim('hkdf::Hkdf::expand')
def _(eng, st, a, i, d, t):
    n = ln(val(eng, st, content(eng, st, a[2])))
    r = mk('okm', val(eng, st, a[0]), val(eng, st, a[1]), n)
    if isint(n): HINT[r] = ('len', n.args[0])
    if isint(n) and n.args[0] <= 255 * 32:
        eng.storeref(st, a[2], r); return ret(ok(UNIT), st)
    out = []
    for x, s in eng.fork(st, mk('eqv', *sorted((r, ZERO)))):
        if x: out += ret(err(UNIT), s)
        else: eng.storeref(s, a[2], r); out += ret(ok(UNIT), s)
    return out
@prim('solana_keypair::Keypair::to_bytes', 'solana_keypair::Keypair::secret_bytes')
def _(eng, st, a, i, d, t):
    r = mk('kpbytes', val(eng, st, a[0]), eng.names[i].split('::')[-1]); HINT[r] = ('len', 64 if 'to_bytes' in eng.names[i] else 32); return ret(r, st)
