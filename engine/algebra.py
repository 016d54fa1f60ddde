"""Normal forms of scalar and group expressions (polynomials over opaque scalars; linear combinations of opaque
points).  Identities decided here hold in every commutative ring / module, hence in the curve's."""
import terms as TT
from terms import *
P25519 = 2 ** 255 - 19
G = mk('sym', 'G')
G_BYTES = B(bytes.fromhex('e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76'))

# ---- scalars: 'sc' ((coef, (factor, ...)), ...)
def sparts(t):
    if t.op == 'int': return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'sc': return {f: c for c, f in t.args[0]}
    return {(t,): 1}
def smk(d):
    d = {f: c for f, c in d.items() if c}
    if not d: return ZERO
    if len(d) == 1:
        f, c = next(iter(d.items()))
        if c == 1 and len(f) == 1: return f[0]
        if f == (): return I(c)
    return mk('sc', tuple(sorted(((c, f) for f, c in d.items()), key=lambda x: (len(x[1]), tuple(y.id for y in x[1]), x[0]))))
def sadd(a, b, k=1):
    d = dict(sparts(a))
    for f, c in sparts(b).items(): d[f] = d.get(f, 0) + k * c
    return smk(d)
def smul(a, b):
    d = {}
    for f, c in sparts(a).items():
        for g, e in sparts(b).items():
            h = tuple(sorted(f + g)); d[h] = d.get(h, 0) + c * e
    return smk(d)
def sneg(a): return sadd(ZERO, a, -1)
# ---- points: 'pt' ((base, scalar), ...)
def pparts(t):
    if t.op == 'pt': return dict(t.args[0])
    return {t: ONE}
def pmk(d):
    d = {b: s for b, s in d.items() if s is not ZERO}
    if len(d) == 1:
        b, s = next(iter(d.items()))
        if s is ONE: return b
    return mk('pt', tuple(sorted(d.items(), key=lambda x: x[0].id)))
IDENT = pmk({})
def padd(a, b, k=1):
    d = dict(pparts(a))
    for x, s in pparts(b).items(): d[x] = sadd(d.get(x, ZERO), s, k)
    return pmk(d)
def pmul(s, p): return pmk({b: smul(s, c) for b, c in pparts(p).items()})
def pteq(a, b):
    """a == b as group elements"""
    d = padd(a, b, -1)
    if d is IDENT: return TRUE
    e = padd(IDENT, d, -1)
    return mk('pteq', min(d, e, key=lambda x: x.id))
def compress(p):
    if p is G: return G_BYTES
    if p is IDENT: return B(bytes(32))
    if p.op == 'ptdec': return p.args[0]
    r = mk('cmp', p); HINT[r] = ('len', 32); return r
def decode(b):
    """(point, condition under which the bytes decode)"""
    if b.op == 'cmp': return b.args[0], TRUE
    if b is G_BYTES: return G, TRUE
    if b.op in ('bytes', 'zeros') and (b.op == 'zeros' or not any(b.args[0])): return IDENT, TRUE
    return mk('ptdec', b), mk('ondec', b)
def scbytes(s):
    if s.op == 'scdec': return s.args[0]
    r = mk('scbytes', s); HINT[r] = ('len', 32); return r
def scdecode(b):
    if b.op == 'scbytes': return b.args[0], TRUE
    return mk('scdec', b), mk('canon', b)
def basepoint_limbs(t):
    """is this constant aggregate the ed25519/ristretto base point in radix-2^51 projective coordinates?"""
    if t.op != 'agg' or not t.args[0].endswith('RistrettoPoint'): return False
    by = 4 * pow(5, -1, P25519) % P25519
    bx = int('216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a', 16)
    def flat(x):
        if x.op == 'int': return [x.args[0]]
        return [y for z in x.args if isinstance(z, T) for y in flat(z)]
    v = flat(t)
    if len(v) != 20: return False
    c = [sum(l << (51 * i) for i, l in enumerate(v[k:k + 5])) % P25519 for k in (0, 5, 10, 15)]
    return c == [bx, by, 1, bx * by % P25519]
BOOLOPS |= {'pteq', 'ondec', 'canon'}
def eqcmp(a, b):
    if a.op == 'cmp' and b.op == 'cmp': return pteq(a.args[0], b.args[0])
    x, y = (a, b) if a.op == 'cmp' else (b, a)
    if x.op == 'cmp' and y.op in ('bytes', 'zeros'):
        q, c = decode(y)
        if c is TRUE: return pteq(x.args[0], q)
    return None
TT.EQHOOK.append(eqcmp)
