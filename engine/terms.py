"""Value-number terms (hash-consed).  A term denotes an immutable value; the abstract domain
of the analysis is: memory cells -> terms, plus facts (guards known on every path merged here).
Nothing is solved and nothing is executed: two values are identified when their normal forms are
the same node."""
import math

class T:
    __slots__ = ('op', 'args', 'id', '_h', '_s')
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id
    def __repr__(self): return show(self)
    def __reduce__(self): raise TypeError

_tab = {}
def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; t.id = len(_tab); t._h = hash((op, t.id)); t._s = None
        _tab[k] = t
    return t

HINT = {}      # opaque int term -> (signed, bits)
LAYOUT = {}    # struct path -> {field: (offset, tydesc)}, '' -> size

def show(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '(' + ','.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0: return '…'
    o, a = t.op, t.args
    if o == 'int': return str(a[0])
    if o == 'bytes':
        b = a[0]
        try:
            s = b.decode('ascii')
            if s.isprintable() and s: return 'b"%s"' % s
        except UnicodeDecodeError: pass
        return 'x' + (b.hex() if len(b) <= 12 else b[:6].hex() + '..%d' % len(b))
    if o == 'lin':
        s = []
        for x, c in a[1]:
            s.append(('%s' if c == 1 else '-%s' if c == -1 else str(c) + '*%s') % show(x, depth - 1))
        if a[0]: s.append(str(a[0]))
        return '(' + ' + '.join(s) + ')'
    if o == 'agg':
        n = a[0].split('::')[-1] + ('::' + a[1] if a[1] else '')
        return n + '{' + ', '.join(show(x, depth - 1) for x in a[2:]) + '}'
    if o == 'fld': return show(a[0], depth) + '.' + str(a[1])
    if o == 'deref': return '*' + show(a[0], depth)
    if o == 'idx': return '%s[%s]' % (show(a[0], depth - 1), show(a[1], depth - 1))
    if o == 'sub': return '%s[%s..%s]' % tuple(show(x, depth - 1) for x in a)
    if o == 'sym': return str(a[0])
    if o == 'call': return a[0].split('<')[0].split('::')[-1] + '(' + ', '.join(show(x, depth - 1) for x in a[1:] if not (isinstance(x, tuple) and x[:1] == ('site',))) + ')'
    return o + '(' + ', '.join(show(x, depth - 1) for x in a) + ')'

# ---------------------------------------------------------------- integers
def I(n): return mk('int', n)
ZERO, ONE = I(0), I(1)
TRUE, FALSE = ONE, ZERO
def isint(t): return t.op == 'int'

def lin_parts(t):
    if t.op == 'int': return t.args[0], ()
    if t.op == 'lin': return t.args
    return 0, ((t, 1),)
def mklin(c, parts):
    parts = tuple(sorted(((x, k) for x, k in parts if k), key=lambda p: p[0].id))
    if not parts: return I(c)
    if c == 0 and len(parts) == 1 and parts[0][1] == 1: return parts[0][0]
    return mk('lin', c, parts)
def add(a, b, kb=1):
    ca, pa = lin_parts(a); cb, pb = lin_parts(b)
    d = dict(pa)
    for x, k in pb: d[x] = d.get(x, 0) + kb * k
    return mklin(ca + kb * cb, d.items())
def subt(a, b): return add(a, b, -1)
def mul(a, b):
    if b.op == 'int': a, b = b, a
    if a.op == 'int':
        k = a.args[0]; c, p = lin_parts(b)
        return mklin(c * k, [(x, y * k) for x, y in p])
    if b.id < a.id: a, b = b, a
    return mk('mul', a, b)

def canon_sign(parts):  # True if the leading coefficient is positive
    return parts[0][1] > 0

def pos(d):
    """atom d > 0 (returned as a boolean term, maybe negated)"""
    c, p = lin_parts(d)
    if not p: return TRUE if c > 0 else FALSE
    g = 0
    for _, k in p: g = math.gcd(g, k)
    if g > 1:          # sum > -c  <=>  sum/g > floor(-c/g)
        c = -((-c) // g); p = tuple((x, k // g) for x, k in p)
    if len(p) == 1 and p[0][1] == 1 and p[0][0].op == 'satsub' and c <= 0:
        a, b = p[0][0].args
        return pos(add(subt(a, b), I(c)))
    if c == 0 and len(p) == 1 and p[0][1] == 1 and p[0][0].op in ('cnt', 'orall'): return p[0][0].args[0]
    if c == 0 and len(p) == 1 and p[0][1] == 1 and p[0][0].op == 'bitor' and all(nonneg(x) for x in p[0][0].args): return or_(*[pos(x) for x in p[0][0].args])
    if canon_sign(p): return mk('pos', mklin(c, p))
    return not_(pos(mklin(1 - c, [(x, -k) for x, k in p])))
def eqz(d):
    c, p = lin_parts(d)
    if not p: return TRUE if c == 0 else FALSE
    g = 0
    for _, k in p: g = math.gcd(g, k)
    if g > 1:
        if c % g: return FALSE
        c //= g; p = tuple((x, k // g) for x, k in p)
    if not canon_sign(p): c = -c; p = tuple((x, -k) for x, k in p)
    if c == 0 and len(p) == 1 and nonneg(p[0][0]):
        return not_(pos(p[0][0]))
    if len(p) == 1 and p[0][1] == 1 and is_bool(p[0][0]):
        if c == -1: return p[0][0]
        if c == 0: return not_(p[0][0])
        return FALSE
    return mk('eqz', mklin(c, p))

PHILO = {}      # loop-carried integers that never drop below their initial constant
PHIHI = {}      # loop-carried integers that never exceed a threshold
RANGE = {}      # assumed intervals of input terms
GEN = [0]       # number of changes of PHILO / PHIHI; memo tables are only valid within one generation
TRMEMO = {}
def newgen(): GEN[0] += 1; TRMEMO.clear()
def trange(t):
    """interval of a single (non-linear) integer term"""
    r = TRMEMO.get(t)
    if r is None:
        r = trange_(t)
        if r[0] is not None: TRMEMO[t] = r
    return r
def trange_(t):
    o = t.op
    if t in RANGE: return RANGE[t]
    if o in ('len', 'satsub', 'size'): return 0, None
    if o == 'phi' and (t in PHILO or t in PHIHI): return PHILO.get(t), PHIHI.get(t)
    if o == 'align':                   # the largest multiple of n not above the argument
        lo, hi = linrange(t.args[0]); n = t.args[1]
        return None if lo is None else (lo - lo % n), hi
    if is_bool(t): return 0, 1
    if o == 'trunc':
        return 0, (1 << t.args[0]) - 1
    if o == 'rem' and isint(t.args[1]) and t.args[1].args[0] > 0 and nonneg(t.args[0]): return 0, t.args[1].args[0] - 1
    if o == 'div' and isint(t.args[1]) and t.args[1].args[0] > 0 and nonneg(t.args[0]):
        h = HINT.get(t.args[0]); return 0, None if not h else ((1 << h[1]) - 1) // t.args[1].args[0]
    if o == 'rd':
        k = t.args[2]
        if isinstance(k, str) and k[:1] == 'u' and k[1:].isdigit(): return 0, (1 << int(k[1:])) - 1
    if o == 'mul' and all(nonneg(x) for x in t.args): return 0, None
    h = HINT.get(t)
    if h and not h[0]: return 0, (1 << h[1]) - 1
    if h: return -(1 << (h[1] - 1)), (1 << (h[1] - 1)) - 1
    return None, None
def linrange(d):
    lo = hi = lin_parts(d)[0]
    for x, k in lin_parts(d)[1]:
        l, h = trange(x)
        if k < 0: l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi
def nonneg(t):
    if t.op == 'int': return t.args[0] >= 0
    if t.op == 'lin':
        return t.args[0] >= 0 and all(k > 0 and nonneg(x) for x, k in t.args[1])
    lo = trange(t)[0]
    return lo is not None and lo >= 0

BOOLOPS = {'pos', 'eqz', 'not', 'eqv', 'isvar', 'any', 'and', 'or', 'bool', 'contains', 'implies', 'has'}
BOOLTERMS = set()
def is_bool(t): return t.op in BOOLOPS or t in BOOLTERMS
def not_(b):
    if b.op == 'int': return I(1 - b.args[0])
    if b.op == 'not': return b.args[0]
    return mk('not', b)
def and_(*xs):
    out = []
    for x in xs:
        for y in (x.args if x.op == 'and' else (x,)):
            if y is FALSE: return FALSE
            if y is not TRUE and y not in out: out.append(y)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', *sorted(out))
def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))

# ---------------------------------------------------------------- aggregates
TRANSPARENT = {'solana_address::Address', 'solana_pubkey::Pubkey', 'solana_hash::Hash', 'solana_curve25519::ristretto::PodRistrettoPoint',
               'solana_curve25519::scalar::PodScalar', 'solana_curve25519::edwards::PodEdwardsPoint',
               'core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop',
               'core::mem::maybe_dangling::MaybeDangling', 'core::num::wrapping::Wrapping', 'core::cell::UnsafeCell', 'core::cell::RefCell',
               'core::cell::Cell', 'core::panic::unwind_safe::AssertUnwindSafe'}
def agg(tag, variant, *fs): return mk('agg', tag, variant, *fs)
OPT, RES = 'core::option::Option', 'core::result::Result'
def some(x): return agg(OPT, 'Some', x)
NONE = agg(OPT, 'None')
def ok(x): return agg(RES, 'Ok', x)
def err(x): return agg(RES, 'Err', x)
def tup(*xs): return agg('tuple', '', *xs)
UNIT = tup()
def arr(*xs):
    xs = tuple(xs)
    return mk('arr', *xs)
def norm_arr(xs, u8):
    if u8 and xs and all(x.op == 'int' and 0 <= x.args[0] <= 255 for x in xs):
        return mk('bytes', bytes(x.args[0] for x in xs))
    return mk('arr', *xs)
def B(b): return mk('bytes', bytes(b))
def ref(cell, proj=()): return mk('ref', cell, proj)

SIZES = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'u128': 16, 'i128': 16, 'usize': 8, 'isize': 8}
def tysize(d):
    if d in SIZES: return SIZES[d]
    if isinstance(d, tuple) and d[0] == 'array': return tysize(d[1]) * d[2]
    if isinstance(d, str) and d in LAYOUT: return LAYOUT[d]['']
    return None

def ln(x):
    o = x.op
    if o == 'bytes': return I(len(x.args[0]))
    if o == 'arr': return I(len(x.args))
    if o == 'sub': return subt(x.args[2], x.args[1])
    if o == 'cat':
        s = ZERO
        for p in x.args: s = add(s, ln(p))
        return s
    if o == 'map': return ln(x.args[0])
    if o in ('w', 'wi'): return ln(x.args[0])
    if o in ('zeros', 'resized', 'uninitn'): return x.args[-1]
    if o == 'concat' and x.args[0].op == 'map':
        b = ln(x.args[0].args[1])
        if isint(b): return mul(b, ln(x.args[0].args[0]))
    if o == 'rep': return x.args[1]
    if o in ('le', 'be'): return I(x.args[0])
    if o == 'range': return x.args[0]
    if o == 'pod':
        s = tysize(x.args[0]);
        if s is not None: return I(s)
        if isinstance(x.args[0], tuple) and x.args[0][0] == 'slice' and tysize(x.args[0][1]) is not None: return mul(I(tysize(x.args[0][1])), ln(x.args[1]))
    if o == 'q_rm' or o == 'q_add' or o == 'q_load': return ln(x.args[0])
    if o == 'rd' and isinstance(x.args[2], tuple) and x.args[2][0] == 'array': return I(x.args[2][2])
    if o == 'flat' : pass
    h = HINT.get(x)
    if h and h[0] == 'len': return I(h[1])
    return mk('len', x)

def cat(*ps):
    out = []
    for p in ps:
        if p.op == 'cat': q = p.args
        else: q = (p,)
        for x in q:
            if x.op in ('bytes',) and not x.args[0]: continue
            if x.op == 'arr' and not x.args: continue
            if out and out[-1].op == 'bytes' and x.op == 'bytes':
                out[-1] = B(out[-1].args[0] + x.args[0])
            elif out and out[-1].op in ('arr', 'bytes') and x.op in ('arr', 'bytes'):
                out[-1] = norm_arr(elems(out[-1]) + elems(x), out[-1].op == 'bytes' or x.op == 'bytes')
            else: out.append(x)
    if not out: return mk('arr')
    if len(out) == 1: return out[0]
    # adjacent subs of the same base
    r = [out[0]]
    for x in out[1:]:
        l = r[-1]
        if l.op == 'sub' and x.op == 'sub' and l.args[0] is x.args[0] and l.args[2] is x.args[1]:
            r[-1] = sub(l.args[0], l.args[1], x.args[2])
        else: r.append(x)
    return r[0] if len(r) == 1 else mk('cat', *r)

def elems(x):
    if x.op == 'arr': return tuple(x.args)
    if x.op == 'bytes': return tuple(I(b) for b in x.args[0])
    n = ln(x)
    if isint(n) and n.args[0] <= 256: return tuple(idx(x, I(i)) for i in range(n.args[0]))
    return None

def cmpc(a, b):
    """sign-comparable constants: returns a-b if constant"""
    d = subt(a, b)
    if isint(d): return d.args[0]
    lo, hi = linrange(d)                 # otherwise only a strict sign is reported
    if lo is not None and lo > 0: return lo
    if hi is not None and hi < 0: return hi
    return None

def ge(a, b):
    """a >= b for every value of the terms (None if undecided)"""
    d = subt(a, b)
    if isint(d): return d.args[0] >= 0
    lo, hi = linrange(d)
    if lo is not None and lo >= 0: return True
    if hi is not None and hi < 0: return False
    return None
def sub(x, s, e):
    if s is ZERO and e is ln(x): return x
    if s is e: return mk('arr')
    o = x.op
    if o == 'bytes' and isint(s) and isint(e):
        return B(x.args[0][s.args[0]:e.args[0]])
    if o == 'arr' and isint(s) and isint(e):
        return norm_arr(x.args[s.args[0]:e.args[0]], False)
    if o == 'sub': return sub(x.args[0], add(x.args[1], s), add(x.args[1], e))
    if o == 'zeros': return mk('zeros', subt(e, s))
    if o == 'rep': return mk('rep', x.args[0], subt(e, s))
    if o == 'cat':
        p = ZERO; out = []; state = 0
        for q in x.args:
            q2 = add(p, ln(q))
            cs, ce = cmpc(s, p), cmpc(e, q2)       # s-p , e-q2
            if state == 0:
                d = cmpc(s, q2)
                if d is not None and d >= 0: p = q2; continue
                if cs is None or cs < 0: return mk('sub', x, s, e)
                off = subt(s, p); state = 1
            else: off = ZERO
            if ce is None:
                # e relative to this part is symbolic: allowed only if e is the total end
                if e is ln(x): out.append(sub(q, off, ln(q))); p = q2; continue
                # e is the end of a later part?
                d2 = subt(e, q2)
                if nonneg(d2): out.append(sub(q, off, ln(q))); p = q2; continue
                return mk('sub', x, s, e)
            if ce <= 0: out.append(sub(q, off, subt(e, p))); return cat(*out)
            out.append(sub(q, off, ln(q))); p = q2
        if e is ln(x) and state: return cat(*out)
        return mk('sub', x, s, e)
    if o == 'w':
        D, off, size, kind, v = x.args
        if ge(s, add(off, size)) or ge(off, e): return sub(D, s, e)
        if s is off and e is add(off, size) and kind == 'bytes': return v
        cs, ce = cmpc(s, off), cmpc(e, add(off, size))
        if ge(s, off) and toend(x): return sub(v, subt(s, off), subt(e, off))
        if kind == 'bytes' and ge(s, off) and ge(add(off, size), e):
            return sub(v, subt(s, off), subt(e, off))
        if s is off and e is add(off, size): return mk('pod', kind, v)
        if kind != 'bytes' and cs is not None and ce is not None and cs >= 0 and ce <= 0 and isint(subt(e, s)):
            return rd(mk('pod', kind, v), subt(s, off), ('array', 'u8', subt(e, s).args[0]))
        # is the end of the write the end of the region? (s..end fully covers etc.) -- leave symbolic
        return mk('sub', x, s, e)
    if o == 'wi':
        D, k, v = x.args
        if ge(k, s) is False or ge(k, e): return sub(D, s, e)
        return mk('sub', x, s, e)
    if o == 'q_rm' or o == 'q_add': pass
    if o == 'pod' and isint(s) and isint(e):
        r = rd(x, s, ('array', 'u8', e.args[0] - s.args[0]))
        if r.op not in ('rd', 'sub'): return r
    return mk('sub', x, s, e)

def idx(x, i):
    o = x.op
    if isint(i):
        k = i.args[0]
        if o == 'bytes': return I(x.args[0][k]) if k < len(x.args[0]) else mk('oob', x, i)
        if o == 'arr': return x.args[k] if k < len(x.args) else mk('oob', x, i)
    if o == 'sub': return idx(x.args[0], add(x.args[1], i))
    if o == 'rep': return x.args[0]
    if o == 'zeros': return ZERO
    if o == 'map': return subst(x.args[1], x.args[2], i)
    if o == 'filt': return subst(x.args[1], x.args[2], mk('sel', x, i))
    if o in ('le',) and isint(i):
        if isint(x.args[1]): return I((x.args[1].args[0] >> (8 * i.args[0])) & 255)
    if o == 'pod':
        return rd(x, i, 'u8')
    if o == 'cat':
        p = ZERO
        for q in x.args:
            q2 = add(p, ln(q))
            a, b = cmpc(i, p), cmpc(i, q2)
            if a is not None and b is not None and a >= 0 and b < 0: return idx(q, subt(i, p))
            if b is not None and b >= 0: p = q2; continue
            if a is not None and a >= 0 and not isint(ln(q)): break
            p = q2
            if a is None: break
        return mk('idx', x, i)
    if o == 'wi':
        D, k, v = x.args
        if k is i: return v
        if cmpc(k, i) not in (None, 0): return idx(D, i)
    if o == 'w':
        D, off, size, kind, v = x.args
        a, b = cmpc(i, off), cmpc(i, add(off, size))
        if a is not None and a < 0 or ge(i, add(off, size)): return idx(D, i)
        if kind == 'bytes' and a is not None and (b is not None or toend(x) and a >= 0): return idx(v, subt(i, off))
        if a is not None and b is not None and kind != 'bytes':
            return rd(mk('pod', kind, v), subt(i, off), 'u8')
    return mk('idx', x, i)

def rd(D, off, ty):
    """read a value of type descriptor ty at byte offset off of byte string D"""
    if ty == 'u8':
        if D.op != 'pod':
            return idx(D, off) if D.op != 'w' else rd_w(D, off, ty)
    if D.op == 'sub': return rd(D.args[0], add(D.args[1], off), ty)
    if isinstance(ty, tuple) and ty[0] == 'array' and ty[1] == 'u8' and D.op != 'pod':
        n = I(ty[2])
        return sub(D, off, add(off, n))
    sz = tysize(ty)
    if D.op == 'q_load' and isint(off) and sz is not None and (off.args[0] + sz <= 4 or off.args[0] >= 8): return rd(D.args[0], off, ty)
    if D.op == 'q_rm' and off is ZERO and ty == 'u32': return mk('satsub', rd(D.args[0], off, ty), ONE)
    if D.op == 'q_add' and off is ZERO and ty == 'u32': return add(rd(D.args[0], off, ty), ONE)
    if D.op in ('q_rm', 'q_add') and isint(off) and sz is not None and off.args[0] >= 8 and off.args[0] + sz <= 12: return rd(D.args[0], off, ty)
    if D.op == 'pod':
        kty, v = D.args
        if ty == kty and off is ZERO: return v
        L = LAYOUT.get(kty) if isinstance(kty, str) else None
        if L and isint(off) and sz is not None:
            for f, (o, fty) in L.items_():
                fs = tysize(fty)
                if fs and o <= off.args[0] and off.args[0] + sz <= o + fs:
                    fv = fld(v, f)
                    if ty == fty and o == off.args[0]: return fv
                    if o == off.args[0] and fs == sz and isinstance(ty, tuple) and ty[0] == 'array' and ty[1] == 'u8' and HINT.get(fv) == ('len', sz): return fv
                    if isinstance(fty, tuple) and fty[0] == 'array' and fty[1] == 'u8':
                        return rd(fv, I(off.args[0] - o), ty)
                    return rd(mk('pod', fty, fv), I(off.args[0] - o), ty)
        if isinstance(kty, tuple) and kty[0] == 'array' and kty[1] == 'u8': return rd(v, off, ty)
        if kty == 'u8' and ty == 'u8': return v
        if kty in SIZES and kty[0] == 'u' and ty == 'u8' and isint(off): return idx(mk('le', SIZES[kty], v), off)
        return mk('rd', D, off, ty)
    if D.op == 'w': return rd_w(D, off, ty)
    if D.op == 'wi' and sz is not None:
        if ge(D.args[1], off) is False or ge(D.args[1], add(off, I(sz))): return rd(D.args[0], off, ty)
    if D.op == 'zeros' and ty in SIZES: return ZERO
    if ty in SIZES and ty[0] == 'u' and sz is not None:
        s = sub(D, off, add(off, I(sz)))
        if s.op == 'arr': s = recombine(s)
        if s.op == 'bytes': return I(int.from_bytes(s.args[0], 'little'))
        if s.op == 'le': return s.args[1]
        if s.op == 'sub' and s is not D and s.args[0] is not D: return mk('rd', s.args[0], s.args[1], ty)
        if s.op == 'pod' and s.args[0] == ty: return s.args[1]
        if s.op == 'zeros': return ZERO
    if D.op == 'cat' and sz is not None:
        s = sub(D, off, add(off, I(sz)))
        if s.op == 'pod': return rd(s, ZERO, ty)
        if s.op == 'sub' and s.args[0] is not D: return rd(s, ZERO, ty)
        p = ZERO
        for q in D.args:
            q2 = add(p, ln(q)); a, b = cmpc(off, p), cmpc(add(off, I(sz)), q2)
            if a is not None and b is not None and a >= 0 and b <= 0: return rd(q, subt(off, p), ty)
            p = q2
    return mk('rd', D, off, ty)

def recombine(a):
    """byte array given element by element -> the byte string it is a slice of"""
    xs = a.args
    if xs and all(isint(x) for x in xs): return B(bytes(x.args[0] & 255 for x in xs))
    if xs and all(x.op == 'idx' and x.args[0] is xs[0].args[0] for x in xs):
        b, s = xs[0].args
        if all(x.args[1] is add(s, I(j)) for j, x in enumerate(xs)): return sub(b, s, add(s, I(len(xs))))
    return a
def toend(x):
    """write reaching exactly the end of the region"""
    return x.args[3] == 'bytes' and add(x.args[1], x.args[2]) is ln(x.args[0])
def rd_w(x, off, ty):
    D, o2, size, kind, v = x.args
    sz = tysize(ty)
    if toend(x) and (cmpc(off, o2) or 0) >= 0 and cmpc(off, o2) is not None: return rd(v, subt(off, o2), ty)
    if o2 is off and kind == ty: return v
    if sz is not None:
        if ge(off, add(o2, size)) or ge(o2, add(off, I(sz))): return rd(D, off, ty)
        if ge(off, o2) and ge(add(o2, size), add(off, I(sz))):
            if kind == 'bytes': return rd(v, subt(off, o2), ty)
            return rd(mk('pod', kind, v), subt(off, o2), ty)
    if ty == 'u8' : return mk('idx', x, off)
    return mk('rd', x, off, ty)

def w_(D, off, size, kind, v):
    """byte string D with `size` bytes at `off` overwritten by v"""
    if D.op == 'w' and D.args[1] is off and D.args[2] is size: D = D.args[0]
    if kind == 'bytes' and v.op == 'w' and v.args[0] is sub(D, off, add(off, size)):
        return w_(D, add(off, v.args[1]), *v.args[2:])
    return mk('w', D, off, size, kind, v)
class LayoutDict(dict):
    def items_(self): return [(k, v) for k, v in self.items() if k != '']

def fld(t, name, i=None):
    """field `name` (index i) of a struct/tuple value"""
    o = t.op
    if o == 'agg':
        if i is None:
            L = FIELDS.get((t.args[0], t.args[1]))
            if L is None: return mk('fld', t, name)
            i = L.index(name)
        if i + 2 < len(t.args): return t.args[i + 2]
        return mk('fld', t, name)
    if o == 'upd':
        b, n, v = t.args
        return v if n == name else fld(b, name, i)
    if o == 'rd':
        L = LAYOUT.get(t.args[2]) if isinstance(t.args[2], str) else None
        if L and name in L:
            off, ty = L[name]
            return rd(t.args[0], add(t.args[1], I(off)), ty)
    return mk('fld', t, name)
FIELDS = {}    # (adt path, variant) -> [field names]

def setfld(t, name, i, v):
    if t.op == 'agg' and i is not None and i + 2 < len(t.args):
        a = list(t.args); a[i + 2] = v
        return mk('agg', *a)
    if t.op == 'upd' and t.args[1] == name: return mk('upd', t.args[0], name, v)
    L = LAYOUT.get(t.args[2]) if t.op == 'rd' and isinstance(t.args[2], str) else None
    return mk('upd', t, name, v)

def as_(t, variant):
    """downcast: the payload pseudo-struct of variant"""
    if t.op == 'agg': return t
    return mk('as', t, variant)

EQHOOK = []
def eqv(a, b, depth=0):
    if a is b: return TRUE
    if a.op == 'cmp' or b.op == 'cmp':
        for h in EQHOOK:
            r = h(a, b)
            if r is not None: return r
    if a.op == 'bytes' and b.op == 'bytes': return FALSE
    if a.op == 'zeros' and isint(a.args[0]): a = B(bytes(a.args[0].args[0]))
    if b.op == 'zeros' and isint(b.args[0]): b = B(bytes(b.args[0].args[0]))
    if a is b: return TRUE
    if a.op == 'int' and b.op == 'int': return FALSE
    if a.op == 'agg' and b.op == 'agg':
        if a.args[0] == b.args[0]:
            if a.args[1] != b.args[1]: return FALSE
            if len(a.args) == len(b.args) and depth < 4:
                return and_(*[eqv(x, y, depth + 1) for x, y in zip(a.args[2:], b.args[2:])])
    if a.op in ('arr', 'bytes') and b.op in ('arr', 'bytes'):
        x, y = elems(a), elems(b)
        if len(x) != len(y): return FALSE
        return and_(*[eqi(p, q) for p, q in zip(x, y)])
    if a.op == 'agg' and len(a.args) == 2 or b.op == 'agg' and len(b.args) == 2:   # unit variant
        u, v = (a, b) if a.op == 'agg' and len(a.args) == 2 else (b, a)
        if u.args[1]: return isvar(v, u.args[1])
    if b.id < a.id: a, b = b, a
    return mk('eqv', a, b)
def eqi(a, b):
    if a.op in ('int', 'lin') or b.op in ('int', 'lin'): return eqz(subt(a, b))
    return eqv(a, b)

def isvar(t, name):
    if t.op == 'agg': return TRUE if t.args[1] == name else FALSE
    if t.op == 'ment' and name in ('Occupied', 'Vacant'): return has(t.args[0], t.args[1]) if name == 'Occupied' else not_(has(t.args[0], t.args[1]))
    return mk('isvar', t, name)

# maps: mapnew, mapset(m, k, v), mapdel(m, k) over opaque maps
def samekey(a, b):
    if a is b: return True
    r = eqv(a, b)
    return True if r is TRUE else False if r is FALSE else None
def mapset(m, k, v):
    if m.op in ('mapset', 'mapdel') and m.args[1] is k: m = m.args[0]
    return mk('mapset', m, k, v)
def mapdel(m, k):
    if m.op == 'mapset' and m.args[1] is k: return mapdel(m.args[0], k)
    if m.op == 'mapnew': return m
    return mk('mapdel', m, k)
def mapget(m, k):
    x = m
    while x.op in ('mapset', 'mapdel'):
        r = samekey(x.args[1], k)
        if r is None: break
        if r: return x.args[2] if x.op == 'mapset' else mk('mapget', m, k)
        x = x.args[0]
    return mk('mapget', x, k)
def has(m, k):
    x = m
    while x.op in ('mapset', 'mapdel'):
        r = samekey(x.args[1], k)
        if r is None: break
        if r: return TRUE if x.op == 'mapset' else FALSE
        x = x.args[0]
    if x.op == 'mapnew': return FALSE
    if x.op == 'mapof': return or_(has(x.args[0], k), MEMBER[0](x.args[1], k))
    return mk('has', x, k)
MEMBER = [None]        # the term for membership in a list

def subst(t, old, new, memo=None):
    """replace every occurrence of term `old` in t by `new`, renormalising"""
    if memo is None: memo = {}
    if t is old: return new
    if not isinstance(t, T): 
        if isinstance(t, tuple): return tuple(subst(x, old, new, memo) for x in t)
        return t
    if t in memo: return memo[t]
    a2 = tuple(subst(x, old, new, memo) if isinstance(x, (T, tuple)) else x for x in t.args)
    r = t if a2 == t.args else rebuild(t.op, a2)
    memo[t] = r
    return r
def substm(t, m):
    memo = {}
    def go(t):
        if isinstance(t, tuple): return tuple(go(x) for x in t)
        if not isinstance(t, T): return t
        if t in m: return m[t]
        if t in memo: return memo[t]
        a2 = tuple(go(x) for x in t.args)
        r = t if a2 == t.args else rebuild(t.op, a2)
        memo[t] = r
        return r
    return go(t)
def rebuild(op, a):
    if op == 'lin':
        r = I(a[0])
        for x, k in a[1]: r = add(r, x, k)
        return r
    if op == 'mul': return mul(*a)
    if op == 'pos': return pos(a[0])
    if op == 'eqz': return eqz(a[0])
    if op == 'not': return not_(a[0])
    if op == 'and': return and_(*a)
    if op == 'eqv': return eqv(*a)
    if op == 'fld': return fld(*a)
    if op == 'idx': return idx(*a)
    if op == 'sub': return sub(*a)
    if op == 'rd': return rd(*a)
    if op == 'len': return ln(*a)
    if op == 'cat': return cat(*a)
    if op == 'isvar': return isvar(*a)
    if op == 'as': return as_(*a)
    if op == 'w': return w_(*a)
    if op == 'mapget': return mapget(*a)
    if op == 'mapset': return mapset(*a)
    if op == 'mapdel': return mapdel(*a)
    if op == 'has': return has(*a)
    t = mk(op, *a)
    return t

def occurs(x, t, memo=None):
    """does term x occur in t"""
    st = [t]; seen = set()
    while st:
        u = st.pop()
        if u is x: return True
        if isinstance(u, T):
            if u in seen: continue
            seen.add(u); st.extend(u.args)
        elif isinstance(u, tuple): st.extend(u)
    return False
def walk(t):
    st = [t]; seen = set()
    while st:
        u = st.pop()
        if isinstance(u, T):
            if u in seen: continue
            seen.add(u); yield u; st.extend(u.args)
        elif isinstance(u, tuple): st.extend(u)
def find(t, pred): return [u for u in walk(t) if pred(u)]
