"""Transfer functions of library operations (everything that is not part of the workspace)."""
import terms as TT
from terms import *
import core as C

TABLE = {}
def prim(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d
WS = {'ephemeral_vrf', 'ephemeral_vrf_api', 'ephemeral_vrf_program', 'ephemeral_vrf_sdk', 'ephemeral_vrf_sdk_vrf_macro', 'vrf_oracle', 'vrf_cli'}

def lookup(eng, i, name, args):
    inf = eng.insts[i]
    if inf['crate'] in WS: return None
    h = TABLE.get(name)
    if h is None:
        h = TABLE.get(C.canon(inf['path']))
    if h is None and eng.offchain:
        import prims_off
        h = prims_off.lookup(eng, i, name, args)
    return h
def on_drop(eng, st, v, tyid):
    import prims_off
    prims_off.on_drop(eng, st, v, tyid)

def ret(v, st): return [C.Out('ret', v, st)]
def panic(why, st): return C.Out('panic', mk('panic', why), st)
def selfty(eng, i):
    t = eng.insts[i].get('st')
    return eng.types[t] if t is not None else None
def ttas(eng, i):
    """type arguments of the implemented trait, Self first"""
    return [eng.types[x] if x is not None else None for x in eng.insts[i].get('ta') or []]
def marg(eng, i, j=0):
    t = eng.insts[i].get('ma') or []
    return eng.types[t[j]] if j < len(t) and t[j] is not None else None
def targ(eng, i, j=0):
    t = eng.insts[i].get('targs') or []
    return eng.types[t[j]] if j < len(t) else None
def deref_all(eng, st, v):
    n = 0
    while v.op in ('ref', 'guard') and n < 8: v = eng.loadref(st, v); n += 1
    return v
def content(eng, st, v):
    """value behind a reference (or the value itself when it is not a pointer)"""
    return eng.loadref(st, v)
def sval(eng, st, v):
    x = eng.val(st, v)
    while x.op == '&': x = x.args[0]
    return x
def strip(x):
    while x.op == '&': x = x.args[0]
    return x

# ---------------------------------------------------------------- identity-like
def ident(eng, st, a, i, d, t): return ret(a[0], st)
for n in ['core::convert::identity', 'core::hint::must_use', 'core::hint::black_box', 'solana_address::Address::new_from_array', 'core::pin::Pin::new', 'core::pin::Pin::new_unchecked',
          'core::pin::Pin::get_unchecked_mut', 'core::pin::Pin::get_mut', 'core::pin::Pin::as_mut',
          'solana_hash::Hash::new_from_array', 'solana_hash::Hash::new', 'alloc::vec::Vec::into_boxed_slice', 'alloc::slice::into_vec', 'alloc::string::String::into_bytes',
          'alloc::string::String::from_utf8_lossy', 'alloc::vec::Vec::from_raw_parts_in', 'alloc::boxed::Box::new', 'alloc::boxed::Box::pin', 'alloc::boxed::Box::into_pin', 'core::mem::manually_drop::ManuallyDrop::new',
          'alloc::vec::Vec::into_iter_raw', 'solana_pubkey::Pubkey::new_from_array', 'core::num::get']:
    TABLE[n] = ident
# Box::new: Box values are pointers to a heap cell
def boxnew(eng, st, a, i, d, t): return ret(eng.newcell(st, a[0]), st)
for n in ['alloc::boxed::Box::new', 'alloc::boxed::Box::pin']: TABLE[n] = boxnew
@prim('solana_address::Address::to_bytes', 'solana_hash::Hash::to_bytes', 'solana_pubkey::Pubkey::to_bytes')
def _(eng, st, a, i, d, t):
    v = a[0]
    return ret(content(eng, st, v) if v.op in ('ref', 'guard') or isref_sig(eng, i, 0) else v, st)
def isref_sig(eng, i, j):
    sg = eng.insts[i].get('sig')
    if not sg or j >= len(sg): return False
    s = sg[j]
    if isinstance(s, str): return s.startswith('&')
    return eng.types[s]['k'] in ('ref', 'ptr')
@prim('core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'core::convert::AsMut::as_mut', 'core::borrow::BorrowMut::borrow_mut')
def _(eng, st, a, i, d, t):
    return ret(autoderef(eng, st, a[0], selfty(eng, i)), st)
def autoderef(eng, st, r, ty):
    """&Vec<T>/&String/&[T;N]/&Address/&AccountInfo -> pointer to the same contents; &Box/&Rc/&&T -> the pointer"""
    if ty is None: return r
    if ty['k'] in ('ref', 'ptr') or ty['k'] == 'adt' and ty['path'] in ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc', 'core::pin::Pin', 'alloc::rcs::rc::Rc', 'alloc::rcs::arc::Arc'):
        return content(eng, st, r)
    return r
@prim('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def _(eng, st, a, i, d, t):
    ty = selfty(eng, i); r = a[0]
    if ty and ty['k'] == 'adt':
        p = ty['path']
        if p in ('core::cell::RefMut', 'core::cell::Ref') or p.endswith('MutexGuard') or p.endswith('RwLockReadGuard') or p.endswith('RwLockWriteGuard'):
            g = content(eng, st, r)
            return ret(g.args[0] if g.op == 'guard' else g, st)
        if p in ('alloc::vec::Vec', 'alloc::string::String', 'alloc::borrow::Cow', 'std::path::PathBuf'): return ret(r, st)
        if p in ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc', 'core::pin::Pin') or p.startswith('alloc::rcs'): return ret(content(eng, st, r), st)
        if p in C.PTRLIKE: return ret(content(eng, st, r), st)
    if ty and ty['k'] in ('ref', 'ptr'): return ret(content(eng, st, r), st)
    return None
@prim('alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice', 'alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'core::str::as_bytes', 'core::array::as_slice', 'core::array::as_mut_slice',
      'alloc::string::String::as_mut_str', 'core::slice::as_slice', 'core::array::each_ref')
def _(eng, st, a, i, d, t): return ret(a[0], st)
@prim('alloc::vec::into_iter::IntoIter::as_slice', 'core::slice::iter::Iter::as_slice')
def _(eng, st, a, i, d, t):
    it = content(eng, st, a[0])
    if it.op == 'it' and it.args[0] == 'val': return ret(eng.newcell(st, sub(it.args[1], it.args[2], it.args[3])), st)
    if it.op == 'it' and it.args[0] == 'slice': return ret(eng.subref(it.args[1], ('ss', it.args[2], it.args[3])), st)
    return None
@prim('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'alloc::slice::to_vec', 'core::iter::traits::iterator::Iterator::by_ref_clone', 'alloc::string::ToString::to_string')
def _(eng, st, a, i, d, t):
    ty = selfty(eng, i)
    name = eng.names[i]
    if name.endswith('to_string'):
        if ty and (ty['k'] == 'str' or ty['k'] == 'adt' and ty['path'] in ('alloc::string::String',)): return ret(content(eng, st, a[0]), st)
        return None
    return ret(content(eng, st, a[0]), st)

@prim('core::convert::From::from', 'core::convert::Into::into')
def _(eng, st, a, i, d, t):
    ts = ttas(eng, i)
    if len(ts) < 2 or ts[0] is None or ts[1] is None: return None
    dst, src = (ts[0], ts[1]) if eng.names[i].endswith('from') else (ts[1], ts[0])
    if dst['s'] == src['s']: return ret(a[0], st)
    v = a[0]
    def conty(x): return x['k'] == 'adt' and x['path'] in ('alloc::vec::Vec', 'alloc::string::String') or x['k'] in ('array', 'slice', 'str')
    if dst['k'] in ('uint', 'int') and src['k'] in ('uint', 'int', 'bool', 'char'): return ret(v, st)
    if conty(dst):
        if src['k'] in ('ref',) and conty(eng.types[src['to']]): return ret(content(eng, st, v), st)
        if conty(src): return ret(v, st)
    if dst['k'] == 'adt' and dst['path'] in TRANSPARENT and src['k'] in ('array',): return ret(v, st)
    if src['k'] == 'adt' and src['path'] in TRANSPARENT and dst['k'] in ('array',): return ret(v, st)
    if dst['k'] == 'adt' and dst['path'] == OPT and src['s'] == eng.types[dst['args'][0]]['s']: return ret(some(v), st)
    if dst['k'] == 'adt' and dst['path'] in ('alloc::boxed::Box', 'alloc::sync::Arc', 'alloc::rc::Rc') and src['s'] == eng.types[dst['args'][0]]['s']: return ret(eng.newcell(st, v), st)
    return None
@prim('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def _(eng, st, a, i, d, t):
    """only slice -> array and integer conversions"""
    ts = ttas(eng, i)
    if len(ts) < 2 or ts[0] is None or ts[1] is None: return None
    dst, src = (ts[0], ts[1]) if eng.names[i].endswith('from') else (ts[1], ts[0])
    v = a[0]
    isref = dst['k'] == 'ref'
    D = eng.types[dst['to']] if isref else dst
    if D['k'] == 'array':
        if src['k'] == 'ref': c = content(eng, st, v)
        else: c = v
        n = D.get('len')
        if n is None: return None
        out = []
        for r, s in eng.fork(st, eqz(subt(ln(c), I(n)))):
            if r: out += ret(ok(v if isref else fixlen(c, n)), s)
            else: out += ret(err(mk('const', 'TryFromSliceError')), s)
        return out
    if D['k'] in ('uint', 'int') and src['k'] in ('uint', 'int'):
        b = D['size'] * 8
        lo, hi = (0, (1 << b) - 1) if D['k'] == 'uint' else (-(1 << b - 1), (1 << b - 1) - 1)
        out = []
        cond = and_(not_(pos(subt(v, I(hi)))), not_(pos(subt(I(lo), v))))
        for r, s in eng.fork(st, cond):
            out += ret(ok(v), s) if r else ret(err(mk('const', 'TryFromIntError')), s)
        return out
    if src['k'] == 'adt' and src['path'] in ('alloc::vec::Vec',) and D['k'] == 'array': return None
    return None
def fixlen(c, n):
    if c.op in ('fld', 'idx', 'deref', 'sym', 'call', 'ok', 'phi', 'as', 'rd', 'const') and c not in HINT: pass
    return c

# ---------------------------------------------------------------- equality / ordering
def eqdeep(eng, st, a):
    return eqv(eng.byref(st, a[0], None), eng.byref(st, a[1], None))
def simple_eq(ty, eng):
    """types whose PartialEq is structural equality of the value"""
    if ty is None: return False
    k = ty['k']
    if k in ('uint', 'int', 'bool', 'char', 'str'): return True
    if k in ('array', 'slice'): return simple_eq(eng.types[ty['to']], eng)
    if k == 'ref': return simple_eq(eng.types[ty['to']], eng)
    if k == 'tuple': return all(simple_eq(eng.types[x], eng) for x in ty['elems'])
    if k == 'adt':
        if ty['path'].split('::')[0] in WS: return False
        if ty['path'] in (OPT, RES, 'alloc::vec::Vec', 'alloc::boxed::Box', 'alloc::borrow::Cow', 'alloc::sync::Arc'): return all(simple_eq(eng.types[x], eng) or eng.types[x]['s'].endswith('Global') for x in ty['args'])
        return True
    return False
@prim('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def _(eng, st, a, i, d, t):
    ts = ttas(eng, i)
    if not ts or not all(simple_eq(x, eng) for x in ts): return None
    x, y = eng.byref(st, a[0], ts[0]), eng.byref(st, a[1], ts[1] if len(ts) > 1 else ts[0])
    ty = ts[0]
    while ty['k'] == 'ref': ty = eng.types[ty['to']]
    if ty['k'] in ('uint', 'int', 'char'): e = eqz(subt(x, y))
    elif ty['k'] == 'bool': e = boolfix(eqv(x, y))
    else: e = eqv(x, y)
    return ret(e if eng.names[i].endswith('eq') else not_(e), st)
def boolfix(e): return e
@prim('core::intrinsics::raw_eq')
def _(eng, st, a, i, d, t): return ret(eqdeep(eng, st, a), st)
def cmpop(op):
    def f(eng, st, a, i, d, t):
        ty = ty0 = selfty(eng, i)
        while ty is not None and ty['k'] == 'ref': ty = eng.types[ty['to']]
        if ty is None or ty['k'] not in ('uint', 'int', 'char'): return None
        x, y = eng.byref(st, a[0], ty0), eng.byref(st, a[1], ty0)
        r = {'lt': lambda: pos(subt(y, x)), 'gt': lambda: pos(subt(x, y)), 'le': lambda: not_(pos(subt(x, y))), 'ge': lambda: not_(pos(subt(y, x)))}[op]()
        return ret(r, st)
    return f
for o in ('lt', 'gt', 'le', 'ge'): TABLE['core::cmp::PartialOrd::' + o] = cmpop(o)
@prim('core::cmp::Ord::min', 'core::cmp::Ord::max', 'core::cmp::min', 'core::cmp::max')
def _(eng, st, a, i, d, t):
    ty = selfty(eng, i)
    if ty is None or ty['k'] not in ('uint', 'int'): return None
    out = []
    for r, s in eng.fork(st, pos(subt(a[0], a[1]))):      # a > b
        mn = eng.names[i].endswith('min')
        out += ret((a[1] if r else a[0]) if mn else (a[0] if r else a[1]), s)
    return out
ORDG = 'core::cmp::Ordering'
def ordv(n): return agg(ORDG, n)
@prim('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp')
def _(eng, st, a, i, d, t):
    ty = ty0 = selfty(eng, i)
    while ty is not None and ty['k'] == 'ref': ty = eng.types[ty['to']]
    if ty is None or ty['k'] not in ('uint', 'int', 'char'): return None
    x, y = eng.byref(st, a[0], ty0), eng.byref(st, a[1], ty0)
    w = some if eng.names[i].endswith('partial_cmp') else (lambda v: v)
    out = []
    for r, s in eng.fork(st, pos(subt(x, y))):
        if r: out += ret(w(ordv('Greater')), s); continue
        for r2, s2 in eng.fork(s, pos(subt(y, x))): out += ret(w(ordv('Less' if r2 else 'Equal')), s2)
    return out
ORDIS = {'is_lt': 'Less', 'is_gt': 'Greater', 'is_eq': 'Equal', 'is_le': 'Less Equal', 'is_ge': 'Greater Equal', 'is_ne': 'Less Greater'}
@prim(*['core::cmp::Ordering::' + k for k in list(ORDIS) + ['reverse', 'then']])
def _(eng, st, a, i, d, t):
    v = a[0]
    if v.op != 'agg' or v.args[0] != ORDG: return None
    n = eng.names[i].split('::')[-1]; k = v.args[1]
    if n == 'reverse': return ret(ordv({'Less': 'Greater', 'Greater': 'Less'}.get(k, k)), st)
    if n == 'then': return ret(a[1] if k == 'Equal' else v, st)
    return ret(TRUE if k in ORDIS[n].split() else FALSE, st)
@prim('core::cmp::Ord::clamp')
def _(eng, st, a, i, d, t):
    out = []
    for r, s in eng.fork(st, pos(subt(a[1], a[0]))):
        if r: out += ret(a[1], s); continue
        for r2, s2 in eng.fork(s, pos(subt(a[0], a[2]))): out += ret(a[2] if r2 else a[0], s2)
    return out

# ---------------------------------------------------------------- integers
def intty(eng, i):
    """(signed, bits) of core::num::<impl uN>::op or of the first type argument of an intrinsic"""
    p = eng.insts[i]['path']
    import re
    m = re.search(r'<impl ([iu])(\d+|size)>', p)
    if m: return m.group(1) == 'i', 64 if m.group(2) == 'size' else int(m.group(2))
    ty = targ(eng, i)
    if ty is not None and ty['k'] in ('uint', 'int'): return ty['k'] == 'int', ty['size'] * 8
    return False, 64
def rng(signed, bits): return (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
def satsub(st, a, b):
    lo, hi = st.bounds(subt(a, b))
    if lo is not None and lo >= 0: return subt(a, b)
    if hi is not None and hi <= 0: return ZERO
    if st.decide(pos(subt(b, a))) is False: return subt(a, b)
    t = mk('satsub', a, b)
    return t
@prim('core::num::saturating_sub', 'core::intrinsics::saturating_sub')
def _(eng, st, a, i, d, t):
    s, b = intty(eng, i)
    return ret(subt(a[0], a[1]) if s else satsub(st, a[0], a[1]), st)
@prim('core::num::saturating_add', 'core::intrinsics::saturating_add', 'core::num::strict_add', 'core::num::unchecked_add', 'core::intrinsics::unchecked_add')
def _(eng, st, a, i, d, t): return ret(add(a[0], a[1]), st)
@prim('core::num::saturating_mul', 'core::num::strict_mul', 'core::num::unchecked_mul')
def _(eng, st, a, i, d, t): return ret(mul(a[0], a[1]), st)
def wrapping(op):
    def f(eng, st, a, i, d, t):
        s, b = intty(eng, i)
        base = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'shl': 'Shl', 'shr': 'Shr'}[op]
        v = eng.arith(st, base, a[0], a[1], s, b, '')
        lo, hi = st.bounds(v); mn, mx = rng(s, b)
        if lo is not None and hi is not None and lo >= mn and hi <= mx: return ret(v, st)
        w = mk('wrap', b if not s else -b, v); HINT[w] = (s, b)
        return ret(w, st)
    return f
for o in ('add', 'sub', 'mul', 'shl', 'shr'):
    TABLE['core::num::wrapping_' + o] = TABLE['core::intrinsics::wrapping_' + o] = wrapping(o)
def checked(op):
    def f(eng, st, a, i, d, t):
        s, b = intty(eng, i); mn, mx = rng(s, b)
        if op in ('div', 'rem'):
            out = []
            for r, q in eng.fork(st, eqz(a[1])):
                out += ret(NONE if r else some(eng.arith(q, 'Div' if op == 'div' else 'Rem', a[0], a[1], s, b, '')), q)
            return out
        v = {'add': add, 'sub': subt, 'mul': mul}[op](a[0], a[1])
        if op == 'sub' and not s: bad = pos(subt(a[1], a[0]))
        else:
            lo, hi = st.bounds(v)
            if lo is not None and hi is not None and lo >= mn and hi <= mx: bad = FALSE
            elif isint(v): bad = TRUE
            else: bad = mk('bool', 'ovf', op.capitalize(), a[0], a[1], b)
        out = []
        for r, q in eng.fork(st, bad): out += ret(NONE if r else some(v), q)
        return out
    return f
for o in ('add', 'sub', 'mul', 'div', 'rem'): TABLE['core::num::checked_' + o] = checked(o)
def overflowing(op):
    def f(eng, st, a, i, d, t):
        s, b = intty(eng, i)
        v = {'add': add, 'sub': subt, 'mul': mul}[op](a[0], a[1])
        bad = pos(subt(a[1], a[0])) if op == 'sub' and not s else mk('bool', 'ovf', op.capitalize(), a[0], a[1], b)
        return ret(tup(v, bad), st)
    return f
for o in ('add', 'sub', 'mul'):
    TABLE['core::num::overflowing_' + o] = overflowing(o); TABLE['core::intrinsics::%s_with_overflow' % o] = overflowing(o)
@prim('core::num::abs_diff')
def _(eng, st, a, i, d, t):
    out = []
    for r, s in eng.fork(st, pos(subt(a[0], a[1]))): out += ret(subt(a[0], a[1]) if r else subt(a[1], a[0]), s)
    return out
@prim('core::num::div_ceil')
def _(eng, st, a, i, d, t):
    if isint(a[1]) and a[1].args[0] > 0:
        if isint(a[0]): return ret(I(-(-a[0].args[0] // a[1].args[0])), st)
        return ret(mk('div', add(a[0], I(a[1].args[0] - 1)), a[1]), st)
    return ret(mk('divceil', a[0], a[1]), st)
@prim('core::num::to_le_bytes', 'core::num::to_ne_bytes')
def _(eng, st, a, i, d, t):
    s, b = intty(eng, i)
    if isint(a[0]): return ret(B((a[0].args[0] & ((1 << b) - 1)).to_bytes(b // 8, 'little')), st)
    return ret(arr(a[0]) if b == 8 else mk('le', b // 8, a[0]), st)
@prim('core::num::to_be_bytes')
def _(eng, st, a, i, d, t):
    s, b = intty(eng, i)
    if isint(a[0]): return ret(B((a[0].args[0] & ((1 << b) - 1)).to_bytes(b // 8, 'big')), st)
    return ret(mk('be', b // 8, a[0]), st)
@prim('core::num::from_le_bytes', 'core::num::from_ne_bytes')
def _(eng, st, a, i, d, t):
    s, b = intty(eng, i)
    return ret(fromle(a[0], s, b), st)
def fromle(v, s, b):
    if v.op == 'bytes': return I(int.from_bytes(v.args[0], 'little', signed=s))
    if v.op == 'le' and v.args[0] * 8 == b: return v.args[1]
    t = rd(v, ZERO, ('i' if s else 'u') + str(b))
    HINT.setdefault(t, (s, b))
    return t
@prim('core::num::from_be_bytes')
def _(eng, st, a, i, d, t):
    s, b = intty(eng, i)
    v = a[0]
    if v.op == 'bytes': return ret(I(int.from_bytes(v.args[0], 'big', signed=s)), st)
    if v.op == 'be' and v.args[0] * 8 == b: return ret(v.args[1], st)
    t = mk('frombe', v); HINT[t] = (s, b)
    return ret(t, st)
@prim('core::num::is_power_of_two', 'core::num::count_ones', 'core::num::pow', 'core::num::leading_zeros', 'core::num::isqrt')
def _(eng, st, a, i, d, t): return None
@prim('core::num::rem_euclid')
def _(eng, st, a, i, d, t):
    s, b = intty(eng, i)
    return ret(eng.arith(st, 'Rem', a[0], a[1], s, b, ''), st)
@prim('core::num::is_multiple_of')
def _(eng, st, a, i, d, t):
    if isint(a[1]) and a[1].args[0]: return ret(eqz(eng.arith(st, 'Rem', a[0], a[1], False, 64, '')), st)
    return None
@prim('core::num::next_multiple_of')
def _(eng, st, a, i, d, t):
    if isint(a[1]):
        n = a[1].args[0]
        if n & (n - 1) == 0: return ret(C.aligned_down(add(a[0], I(n - 1)), n), st)
    return None

@prim('core::mem::size_of', 'core::mem::align_of', 'core::intrinsics::size_of', 'core::intrinsics::align_of', 'core::intrinsics::min_align_of')
def _(eng, st, a, i, d, t):
    ty = targ(eng, i)
    if ty is None: return None
    k = 'align' if 'align' in eng.names[i] else 'size'
    if k in ty: return ret(I(ty[k]), st)
    return None
@prim('core::mem::size_of_val', 'core::intrinsics::size_of_val')
def _(eng, st, a, i, d, t):
    ty = targ(eng, i)
    if ty['k'] == 'slice':
        e = eng.types[ty['to']]
        return ret(mul(ln(content(eng, st, a[0])), I(e['size'])), st)
    if ty['k'] == 'str': return ret(ln(content(eng, st, a[0])), st)
    if 'size' in ty: return ret(I(ty['size']), st)
@prim('core::mem::drop', 'core::mem::forget', 'core::intrinsics::cold_path', 'core::hint::cold_path', 'core::intrinsics::assert_inhabited', 'core::hint::spin_loop', 'solana_msg::sol_log', 'core::hint::assert_unchecked', 'core::intrinsics::assume', 'solana_program::log::sol_log',
      'core::num::precondition_check', 'core::ub_checks::check_language_ub')
def _(eng, st, a, i, d, t):
    if eng.offchain and eng.names[i] == 'core::mem::drop':
        on_drop(eng, st, a[0], None)
    return ret(UNIT, st)
@prim('core::mem::take')
def _(eng, st, a, i, d, t):
    old = content(eng, st, a[0])
    ty = targ(eng, i)
    z = default_of(eng, ty)
    if z is None: return None
    eng.storeref(st, a[0], z)
    return ret(old, st)
def default_of(eng, ty):
    if ty is None: return None
    if ty['k'] in ('uint', 'int', 'bool'): return ZERO
    if ty['k'] == 'adt':
        if ty['path'] == 'solana_sha256_hasher::Hasher': return mk('shastate', arr())
        if ty['path'] in ('alloc::vec::Vec', 'alloc::string::String'): return arr()
        if ty['path'] == OPT: return NONE
        if ty['path'] in TRANSPARENT and ty.get('size') : return B(bytes(ty['size']))
    if ty['k'] == 'array' and ty.get('len') is not None and eng.types[ty['to']]['s'] == 'u8': return B(bytes(ty['len']))
    return None
@prim('core::default::Default::default')
def _(eng, st, a, i, d, t):
    z = default_of(eng, selfty(eng, i))
    return None if z is None else ret(z, st)
@prim('core::mem::replace')
def _(eng, st, a, i, d, t):
    old = content(eng, st, a[0]); eng.storeref(st, a[0], a[1])
    return ret(old, st)
@prim('core::mem::swap')
def _(eng, st, a, i, d, t):
    x, y = content(eng, st, a[0]), content(eng, st, a[1])
    eng.storeref(st, a[0], y); eng.storeref(st, a[1], x)
    return ret(UNIT, st)
@prim('core::mem::zeroed', 'core::intrinsics::zeroed', 'bytemuck::Zeroable::zeroed', 'core::mem::maybe_uninit::MaybeUninit::zeroed')
def _(eng, st, a, i, d, t):
    ty = selfty(eng, i) or targ(eng, i)
    if ty is not None and ty['k'] == 'adt' and ty['path'].endswith('MaybeUninit'): ty = eng.types[ty['args'][0]]
    z = zero_of(eng, ty)
    return None if z is None else ret(z, st)
def zero_of(eng, ty):
    if ty is None: return None
    k = ty['k']
    if k in ('uint', 'int', 'bool'): return ZERO
    if k == 'array' and ty.get('len') is not None:
        if eng.types[ty['to']]['s'] == 'u8': return B(bytes(ty['len']))
        z = zero_of(eng, eng.types[ty['to']])
        return arr(*[z] * ty['len']) if z is not None and ty['len'] <= 64 else None
    if k == 'adt' and ty['adt'] == 'struct':
        if ty['path'] in TRANSPARENT: return B(bytes(ty.get('size', 32)))
        fs = []
        for f, ft in ty['variants'][0]['fields']:
            z = zero_desc(eng, C.parse_desc(ft))
            if z is None: return None
            fs.append(z)
        return agg(ty['path'], '', *fs)
    return None
def zero_desc(eng, dsc):
    if dsc in SIZES: return ZERO
    if isinstance(dsc, tuple) and dsc[0] == 'array' and dsc[1] == 'u8': return B(bytes(dsc[2]))
    for ty in eng.types:
        if ty['s'] == dsc: return zero_of(eng, ty)
    return None

# ---------------------------------------------------------------- pointers
@prim('core::slice::as_ptr', 'core::slice::as_mut_ptr', 'alloc::vec::Vec::as_ptr', 'alloc::vec::Vec::as_mut_ptr', 'core::slice::as_ptr_range_start')
def _(eng, st, a, i, d, t): return ret(eng.subref(a[0], ('first',)), st)
@prim('core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut', 'core::ptr::slice_from_raw_parts', 'core::ptr::slice_from_raw_parts_mut')
def _(eng, st, a, i, d, t):
    r = eng.slice_from_raw(a[0], a[1])
    if eng.obligation: eng.obligation(eng, st, 'raw_slice', (i, a[0], a[1], targ(eng, i)))
    return ret(r, st)
@prim('core::ptr::read_unaligned', 'core::ptr::read', 'core::ptr::const_ptr::read_unaligned', 'core::ptr::const_ptr::read', 'core::ptr::mut_ptr::read', 'core::ptr::read_volatile',
      'core::ptr::mut_ptr::read_unaligned')
def _(eng, st, a, i, d, t):
    if eng.obligation: eng.obligation(eng, st, 'raw_read', (i, a[0], None, targ(eng, i)))
    v = content(eng, st, a[0]); 
    return ret(v, st)
@prim('core::ptr::write_unaligned', 'core::ptr::write', 'core::ptr::mut_ptr::write', 'core::ptr::mut_ptr::write_unaligned', 'core::ptr::write_volatile')
def _(eng, st, a, i, d, t):
    if eng.obligation: eng.obligation(eng, st, 'raw_write', (i, a[0], None, targ(eng, i)))
    eng.storeref(st, a[0], a[1])
    return ret(UNIT, st)
@prim('core::ptr::copy_nonoverlapping', 'core::intrinsics::copy_nonoverlapping', 'core::ptr::copy')
def _(eng, st, a, i, d, t):
    src, dst, n = a
    if eng.obligation:
        eng.obligation(eng, st, 'raw_copy_src', (i, src, n, targ(eng, i))); eng.obligation(eng, st, 'raw_copy_dst', (i, dst, n, targ(eng, i)))
    S, D = eng.slice_from_raw(src, n), eng.slice_from_raw(dst, n)
    eng.storeref(st, D, content(eng, st, S))
    return ret(UNIT, st)
@prim('core::ptr::const_ptr::add', 'core::ptr::mut_ptr::add', 'core::intrinsics::arith_offset', 'core::ptr::const_ptr::offset', 'core::ptr::mut_ptr::offset', 'core::intrinsics::offset', 'core::ptr::const_ptr::wrapping_add', 'core::ptr::mut_ptr::wrapping_add')
def _(eng, st, a, i, d, t): return ret(eng.ptroffset(a[0], a[1]), st)
@prim('core::ptr::const_ptr::cast', 'core::ptr::mut_ptr::cast')
def _(eng, st, a, i, d, t):
    src = selfty(eng, i); m = eng.insts[i].get('ma')
    if src is None or not m: return None
    return ret(eng.ptrcast(st, a[0], {'k': 'ptr', 'to': m[0], 's': '*'}, src), st)
@prim('core::ptr::const_ptr::cast_mut', 'core::ptr::mut_ptr::cast_const', 'core::ptr::from_ref', 'core::ptr::from_mut', 'core::ptr::non_null::NonNull::as_ptr', 'core::ptr::non_null::NonNull::as_ref')
def _(eng, st, a, i, d, t): return ret(a[0], st)

# ---------------------------------------------------------------- Box / vec!
@prim('alloc::boxed::Box::new_uninit', 'alloc::boxed::Box::new_uninit_slice')
def _(eng, st, a, i, d, t): return ret(eng.newcell(st, mk('uninit', 'box')), st)
@prim('alloc::boxed::box_assume_init_into_vec_unsafe')
def _(eng, st, a, i, d, t): return ret(content(eng, st, a[0]), st)
@prim('alloc::boxed::Box::assume_init')
def _(eng, st, a, i, d, t): return ret(a[0], st)
@prim('alloc::boxed::Box::into_inner')
def _(eng, st, a, i, d, t): return ret(content(eng, st, a[0]), st)

# ---------------------------------------------------------------- Vec / String
@prim('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'alloc::string::String::new', 'alloc::string::String::with_capacity')
def _(eng, st, a, i, d, t): return ret(arr(), st)
@prim('alloc::vec::from_elem')
def _(eng, st, a, i, d, t):
    v, n = a
    if v is ZERO: return ret(B(bytes(n.args[0])) if isint(n) and n.args[0] <= 4096 else mk('zeros', n), st)
    if isint(n) and n.args[0] <= 128: return ret(arr(*[v] * n.args[0]), st)
    return ret(mk('rep', v, n), st)
def one(v): return norm_arr([v], v.op == 'int' and 0 <= v.args[0] < 256)
def u8one(eng, i, v):
    ty = targ(eng, i)
    return norm_arr([v], ty is not None and ty['s'] == 'u8')
@prim('alloc::vec::Vec::push')
def _(eng, st, a, i, d, t):
    eng.storeref(st, a[0], cat(content(eng, st, a[0]), u8one(eng, i, a[1])))
    return ret(UNIT, st)
@prim('alloc::vec::Vec::push_mut')
def _(eng, st, a, i, d, t):
    old = content(eng, st, a[0])
    eng.storeref(st, a[0], cat(old, u8one(eng, i, a[1])))
    return ret(eng.subref(a[0], ('i', ln(old))), st)
@prim('alloc::vec::Vec::insert')
def _(eng, st, a, i, d, t):
    v = content(eng, st, a[0]); out = []
    for r, s in eng.fork(st, pos(subt(a[1], ln(v)))):
        if r: out.append(panic('bounds', s)); continue
        eng.storeref(s, a[0], cat(sub(v, ZERO, a[1]), u8one(eng, i, a[2]), sub(v, a[1], ln(v))))
        out += ret(UNIT, s)
    return out
@prim('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def _(eng, st, a, i, d, t):
    v = content(eng, st, a[0]); out = []
    for r, s in eng.fork(st, pos(subt(ln(v), a[1]))):
        if not r: out.append(panic('bounds', s)); continue
        x = idx(v, a[1])
        if eng.names[i].endswith('swap_remove'): nv = mk('swap_remove', v, a[1])
        else: nv = cat(sub(v, ZERO, a[1]), sub(v, add(a[1], ONE), ln(v)))
        eng.storeref(s, a[0], nv); out += ret(x, s)
    return out
@prim('alloc::vec::Vec::pop')
def _(eng, st, a, i, d, t):
    v = content(eng, st, a[0]); out = []; n = ln(v)
    for r, s in eng.fork(st, pos(n)):
        if not r: out += ret(NONE, s); continue
        x = idx(v, subt(n, ONE)); eng.storeref(s, a[0], sub(v, ZERO, subt(n, ONE))); out += ret(some(x), s)
    return out
@prim('alloc::vec::Vec::truncate')
def _(eng, st, a, i, d, t):
    v = content(eng, st, a[0]); out = []
    for r, s in eng.fork(st, pos(subt(ln(v), a[1]))):
        if r: eng.storeref(s, a[0], sub(v, ZERO, a[1]))
        out += ret(UNIT, s)
    return out
@prim('alloc::vec::Vec::clear', 'alloc::string::String::clear')
def _(eng, st, a, i, d, t): eng.storeref(st, a[0], arr()); return ret(UNIT, st)
@prim('alloc::vec::Vec::resize')
def _(eng, st, a, i, d, t):
    v = content(eng, st, a[0]); out = []
    for r, s in eng.fork(st, pos(subt(ln(v), a[1]))):
        if r: eng.storeref(s, a[0], sub(v, ZERO, a[1]))
        else:
            n = subt(a[1], ln(v))
            f = mk('zeros', n) if a[2] is ZERO else mk('rep', a[2], n)
            eng.storeref(s, a[0], cat(v, f) if n is not ZERO else v)
        out += ret(UNIT, s)
    return out
@prim('alloc::vec::Vec::append')
def _(eng, st, a, i, d, t):
    eng.storeref(st, a[0], cat(content(eng, st, a[0]), content(eng, st, a[1]))); eng.storeref(st, a[1], arr())
    return ret(UNIT, st)
@prim('alloc::vec::Vec::extend_from_slice', 'alloc::string::String::push_str', 'alloc::vec::Vec::extend_from_within_')
def _(eng, st, a, i, d, t):
    eng.storeref(st, a[0], cat(content(eng, st, a[0]), content(eng, st, a[1])))
    return ret(UNIT, st)
@prim('alloc::vec::Vec::len', 'core::slice::len', 'alloc::string::String::len', 'core::str::len', 'core::ptr::metadata', 'alloc::vec::Vec::capacity')
def _(eng, st, a, i, d, t): return ret(ln(content(eng, st, a[0])), st)
@prim('alloc::vec::Vec::is_empty', 'core::slice::is_empty', 'alloc::string::String::is_empty', 'core::str::is_empty')
def _(eng, st, a, i, d, t): return ret(eqz(ln(content(eng, st, a[0]))), st)
@prim('alloc::vec::Vec::reserve', 'alloc::vec::Vec::reserve_exact', 'alloc::vec::Vec::shrink_to_fit')
def _(eng, st, a, i, d, t): return ret(UNIT, st)
@prim('alloc::slice::concat', 'alloc::slice::Concat::concat')
def _(eng, st, a, i, d, t):
    v = sval(eng, st, a[0])
    e = elems(v) if v.op in ('arr', 'bytes') else None
    if e is None: return ret(mk('flat', v), st)
    return ret(cat(*[strip(x) for x in e]), st)
@prim('alloc::vec::Vec::retain', 'alloc::vec::Vec::retain_mut')
def _(eng, st, a, i, d, t):
    r, f = a
    v = content(eng, st, r)
    c = predicate(eng, st, f, d, lambda s, K: eng.subref(r, ('i', K)), v)
    if c is None: eng.storeref(st, r, mk('filter', v, mk('fnval', f), binder0()))
    else:
        K, cond = c
        eng.storeref(st, r, v if cond is TRUE else C.filtterm(v, K, idx(v, K), cond))
    return ret(UNIT, st)
_tmp = [0]
def fresh(bits=64):
    _tmp[0] += 1
    k = mk('tmpk', _tmp[0]); HINT[k] = (False, bits)
    return k
def binder0(): return mk('bv', 0)
def predicate(eng, st, f, depth, arg, coll):
    """condition under which a pure closure accepts the element at a symbolic position"""
    k = fresh(); s0 = st.copy()
    s0.assume(pos(subt(ln(coll), k)), True)
    base = dict(s0.facts)
    sv = C.DISJ
    C.DISJ = 64
    try: outs = eng.call_value(f, [arg(s0, k)], s0, depth)
    finally: C.DISJ = sv
    alts = []
    for o in outs:
        if o.kind != 'ret': continue
        pc = [(x if v else not_(x)) for x, v in o.st.facts.items() if x not in base]
        alts.append(and_(*(pc + [o.val])))
    cond = C.orsimp(alts)
    K = C.binder(cond)
    return K, subst(cond, k, K)
@prim('alloc::vec::Vec::dedup', 'alloc::vec::Vec::drain')
def _(eng, st, a, i, d, t): return None
@prim('core::slice::contains')
def _(eng, st, a, i, d, t):
    v = content(eng, st, a[0]); x = eng.byref(st, a[1], None)
    e = elems(v) if v.op in ('arr', 'bytes') else None
    if e is not None and len(e) <= 40: return ret(or_(*[eqv(strip(eng.val(st, y)), x) for y in e]) if e else FALSE, st)
    k = fresh()
    return ret(C.anyterm(v, k, eqv(idx(v, k), x)), st)

# ---------------------------------------------------------------- slices
def bounds_fork(eng, st, conds):
    """(True, state) when all hold, else panic outs"""
    cur = st; outs = []
    for c in conds:
        if cur is None: break
        nxt = None
        for r, s in eng.fork(cur, c):
            if r: nxt = s
            else: outs.append(panic('bounds', s))
        cur = nxt
    return cur, outs
def range_of(eng, st, r, n):
    """(start, end, conditions) of a Range* value over a sequence of length n"""
    tag = r.args[0].split('::')[-1] if r.op == 'agg' else None
    if tag == 'Range': s, e = r.args[2], r.args[3]; return s, e, [not_(pos(subt(s, e))), not_(pos(subt(e, n)))]
    if tag == 'RangeFrom': s = r.args[2]; return s, n, [not_(pos(subt(s, n)))]
    if tag == 'RangeTo': e = r.args[2]; return ZERO, e, [not_(pos(subt(e, n)))]
    if tag == 'RangeFull': return ZERO, n, []
    if tag == 'RangeInclusive': s, e = r.args[2], add(r.args[3], ONE); return s, e, [not_(pos(subt(s, e))), not_(pos(subt(e, n)))]
    if tag == 'RangeToInclusive': e = add(r.args[2], ONE); return ZERO, e, [not_(pos(subt(e, n)))]
    return None
@prim('core::ops::range::RangeInclusive::new')
def _(eng, st, a, i, d, t): return ret(agg('core::ops::range::RangeInclusive', '', a[0], a[1], FALSE), st)
@prim('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def _(eng, st, a, i, d, t):
    ty = selfty(eng, i)
    if ty is None or not (ty['k'] in ('slice', 'array', 'str') or ty['k'] == 'adt' and ty['path'] in ('alloc::vec::Vec', 'alloc::string::String')): return None
    v = content(eng, st, a[0]); n = ln(v)
    ity = (ttas(eng, i) + [None, None])[1]
    if ity is not None and ity['k'] == 'uint':
        if eng.obligation: eng.obligation(eng, st, 'index', (i, pos(subt(n, a[1])), None, None))
        s, outs = bounds_fork(eng, st, [pos(subt(n, a[1]))])
        return outs + (ret(eng.subref(a[0], ('i', a[1])), s) if s else [])
    rr = range_of(eng, st, a[1], n)
    if rr is None: return None
    b, e, conds = rr
    if eng.obligation: eng.obligation(eng, st, 'range', (i, and_(*conds), None, None))
    s, outs = bounds_fork(eng, st, conds)
    if s is None: return outs
    return outs + ret(subrange(eng, a[0], b, e, n), s)
def subrange(eng, r, b, e, n):
    if b is ZERO and e is n: return r
    return eng.subref(r, ('ss', b, e))
@prim('core::slice::get', 'core::slice::get_mut', 'core::slice::get_unchecked', 'core::slice::get_unchecked_mut', 'core::str::get')
def _(eng, st, a, i, d, t):
    v = content(eng, st, a[0]); n = ln(v)
    un = 'unchecked' in eng.names[i]
    if a[1].op == 'agg':
        rr = range_of(eng, st, a[1], n)
        if rr is None: return None
        b, e, conds = rr
        r = subrange(eng, a[0], b, e, n)
    else: conds = [pos(subt(n, a[1]))]; r = eng.subref(a[0], ('i', a[1]))
    if un:
        if eng.obligation: eng.obligation(eng, st, 'raw_index', (i, and_(*conds), None, None))
        return ret(r, st)
    cur, outs = bounds_fork(eng, st, conds)
    for o in outs: o.kind = 'ret'; o.val = NONE
    return outs + (ret(some(r), cur) if cur else [])
@prim('core::slice::first', 'core::slice::last', 'core::slice::first_mut', 'core::slice::last_mut')
def _(eng, st, a, i, d, t):
    n = ln(content(eng, st, a[0])); out = []
    k = ZERO if 'first' in eng.names[i] else subt(n, ONE)
    for r, s in eng.fork(st, pos(n)): out += ret(some(eng.subref(a[0], ('i', k))) if r else NONE, s)
    return out
@prim('core::slice::split_at', 'core::slice::split_at_mut', 'core::slice::split_at_checked', 'core::slice::split_at_mut_checked')
def _(eng, st, a, i, d, t):
    n = ln(content(eng, st, a[0])); out = []
    ck = 'checked' in eng.names[i]
    for r, s in eng.fork(st, pos(subt(a[1], n))):
        if r: out += ret(NONE, s) if ck else [panic('bounds', s)]
        else:
            v = tup(subrange(eng, a[0], ZERO, a[1], n), subrange(eng, a[0], a[1], n, n))
            out += ret(some(v) if ck else v, s)
    return out
@prim('core::slice::split_first', 'core::slice::split_last', 'core::slice::split_first_mut')
def _(eng, st, a, i, d, t):
    n = ln(content(eng, st, a[0])); out = []
    f = 'first' in eng.names[i]
    for r, s in eng.fork(st, pos(n)):
        if not r: out += ret(NONE, s)
        elif f: out += ret(some(tup(eng.subref(a[0], ('i', ZERO)), subrange(eng, a[0], ONE, n, n))), s)
        else: out += ret(some(tup(eng.subref(a[0], ('i', subt(n, ONE))), subrange(eng, a[0], ZERO, subt(n, ONE), n))), s)
    return out
@prim('core::slice::first_chunk', 'core::slice::split_first_chunk', 'core::slice::first_chunk_mut')
def _(eng, st, a, i, d, t):
    n = ln(content(eng, st, a[0])); out = []
    N = I(const_targ(eng, i))
    for r, s in eng.fork(st, pos(subt(N, n))):
        if r: out += ret(NONE, s)
        elif 'split' in eng.names[i]: out += ret(some(tup(subrange(eng, a[0], ZERO, N, n), subrange(eng, a[0], N, n, n))), s)
        else: out += ret(some(subrange(eng, a[0], ZERO, N, n)), s)
    return out
def const_targ(eng, i):
    c = [x for x in eng.insts[i].get('ca') or [] if x is not None]
    if not c: raise C.AnalysisError('const argument of ' + eng.insts[i]['full'])
    return c[-1]
@prim('core::slice::copy_from_slice', 'core::slice::clone_from_slice')
def _(eng, st, a, i, d, t):
    dst, src = a
    dv = content(eng, st, dst); sv = content(eng, st, src); out = []
    for r, s in eng.fork(st, eqz(subt(ln(dv), ln(sv)))):
        if r: eng.storeref(s, dst, sv); out += ret(UNIT, s)
        else: out.append(panic('copy_from_slice', s))
    return out
@prim('core::slice::fill')
def _(eng, st, a, i, d, t):
    n = ln(content(eng, st, a[0]))
    if isint(n) and isint(a[1]) and 0 <= a[1].args[0] < 256 and n.args[0] <= 4096: v = B(bytes([a[1].args[0]]) * n.args[0])
    elif a[1] is ZERO: v = mk('zeros', n)
    else: v = mk('rep', a[1], n)
    eng.storeref(st, a[0], v)
    return ret(UNIT, st)
@prim('core::slice::starts_with')
def _(eng, st, a, i, d, t):
    v, p = content(eng, st, a[0]), content(eng, st, a[1])
    return ret(and_(not_(pos(subt(ln(p), ln(v)))), eqv(sub(v, ZERO, ln(p)), p)), st)
@prim('core::slice::ends_with')
def _(eng, st, a, i, d, t):
    v, p = content(eng, st, a[0]), content(eng, st, a[1])
    return ret(and_(not_(pos(subt(ln(p), ln(v)))), eqv(sub(v, subt(ln(v), ln(p)), ln(v)), p)), st)
@prim('core::slice::strip_prefix', 'core::slice::strip_suffix')
def _(eng, st, a, i, d, t):
    v, p = content(eng, st, a[0]), content(eng, st, a[1]); n = ln(v); pre = eng.names[i].endswith('prefix')
    if ln(p).op != 'int': return None
    out = []
    for r, s in eng.fork(st, pos(subt(ln(p), n))):
        if r: out += ret(NONE, s); continue
        c = eqv(sub(v, ZERO, ln(p)) if pre else sub(v, subt(n, ln(p)), n), p)
        for r2, s2 in eng.fork(s, c):
            out += ret(some(subrange(eng, a[0], ln(p), n, n) if pre else subrange(eng, a[0], ZERO, subt(n, ln(p)), n)) if r2 else NONE, s2)
    return out
@prim('core::slice::swap')
def _(eng, st, a, i, d, t):
    r, x, y = a; v = content(eng, st, r); n = ln(v)
    s, outs = bounds_fork(eng, st, [pos(subt(n, x)), pos(subt(n, y))])
    if s is None: return outs
    vx, vy = idx(v, x), idx(v, y)
    eng.storeref(s, eng.subref(r, ('i', x)), vy); eng.storeref(s, eng.subref(r, ('i', y)), vx)
    return outs + ret(UNIT, s)
@prim('core::slice::copy_within')
def _(eng, st, a, i, d, t):
    v = content(eng, st, a[0]); n = ln(v)
    rr = range_of(eng, st, a[1], n)
    if rr is None: return None
    b, e, conds = rr
    s, outs = bounds_fork(eng, st, conds + [not_(pos(subt(add(a[2], subt(e, b)), n)))])
    if s is None: return outs
    eng.storeref(s, eng.subref(a[0], ('ss', a[2], add(a[2], subt(e, b)))), sub(v, b, e))
    return outs + ret(UNIT, s)
@prim('core::panicking::panic', 'core::panicking::panic_fmt', 'core::option::expect_failed', 'core::option::unwrap_failed', 'core::result::unwrap_failed', 'core::panicking::panic_bounds_check', 'core::slice::index::slice_index_fail',
      'core::panicking::assert_failed', 'core::panicking::panic_display', 'core::panicking::panic_nounwind_fmt', 'core::panicking::panic_explicit', 'core::panicking::unreachable_display')
def _(eng, st, a, i, d, t): return [panic(eng.names[i], st)]
@prim('core::panic::location::Location::caller', 'core::fmt::Arguments::new', 'core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst', 'core::fmt::Arguments::new_const', 'core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug')
def _(eng, st, a, i, d, t):
    nm = eng.names[i].split('::')[-1]
    if eng.offchain: return ret(mk('fmt', nm, *[strip(eng.val(st, x)) for x in a]), st)
    return ret(mk('fmt', nm), st)
@prim('alloc::fmt::format', 'alloc::fmt::format_inner')
def _(eng, st, a, i, d, t):
    return ret(mk('format', *[strip(eng.val(st, x)) for x in a]), st)

# ---------------------------------------------------------------- closures
@prim('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def _(eng, st, a, i, d, t):
    f, args = a[0], a[1]
    if args.op == 'agg' and args.args[0] == 'tuple': return eng.call_value(f, list(args.args[2:]), st, d, t)
    return None

@prim('core::array::map', 'core::array::from_fn')
def _(eng, st, a, i, d, t):
    if len(a) == 2:
        xs, f = a
        if xs.op not in ('arr', 'bytes'): return None
        xs = list(xs.args) if xs.op == 'arr' else [I(b) for b in xs.args[0]]
    else:
        f = a[0]; n = eng.types[eng.fnret(i)].get('len') if hasattr(eng, 'fnret') else None
        if n is None: return None
        xs = [I(j) for j in range(n)]
    if len(xs) > 64: return None
    cur = [((), st)]; out = []
    for x in xs:
        nxt = []
        for vs, s in cur:
            for o in eng.call_value(f, [x], s, d):
                if o.kind == 'ret': nxt.append((vs + (o.val,), o.st))
                else: out.append(o)
        cur = nxt
    for vs, s in cur: out += ret(norm_arr(vs, False), s)
    return out

# ---------------------------------------------------------------- RefCell
@prim('core::cell::RefCell::borrow', 'core::cell::RefCell::borrow_mut', 'core::cell::Cell::as_ptr', 'core::cell::RefCell::as_ptr')
def _(eng, st, a, i, d, t): return ret(mk('guard', a[0]), st)
@prim('core::cell::RefCell::try_borrow', 'core::cell::RefCell::try_borrow_mut')
def _(eng, st, a, i, d, t): return ret(ok(mk('guard', a[0])), st)
@prim('core::cell::RefCell::new', 'core::cell::Cell::new', 'core::cell::RefCell::into_inner')
def _(eng, st, a, i, d, t): return ret(a[0], st)
@prim('core::cell::Cell::get')
def _(eng, st, a, i, d, t): return ret(content(eng, st, a[0]), st)
@prim('core::cell::Cell::set')
def _(eng, st, a, i, d, t): eng.storeref(st, a[0], a[1]); return ret(UNIT, st)
@prim('core::cell::Ref::map', 'core::cell::RefMut::map')
def _(eng, st, a, i, d, t):
    g, f = a
    p = g.args[0] if g.op == 'guard' else g
    out = []
    for o in eng.call_value(f, [p], st, d):
        if o.kind == 'ret': out += ret(mk('guard', o.val), o.st)
        else: out.append(o)
    return out
@prim('core::cell::Ref::filter_map', 'core::cell::RefMut::filter_map')
def _(eng, st, a, i, d, t):
    g, f = a
    p = g.args[0] if g.op == 'guard' else g
    out = []
    for o in eng.call_value(f, [p], st, d):
        if o.kind != 'ret': out.append(o); continue
        for r, s in eng.fork(o.st, isvar(o.val, 'Some')):
            out += ret(ok(mk('guard', fld(as_(o.val, 'Some'), '0', 0))) if r else err(g), s)
    return out
@prim('core::cell::Ref::clone')
def _(eng, st, a, i, d, t): return ret(content(eng, st, a[0]), st)

# ---------------------------------------------------------------- bytemuck
def descof(eng, ty): return eng.desc(eng.types.index(ty)) if ty is not None else None
def tdesc(eng, i, j=0):
    t = eng.insts[i].get('targs') or []
    return (eng.desc(t[j]), eng.types[t[j]]) if j < len(t) and t[j] is not None else (None, None)
@prim('bytemuck::from_bytes', 'bytemuck::from_bytes_mut', 'bytemuck::try_from_bytes', 'bytemuck::try_from_bytes_mut', 'bytemuck::pod_read_unaligned', 'bytemuck::try_pod_read_unaligned',
      'bytemuck::checked::try_from_bytes', 'bytemuck::checked::from_bytes')
def _(eng, st, a, i, d, t):
    dsc, ty = tdesc(eng, i)
    v = content(eng, st, a[0]); out = []
    n = I(ty['size']); nm = eng.names[i].split('::')[-1]
    tr = nm.startswith('try')
    for r, s in eng.fork(st, eqz(subt(ln(v), n))):
        if not r:
            out += ret(err(mk('const', 'PodCastError')), s) if tr else [panic('bytemuck', s)]
            continue
        p = eng.subref(a[0], ('view', dsc))
        x = content(eng, s, p) if 'read' in nm else p
        out += ret(ok(x) if tr else x, s)
    return out
@prim('bytemuck::bytes_of', 'bytemuck::bytes_of_mut')
def _(eng, st, a, i, d, t):
    dsc, ty = tdesc(eng, i)
    return ret(eng.subref(a[0], ('bytes', dsc)), st)
@prim('bytemuck::cast_slice', 'bytemuck::try_cast_slice', 'bytemuck::cast_slice_mut')
def _(eng, st, a, i, d, t):
    d0, t0 = tdesc(eng, i, 0); d1, t1 = tdesc(eng, i, 1)
    tr = 'try' in eng.names[i]
    v = content(eng, st, a[0])
    if d1 == 'u8':
        r = eng.subref(a[0], ('bytes', ('slice', d0)))
        return ret(ok(r) if tr else r, st)
    if d0 == 'u8':
        out = []
        n = ln(v); k = mk('div', n, I(t1['size']))
        for r, s in eng.fork(st, eqz(eng.arith(st, 'Rem', n, I(t1['size']), False, 64, 'usize'))):
            if r: p = eng.subref(a[0], ('viewn', d1, k)); out += ret(ok(p) if tr else p, s)
            else: out += ret(err(mk('const', 'PodCastError')), s) if tr else [panic('bytemuck', s)]
        return out
    return None

# ---------------------------------------------------------------- iterators
def it(kind, *a): return mk('it', kind, *a)
ITN = 'core::iter::traits::iterator::Iterator::'
def as_it(eng, st, v):
    """iterator value (or None)"""
    if v.op == 'it': return v
    if v.op == 'agg' and v.args[0].endswith('::Range'): return v
    if v.op == 'agg' and v.args[0].endswith('::RangeInclusive'): return v
    if v.op == 'agg' and v.args[0] in C.ITER_STRUCTS: return v
    if v.op == 'ref' and st is not None:           # &mut I is an iterator too
        w = eng.loadref(st, v)
        if w.op == 'it' or w.op == 'agg' and w.args[0].endswith(('::Range', '::RangeInclusive')) or w.op == 'ref' and as_it(eng, st, w) is not None: return it('byref', v)
    return None
@prim('core::slice::iter', 'core::slice::iter_mut', 'alloc::vec::Vec::iter')
def _(eng, st, a, i, d, t): return ret(it('slice', a[0], ZERO, ln(content(eng, st, a[0]))), st)
@prim('core::slice::chunks', 'core::slice::chunks_exact', 'core::slice::chunks_mut', 'core::slice::chunks_exact_mut')
def _(eng, st, a, i, d, t):
    n = ln(content(eng, st, a[0]))
    if 'exact' in eng.names[i]: n = mul(mk('div', n, a[1]), a[1]) if not (isint(n) and isint(a[1])) else I(n.args[0] // a[1].args[0] * a[1].args[0])
    return ret(it('chunks', a[0], ZERO, n, a[1]), st)
@prim('core::slice::windows')
def _(eng, st, a, i, d, t): return None
@prim('core::iter::traits::collect::IntoIterator::into_iter')
def _(eng, st, a, i, d, t):
    v = a[0]
    if as_it(eng, st, v) is not None: return ret(v, st)
    ty = selfty(eng, i)
    if ty is None: return None
    if eng.offchain:
        import prims_off
        x = prims_off.to_it(eng, st, v, ty)
        if x is not None: return ret(x, st)
    if ty['k'] == 'ref':
        e = eng.types[ty['to']]
        if e['k'] in ('slice', 'array') or e['k'] == 'adt' and e['path'] == 'alloc::vec::Vec':
            return ret(it('slice', v, ZERO, ln(content(eng, st, v))), st)
        return None
    if ty['k'] == 'array' or ty['k'] == 'adt' and ty['path'] == 'alloc::vec::Vec': return ret(it('val', v, ZERO, ln(v)), st)
    if ty['k'] == 'adt' and ty['path'] == OPT:
        if v.op == 'agg': return ret(it('val', arr(*v.args[2:]), ZERO, I(len(v.args) - 2)), st)
    return None
@prim('core::iter::sources::once::once')
def _(eng, st, a, i, d, t): return ret(it('val', arr(a[0]), ZERO, ONE), st)
@prim('core::iter::sources::empty::empty')
def _(eng, st, a, i, d, t): return ret(it('val', arr(), ZERO, ZERO), st)
def adapter(nm, build):
    def f(eng, st, a, i, d, t):
        v = as_it(eng, st, a[0])
        if v is None: return None
        x = build(eng, st, [v] + a[1:], i)
        return None if x is None else ret(x, st)
    TABLE[ITN + nm] = f
adapter('map', lambda e, s, a, i: it('map', a[0], a[1]))
adapter('filter', lambda e, s, a, i: it('filter', a[0], a[1]))
adapter('filter_map', lambda e, s, a, i: it('filter_map', a[0], a[1]))
adapter('rev', lambda e, s, a, i: it('rev', a[0]))
adapter('enumerate', lambda e, s, a, i: it('enum', a[0], ZERO))
adapter('copied', lambda e, s, a, i: it('copied', a[0]))
adapter('cloned', lambda e, s, a, i: it('copied', a[0]))
adapter('take', lambda e, s, a, i: it('val', mk('rep', a[0].args[1], a[1]), ZERO, a[1]) if a[0].args[0] == 'repeat' else it('take', a[0], a[1]))
@prim('core::iter::sources::repeat::repeat')
def _(eng, st, a, i, d, t): return ret(it('repeat', a[0]), st)
@prim('core::iter::sources::repeat_n::repeat_n')
def _(eng, st, a, i, d, t): return ret(it('val', mk('rep', a[0], a[1]), ZERO, a[1]), st)

def skipped(x, n):
    """x without its first n elements, given that it has more than n (or has none left to give)"""
    k = x.args[0]
    if k in ('slice', 'val'): return it(k, x.args[1], add(x.args[2], n), x.args[3])
    if k == 'copied':
        y = skipped(x.args[1], n); return y and it(k, y)
    if k == 'enum':
        y = skipped(x.args[1], n); return y and it(k, y, add(x.args[2], n))
    return None
def nothing(x):
    k = x.args[0]
    if k in ('slice', 'val'): return it(k, x.args[1], x.args[3], x.args[3])
    return it(k, nothing(x.args[1]), *x.args[2:])
def _skip(eng, st, a, i, d, t):
    x = as_it(eng, st, a[0]); n = a[1]
    if x is None: return None
    if x.op != 'it' or skipped(x, n) is None: return ret(it('skip', x, n), st)
    b = x
    while b.args[0] not in ('slice', 'val'): b = b.args[1]
    out = []
    for r, s in eng.fork(st, pos(subt(add(b.args[2], n), b.args[3]))): out += ret(nothing(x) if r else skipped(x, n), s)
    return out
TABLE[ITN + 'skip'] = _skip
adapter('take_while', lambda e, s, a, i: it('take_while', a[0], a[1], FALSE))
adapter('by_ref', lambda e, s, a, i: it('byref', a[0]) if a[0].op == 'ref' else a[0])
adapter('fuse', lambda e, s, a, i: a[0])
adapter('inspect', lambda e, s, a, i: it('inspect', a[0], a[1]))
adapter('peekable', lambda e, s, a, i: it('peek', a[0], UNIT))
adapter('map_while', lambda e, s, a, i: it('map_while', a[0], a[1]))
adapter('skip_while', lambda e, s, a, i: it('skip_while', a[0], a[1], FALSE))
adapter('flat_map', lambda e, s, a, i: it('flat', it('map', a[0], a[1]), UNIT))
adapter('flatten', lambda e, s, a, i: it('flat', a[0], UNIT))
adapter('scan', lambda e, s, a, i: it('scan', a[0], e.newcell(s, a[1]), a[2]))
def _step(e, s, a, i):
    if a[0].op == 'agg' and a[0].args[0].endswith('::Range') and isint(a[1]) and a[1].args[0] > 0 and not (isint(a[0].args[2]) and isint(a[0].args[3])):
        c, b, n = a[0].args[2], a[0].args[3], a[1].args[0]
        return it('stepk', ZERO, mk('div', add(satsub(s, b, c), I(n - 1)), I(n)), c, I(n))
    if a[0].op == 'agg' and a[0].args[0].endswith('::Range'): return it('stepr', a[0].args[2], a[0].args[3], a[1])
    return it('step', a[0], a[1])
adapter('step_by', _step)
def _zip(eng, st, a, i, d, t):
    x, y = as_it(eng, st, a[0]), to_it(eng, st, a[1], marg(eng, i))
    if x is None or y is None: return None
    return ret(it('zip', x, y), st)
TABLE[ITN + 'zip'] = _zip
def _chain(eng, st, a, i, d, t):
    x, y = as_it(eng, st, a[0]), to_it(eng, st, a[1], marg(eng, i))
    if x is None or y is None: return None
    return ret(it('chain', x, y), st)
TABLE[ITN + 'chain'] = _chain
def to_it(eng, st, v, ty):
    x = as_it(eng, st, v)
    if x is not None: return x
    if ty is None: return None
    if eng.offchain:
        import prims_off
        x = prims_off.to_it(eng, st, v, ty)
        if x is not None: return x
    if ty['k'] == 'ref':
        e = eng.types[ty['to']]
        if e['k'] in ('slice', 'array') or e['k'] == 'adt' and e['path'] == 'alloc::vec::Vec': return it('slice', v, ZERO, ln(content(eng, st, v)))
    if ty['k'] == 'array' or ty['k'] == 'adt' and ty['path'] == 'alloc::vec::Vec': return it('val', v, ZERO, ln(v))
    if ty['k'] == 'adt' and ty['path'] == OPT and v.op == 'agg': return it('val', arr(*v.args[2:]), ZERO, I(len(v.args) - 2))
    return None

def nxt(eng, st, x, d, back=False):
    """advance iterator value x: list of (item or None, x', state).  Panics are dropped into eng._pan"""
    if x.op == 'agg' and x.args[0].endswith('::RangeInclusive'):
        a, b = x.args[2], x.args[3]; res = []
        ex = x.args[4] if len(x.args) > 4 else FALSE
        if isint(a) and isint(b): eng.constiter = True
        for r0, s0 in eng.fork(st, ex):
            if r0: res.append((None, x, s0)); continue
            for r, s in eng.fork(s0, pos(subt(a, b))):
                if r: res.append((None, x, s)); continue
                if back: res.append((b, agg(*x.args[:2], a, subt(b, ONE), eqz(subt(a, b))), s))
                else: res.append((a, agg(*x.args[:2], add(a, ONE), b, FALSE), s))
        return res
    if x.op == 'agg':
        a, b = x.args[2], x.args[3]; res = []
        if isint(a) and isint(b): eng.constiter = True
        for r, s in eng.fork(st, pos(subt(b, a))):
            if not r: res.append((None, x, s))
            elif back: res.append((subt(b, ONE), agg(*x.args[:2], a, subt(b, ONE)), s))
            else: res.append((a, agg(*x.args[:2], add(a, ONE), b), s))
        return res
    k = x.args[0]
    if k in ('slice', 'val'):
        base, i, n = x.args[1:]; res = []
        if isint(i) and isint(n): eng.constiter = True
        for r, s in eng.fork(st, pos(subt(n, i))):
            if not r: res.append((None, x, s)); continue
            j = subt(n, ONE) if back else i
            e = eng.subref(base, ('i', j)) if k == 'slice' else idx(base, j)
            l = content(eng, s, base) if k == 'slice' else base
            if l.op == 'filt':        # an element that was kept satisfies the condition
                o = mk('sel', l, j); s.assume(subst(l.args[3], l.args[2], o), True); s.assume(pos(subt(ln(l.args[0]), o)), True)
            res.append((e, it(k, base, i, subt(n, ONE)) if back else it(k, base, add(i, ONE), n), s))
        return res
    if k == 'chunks':
        base, i, n, c = x.args[1:]; res = []
        if isint(i) and isint(n): eng.constiter = True
        for r, s in eng.fork(st, pos(subt(n, i))):
            if not r: res.append((None, x, s)); continue
            for r2, s2 in eng.fork(s, pos(subt(add(i, c), n))):
                e = n if r2 else add(i, c)
                res.append((eng.subref(base, ('ss', i, e)), it(k, base, e, n, c), s2))
        return res
    if k == 'miter':            # entries of a map: list of keys, position, length, map, what is yielded
        base, i, n, m, how = x.args[1:]; res = []
        if isint(i) and isint(n): eng.constiter = True
        for r, s in eng.fork(st, pos(subt(n, i))):
            if not r: res.append((None, x, s)); continue
            j = subt(n, ONE) if back else i
            key = idx(content(eng, s, base), j)
            kr = eng.subref(base, ('i', j))
            if how == 'val': e = tup(key, mapget(m, key))
            elif how == 'ival': e = mapget(m, key)
            elif how == 'values': e = eng.subref(m, ('mk', key))
            else: e = tup(kr, eng.subref(m, ('mk', key)))
            res.append((e, it(k, base, i, subt(n, ONE), m, how) if back else it(k, base, add(i, ONE), n, m, how), s))
        return res
    if k == 'byref':
        r = x.args[1]; inner = as_it(eng, st, eng.loadref(st, r)); res = []
        for e, y, s in nxt(eng, st, inner, d, back):
            eng.storeref(s, r, y) if inner.args[0] != 'byref' or y is not inner else None
            res.append((e, x, s))
        return res
    if k == 'rev': return [(e, it('rev', y), s) for e, y, s in nxt(eng, st, x.args[1], d, not back)]
    if k == 'map':
        res = []
        for e, y, s in nxt(eng, st, x.args[1], d, back):
            if e is None or e is SKIP: res.append((e, it('map', y, x.args[2]), s)); continue
            for o in eng.call_value(x.args[2], [e], s, d):
                if o.kind == 'ret': res.append((o.val, it('map', y, x.args[2]), o.st))
                else: eng._pan.append(o)
        return res
    if k == 'inspect':
        res = []
        for e, y, s in nxt(eng, st, x.args[1], d, back):
            if e is None or e is SKIP: res.append((e, it('inspect', y, x.args[2]), s)); continue
            for o in eng.call_value(x.args[2], [eng.newcell(s, e)], s, d):
                if o.kind == 'ret': res.append((e, it('inspect', y, x.args[2]), o.st))
                else: eng._pan.append(o)
        return res
    if k == 'filter':
        res = []
        for e, y, s in nxt(eng, st, x.args[1], d, back):
            if e is None or e is SKIP: res.append((e, it(k, y, x.args[2]), s)); continue
            for o in eng.call_value(x.args[2], [eng.newcell(s, e)], s, d):
                if o.kind != 'ret': eng._pan.append(o); continue
                for r, s2 in eng.fork(o.st, o.val): res.append((e if r else SKIP, it(k, y, x.args[2]), s2))
        return res
    if k == 'filter_map':
        res = []
        for e, y, s in nxt(eng, st, x.args[1], d, back):
            if e is None or e is SKIP: res.append((e, it(k, y, x.args[2]), s)); continue
            for o in eng.call_value(x.args[2], [e], s, d):
                if o.kind != 'ret': eng._pan.append(o); continue
                for r, s2 in eng.fork(o.st, isvar(o.val, 'Some')): res.append((fld(as_(o.val, 'Some'), '0', 0) if r else SKIP, it(k, y, x.args[2]), s2))
        return res
    if k == 'copied': return [(e if e is None or e is SKIP else content(eng, s, e), it('copied', y), s) for e, y, s in nxt(eng, st, x.args[1], d, back)]
    if k == 'enum':
        if back:
            n = itlen(x.args[1])
            if n is None: raise C.AnalysisError('rev enumerate')
            return [(e if e is None or e is SKIP else tup(add(x.args[2], subt(n, ONE)), e), it('enum', y, x.args[2]), s) for e, y, s in nxt(eng, st, x.args[1], d, True)]
        return [(e if e is None or e is SKIP else tup(x.args[2], e), it('enum', y, x.args[2] if e is None or e is SKIP else add(x.args[2], ONE)), s) for e, y, s in nxt(eng, st, x.args[1], d)]
    if k == 'zip':
        res = []
        held = x.args[3] if len(x.args) > 3 else None
        if back:
            n, m = itlen(x.args[1]), itlen(x.args[2])
            if n is None or n is not m: raise C.AnalysisError('rev zip')
        for e, y, s in ([(held, x.args[1], st)] if held is not None else nxt(eng, st, x.args[1], d, back)):
            if e is None or e is SKIP: res.append((e, it('zip', y, x.args[2]), s)); continue
            for e2, y2, s2 in nxt(eng, s, x.args[2], d, back):
                if e2 is SKIP: res.append((SKIP, it('zip', y, y2, e), s2))
                else: res.append((None if e2 is None else tup(e, e2), it('zip', y, y2), s2))
        return res
    if k == 'chain':
        res = []
        for e, y, s in nxt(eng, st, x.args[1], d, back) if not back else nxt(eng, st, x.args[2], d, True):
            if e is not None: res.append((e, it('chain', y, x.args[2]) if not back else it('chain', x.args[1], y), s)); continue
            for e2, y2, s2 in nxt(eng, s, x.args[2] if not back else x.args[1], d, back):
                res.append((e2, it('chain', y, y2) if not back else it('chain', y2, y), s2))
        return res
    if k == 'take':
        res = []
        if back: raise C.AnalysisError('rev take')
        for r, s in eng.fork(st, pos(x.args[2])):
            if not r: res.append((None, x, s)); continue
            res += [(e, it('take', y, x.args[2] if e is None or e is SKIP else subt(x.args[2], ONE)), s2) for e, y, s2 in nxt(eng, s, x.args[1], d)]
        return res
    if k == 'take_while':
        res = []
        if x.args[3] is TRUE: return [(None, x, st)]
        for e, y, s in nxt(eng, st, x.args[1], d):
            if e is None or e is SKIP: res.append((e, it(k, y, x.args[2], x.args[3]), s)); continue
            for o in eng.call_value(x.args[2], [eng.newcell(s, e)], s, d):
                if o.kind != 'ret': eng._pan.append(o); continue
                for r, s2 in eng.fork(o.st, o.val):
                    res.append((e if r else None, it(k, y, x.args[2], x.args[3] if r else TRUE), s2))
        return res
    if k == 'map_while':
        res = []
        for e, y, s in nxt(eng, st, x.args[1], d):
            if e is None or e is SKIP: res.append((e, it(k, y, x.args[2]), s)); continue
            for o in eng.call_value(x.args[2], [e], s, d):
                if o.kind != 'ret': eng._pan.append(o); continue
                for r, s2 in eng.fork(o.st, isvar(o.val, 'Some')): res.append((fld(as_(o.val, 'Some'), '0', 0) if r else None, it(k, y, x.args[2]), s2))
        return res
    if k == 'scan':
        res = []
        for e, y, s in nxt(eng, st, x.args[1], d):
            if e is None or e is SKIP: res.append((e, it(k, y, x.args[2], x.args[3]), s)); continue
            for o in eng.call_value(x.args[3], [x.args[2], e], s, d):
                if o.kind != 'ret': eng._pan.append(o); continue
                for r, s2 in eng.fork(o.st, isvar(o.val, 'Some')): res.append((fld(as_(o.val, 'Some'), '0', 0) if r else None, it(k, y, x.args[2], x.args[3]), s2))
        return res
    if k == 'skip_while':
        res = []
        if x.args[3] is TRUE: return [(e, it(k, y, x.args[2], TRUE), s) for e, y, s in nxt(eng, st, x.args[1], d)]
        for e, y, s in nxt(eng, st, x.args[1], d):
            if e is None or e is SKIP: res.append((e, it(k, y, x.args[2], x.args[3]), s)); continue
            for o in eng.call_value(x.args[2], [eng.newcell(s, e)], s, d):
                if o.kind != 'ret': eng._pan.append(o); continue
                for r, s2 in eng.fork(o.st, o.val): res.append((SKIP if r else e, it(k, y, x.args[2], FALSE if r else TRUE), s2))
        return res
    if k == 'flat':            # iterator of iterators, and the one being drained
        if back: raise C.AnalysisError('rev flatten')
        res = []
        if x.args[2] is not UNIT:
            for e, y, s in nxt(eng, st, x.args[2], d):
                res.append((SKIP, it(k, x.args[1], UNIT), s) if e is None else (e, it(k, x.args[1], y), s))
            return res
        for e, y, s in nxt(eng, st, x.args[1], d):
            if e is None or e is SKIP: res.append((e, it(k, y, UNIT), s)); continue
            z = as_it(eng, s, e)
            if z is None and e.op == 'agg' and e.args[0] == OPT: z = it('val', arr(*e.args[2:]), ZERO, I(len(e.args) - 2))
            if z is None and e.op == 'ref': z = it('slice', e, ZERO, ln(content(eng, s, e)))
            if z is None and e.op in ('arr', 'cat', 'bytes', 'map', 'filt', 'sub'): z = it('val', e, ZERO, ln(e))
            if z is not None: res.append((SKIP, it(k, y, z), s)); continue
            raise C.AnalysisError('flatten of ' + e.op)
        return res
    if k == 'skip':
        res = []
        if back: raise C.AnalysisError('rev skip')
        for r, s in eng.fork(st, pos(x.args[2])):
            if not r: res += [(e, it(k, y, ZERO), s2) for e, y, s2 in nxt(eng, s, x.args[1], d)]; continue
            for e, y, s2 in nxt(eng, s, x.args[1], d):
                res.append((None, it(k, y, x.args[2]), s2) if e is None else (SKIP, it(k, y, x.args[2] if e is SKIP else subt(x.args[2], ONE)), s2))
        return res
    if k == 'step':
        if back: raise C.AnalysisError('rev step_by')
        return [(e, it(k, y if e is None or e is SKIP else it('skip', y, subt(x.args[2], ONE)), x.args[2]), s) for e, y, s in nxt(eng, st, x.args[1], d)]
    if k == 'repeat': return [(x.args[1], x, st)]
    if k == 'stepk':
        if back: raise C.AnalysisError('rev step_by')
        j, n, a0, w = x.args[1:]
        return [(add(a0, mul(j, w)), it(k, add(j, ONE), n, a0, w), s) if r else (None, x, s) for r, s in eng.fork(st, pos(subt(n, j)))]
    if k == 'stepr':
        if back: raise C.AnalysisError('rev step_by')
        a, b, n = x.args[1:]; res = []
        if isint(a) and isint(b): eng.constiter = True
        for r, s in eng.fork(st, pos(subt(b, a))): res.append((a, it(k, add(a, n), b, n), s) if r else (None, x, s))
        return res
    if k == 'peek':
        if x.args[2] is not UNIT:
            h = x.args[2]
            return [(None if h is NONE else h.args[2], it(k, x.args[1], UNIT), st)]
        return [(e, it(k, y, UNIT), s) for e, y, s in nxt(eng, st, x.args[1], d, back)]
    raise C.AnalysisError('iterator ' + str(k))

def skipping(eng, x, st=None):
    """does the chain contain an adaptor that may reject elements"""
    if x.op != 'it': return False
    if x.args[0] in ('filter', 'filter_map', 'flat', 'skip', 'skip_while', 'step'): return True
    if x.args[0] == 'byref':
        y = as_it(eng, st, eng.loadref(st, x.args[1])) if st is not None else None
        return y is None or skipping(eng, y, st)
    return any(isinstance(y, T) and y.op == 'it' and skipping(eng, y, st) for y in x.args[1:])
def rawnext(eng, st, x, d): return nxt(eng, st, x, d)
SKIP = mk('SKIP')

def iterate(eng, st, x, d, name, cells, on_item, on_end):
    """generic consuming loop.  on_item(e, state, get, set) -> list of ('back'|'exit', value, state) ; on_end(state, get) -> value"""
    def step(s, get, put):
        O, X, Bk = [], [], []
        sv, eng._pan = eng._pan, []
        for e, y, s2 in rawnext(eng, s, get(s, 'it'), d):
            put(s2, 'it', y)
            if e is None: X.append((on_end(s2, get), s2))
            elif e is SKIP: Bk.append(s2)
            else:
                for kind, v, s3 in on_item(e, s2, get, put):
                    if kind == 'back': Bk.append(s3)
                    elif kind == 'exit': X.append((v, s3))
                    else: O.append(v)
        O += eng._pan; eng._pan = sv
        return O, X, Bk
    c = {'it': x}; c.update(cells)
    return eng.pyloop(st, name, c, step)

@prim(ITN + 'next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def _(eng, st, a, i, d, t):
    v = as_it(eng, st, content(eng, st, a[0]))
    if v is None: return None
    back = eng.names[i].endswith('next_back')
    out = []
    sv, eng._pan = eng._pan, []
    if skipping(eng, v, st):
        if back: v = it('rev', v)
        r = iterate(eng, st, v, d, 'next', {}, lambda e, s, g, p: [('exit', tup(some(e), g(s, 'it')), s)], lambda s, g: tup(NONE, g(s, 'it')))
        for o in r:
            if o.kind == 'ret':
                y = o.val.args[3]
                if v.args[0] != 'byref': eng.storeref(o.st, a[0], y.args[1] if back else y)
                o.val = o.val.args[2]
            out.append(o)
    else:
        for e, y, s in nxt(eng, st, v, d, back):
            if not (v.op == 'it' and v.args[0] == 'byref'): eng.storeref(s, a[0], y)
            out += ret(NONE if e is None else some(e), s)
    out += eng._pan; eng._pan = sv
    return out
def consumer(nm):
    def deco(f):
        def g(eng, st, a, i, d, t):
            v = a[0]
            byref = nm in ('any', 'all', 'find', 'position', 'find_map', 'nth', 'try_for_each', 'try_fold', 'rposition')
            if byref: v = content(eng, st, a[0])
            v = as_it(eng, st, v)
            if v is None: return None
            return f(eng, st, v, a[1:], i, d, t, a[0] if byref else None)
        TABLE[ITN + nm] = g
    return deco
def withfn(eng, f, args, s, d):
    return eng.call_value(f, args, s, d)
def long_any(eng, st, x, f, d, neg):
    """any/all over many concrete elements with a predicate that neither branches nor acts: one formula instead of one path per element"""
    es = []
    if skipping(eng, x, st): return None
    probe = st.copy()
    while len(es) <= 256:
        rs = nxt(eng, probe, x, d)
        if len(rs) != 1: return None
        e, x, probe = rs[0]
        if e is None: break
        es.append(e)
    if not 8 < len(es) <= 256: return None
    c = TRUE; s = st.copy()
    for e in es:
        n, facts = len(s.events), len(s.facts)
        outs = withfn(eng, f, [e], s, d)
        if len(outs) != 1 or outs[0].kind != 'ret' or len(outs[0].st.events) != n or len(outs[0].st.facts) != facts: return None
        s = outs[0].st; v = outs[0].val
        c = and_(c, v if neg else not_(v))
    return ret(c if neg else not_(c), s)
@consumer('any')
def _(eng, st, x, a, i, d, t, r):
    q = long_any(eng, st, x, a[0], d, False)
    if q is not None: return q
    def item(e, s, g, p):
        out = []
        for o in withfn(eng, a[0], [e], s, d):
            if o.kind != 'ret': out.append(('out', o, None)); continue
            for b, s2 in eng.fork(o.st, o.val): out.append(('exit', TRUE, s2) if b else ('back', None, s2))
        return out
    return iterate(eng, st, x, d, 'any', {}, item, lambda s, g: FALSE)
@consumer('all')
def _(eng, st, x, a, i, d, t, r):
    q = long_any(eng, st, x, a[0], d, True)
    if q is not None: return q
    def item(e, s, g, p):
        out = []
        for o in withfn(eng, a[0], [e], s, d):
            if o.kind != 'ret': out.append(('out', o, None)); continue
            for b, s2 in eng.fork(o.st, o.val): out.append(('back', None, s2) if b else ('exit', FALSE, s2))
        return out
    return iterate(eng, st, x, d, 'any', {}, item, lambda s, g: TRUE)
@consumer('find')
def _(eng, st, x, a, i, d, t, r):
    def item(e, s, g, p):
        out = []
        for o in withfn(eng, a[0], [eng.newcell(s, e)], s, d):
            if o.kind != 'ret': out.append(('out', o, None)); continue
            for b, s2 in eng.fork(o.st, o.val): out.append(('exit', some(e), s2) if b else ('back', None, s2))
        return out
    return iterate(eng, st, x, d, 'find', {}, item, lambda s, g: NONE)
@consumer('find_map')
def _(eng, st, x, a, i, d, t, r):
    def item(e, s, g, p):
        out = []
        for o in withfn(eng, a[0], [e], s, d):
            if o.kind != 'ret': out.append(('out', o, None)); continue
            for b, s2 in eng.fork(o.st, isvar(o.val, 'Some')): out.append(('exit', o.val, s2) if b else ('back', None, s2))
        return out
    return iterate(eng, st, x, d, 'find', {}, item, lambda s, g: NONE)
@consumer('position')
def _(eng, st, x, a, i, d, t, r):
    def item(e, s, g, p):
        out = []
        k = g(s, 'k')
        for o in withfn(eng, a[0], [e], s, d):
            if o.kind != 'ret': out.append(('out', o, None)); continue
            for b, s2 in eng.fork(o.st, o.val):
                if b: out.append(('exit', some(k), s2))
                else: p(s2, 'k', add(k, ONE)); out.append(('back', None, s2))
        return out
    return iterate(eng, st, x, d, 'find', {'k': ZERO}, item, lambda s, g: NONE)
@consumer('count')
def _(eng, st, x, a, i, d, t, r):
    n = itlen(x)
    if n is not None: return ret(n, st)
    def item(e, s, g, p):
        p(s, 'k', add(g(s, 'k'), ONE)); return [('back', None, s)]
    return iterate(eng, st, x, d, 'count', {'k': ZERO}, item, lambda s, g: g(s, 'k'))
def itlen(x):
    if x.op == 'agg' and x.args[0].endswith('::Range') : return None
    k = x.args[0] if x.op == 'it' else None
    if k in ('slice', 'val'): return subt(x.args[3], x.args[2])
    if k in ('map', 'copied', 'rev', 'enum', 'inspect'): return itlen(x.args[1])
    return None
@consumer('last')
def _(eng, st, x, a, i, d, t, r):
    def item(e, s, g, p): p(s, 'k', some(e)); return [('back', None, s)]
    return iterate(eng, st, x, d, 'last', {'k': NONE}, item, lambda s, g: g(s, 'k'))
@consumer('sum')
def _(eng, st, x, a, i, d, t, r):
    def item(e, s, g, p):
        e2 = content(eng, s, e) if e.op == 'ref' else e
        p(s, 'k', add(g(s, 'k'), e2)); return [('back', None, s)]
    return iterate(eng, st, x, d, 'sum', {'k': ZERO}, item, lambda s, g: g(s, 'k'))
@consumer('fold')
def _(eng, st, x, a, i, d, t, r):
    def item(e, s, g, p):
        out = []
        for o in withfn(eng, a[1], [g(s, 'k'), e], s, d):
            if o.kind != 'ret': out.append(('out', o, None)); continue
            p(o.st, 'k', o.val); out.append(('back', None, o.st))
        return out
    return iterate(eng, st, x, d, 'fold', {'k': a[0]}, item, lambda s, g: g(s, 'k'))
@consumer('try_fold')
def _(eng, st, x, a, i, d, t, r):
    def item(e, s, g, p):
        out = []
        for o in withfn(eng, a[1], [g(s, 'k'), e], s, d):
            if o.kind != 'ret': out.append(('out', o, None)); continue
            for good, pay, s2 in trybranch(eng, o.st, o.val):
                if good: p(s2, 'k', pay); out.append(('back', None, s2))
                else: out.append(('exit', o.val, s2))
        return out
    ty = eng.types[t]
    wrap = some if ty['path'] == OPT else ok
    return iterate(eng, st, x, d, 'fold', {'k': a[0]}, item, lambda s, g: wrap(g(s, 'k')))
def trybranch(eng, st, v):
    g = 'Some' if v.op == 'agg' and v.args[0] == OPT else 'Ok'
    out = []
    for r, s in eng.fork(st, isvar(v, g)): out.append((r, fld(as_(v, g), '0', 0) if r else None, s))
    return out
@consumer('for_each')
def _(eng, st, x, a, i, d, t, r):
    def item(e, s, g, p):
        return [('back', None, o.st) if o.kind == 'ret' else ('out', o, None) for o in withfn(eng, a[0], [e], s, d)]
    return iterate(eng, st, x, d, 'for_each', {}, item, lambda s, g: UNIT)
@consumer('try_for_each')
def _(eng, st, x, a, i, d, t, r):
    def item(e, s, g, p):
        out = []
        for o in withfn(eng, a[0], [e], s, d):
            if o.kind != 'ret': out.append(('out', o, None)); continue
            for good, pay, s2 in trybranch(eng, o.st, o.val): out.append(('back', None, s2) if good else ('exit', o.val, s2))
        return out
    return iterate(eng, st, x, d, 'for_each', {}, item, lambda s, g: ok(UNIT))
def nextinfo(eng, st, a, i, d, t):
    """the next account, or NotEnoughAccountKeys"""
    o2 = TABLE[ITN + 'next'](eng, st, a, i, d, t)
    if o2 is None: return None
    for o in o2:
        if o.kind == 'ret': o.val = ok(o.val.args[2]) if o.val is not NONE else err(agg('solana_program_error::ProgramError', 'NotEnoughAccountKeys'))
    return o2
TABLE['solana_account_info::next_account_info'] = nextinfo
@prim('core::iter::adapters::peekable::Peekable::peek', 'core::iter::adapters::peekable::Peekable::peek_mut')
def _(eng, st, a, i, d, t):
    x = content(eng, st, a[0])
    if x.op != 'it' or x.args[0] != 'peek': return None
    out = []
    def give(e, y, s):
        h = some(e) if e is not None else NONE
        eng.storeref(s, a[0], it('peek', y, h))
        return ret(NONE if e is None else some(eng.newcell(s, e)), s)
    if x.args[2] is not UNIT: return give(None if x.args[2] is NONE else x.args[2].args[2], x.args[1], st)
    if skipping(eng, x, st): raise C.AnalysisError('peek through a filter')
    for e, y, s in nxt(eng, st, x.args[1], d): out += give(e, y, s)
    return out
@consumer('partition')
def _(eng, st, x, a, i, d, t, r):
    def item(e, s, g, p):
        out = []
        for o in withfn(eng, a[0], [eng.newcell(s, e)], s, d):
            if o.kind != 'ret': out.append(('out', o, None)); continue
            for b, s2 in eng.fork(o.st, o.val):
                c = 'l' if b else 'r'
                p(s2, c, cat(g(s2, c), arr(e))); out.append(('back', None, s2))
        return out
    return iterate(eng, st, x, d, 'collect', {'l': arr(), 'r': arr()}, item, lambda s, g: tup(g(s, 'l'), g(s, 'r')))
@consumer('unzip')
def _(eng, st, x, a, i, d, t, r):
    def item(e, s, g, p):
        p(s, 'l', cat(g(s, 'l'), arr(fld(e, '0', 0)))); p(s, 'r', cat(g(s, 'r'), arr(fld(e, '1', 1)))); return [('back', None, s)]
    return iterate(eng, st, x, d, 'collect', {'l': arr(), 'r': arr()}, item, lambda s, g: tup(g(s, 'l'), g(s, 'r')))
def extreme(sgn):
    def f(eng, st, x, a, i, d, t, r):
        def item(e, s, g, p):
            b = g(s, 'k'); out = []
            for have, s2 in eng.fork(s, isvar(b, 'Some')):
                if not have: p(s2, 'k', some(e)); out.append(('back', None, s2)); continue
                cur = fld(as_(b, 'Some'), '0', 0)
                u, v = [content(eng, s2, z) if z.op == 'ref' else z for z in (e, cur)]
                # max keeps the last of equals, min the first: the same value either way
                for gt, s3 in eng.fork(s2, pos(subt(u, v)) if sgn > 0 else pos(subt(v, u))):
                    if gt: p(s3, 'k', some(e))
                    out.append(('back', None, s3))
            return out
        return iterate(eng, st, x, d, 'fold', {'k': NONE}, item, lambda s, g: g(s, 'k'))
    return f
consumer('max')(extreme(1)); consumer('min')(extreme(-1))
@prim('solana_sha256_hasher::Hasher::hash', 'solana_sha256_hasher::Hasher::hashv', 'solana_sha256_hasher::Hasher::result')
def _(eng, st, a, i, d, t):
    f = eng.names[i].split('::')[-1]
    if f == 'result':
        h = a[0]
        if h.op != 'shastate': return None
        v = mk('sha256', h.args[0]); HINT[v] = ('len', 32); return ret(v, st)
    h = content(eng, st, a[0])
    if h.op != 'shastate': return None
    eng.storeref(st, a[0], mk('shastate', cat(h.args[0], strip(eng.val(st, a[1])) if f == 'hash' else seedcat(eng, st, a[1]))))
    return ret(UNIT, st)
@consumer('nth')
def _(eng, st, x, a, i, d, t, r):
    if x.op == 'it' and x.args[0] in ('slice', 'val'):
        k, base, p, n = x.args; out = []
        for b, s in eng.fork(st, pos(subt(n, add(p, a[0])))):
            j = add(p, a[0])
            eng.storeref(s, r, it(k, base, add(j, ONE), n) if b else it(k, base, n, n))
            out += ret(some(eng.subref(base, ('i', j)) if k == 'slice' else idx(base, j)) if b else NONE, s)
        return out
    return None
def collect_into(eng, st, x, init, d, u8=False):
    """-> outs whose value is init ++ items"""
    if x.op == 'it' and x.args[0] == 'val': return ret(cat(init, sub(x.args[1], x.args[2], x.args[3])), st)
    if x.op == 'it' and x.args[0] == 'copied' and x.args[1].op == 'it' and x.args[1].args[0] == 'slice':
        y = x.args[1]
        return ret(cat(init, sub(content(eng, st, y.args[1]), y.args[2], y.args[3])), st)
    if x.op == 'it' and x.args[0] == 'slice' and u8: 
        return ret(cat(init, sub(content(eng, st, x.args[1]), x.args[2], x.args[3])), st)
    if x.op == 'it' and x.args[0] == 'copied' and x.args[1].op == 'it' and x.args[1].args[0] == 'chain':
        x = it('chain', it('copied', x.args[1].args[1]), it('copied', x.args[1].args[2]))
    if x.op == 'it' and x.args[0] == 'chain':
        out = []
        for o in collect_into(eng, st, x.args[1], init, d, u8):
            if o.kind != 'ret': out.append(o)
            else: out += collect_into(eng, o.st, x.args[2], o.val, d, u8)
        return out
    def item(e, s, g, p):
        p(s, 'acc', cat(g(s, 'acc'), norm_arr([e], u8))); return [('back', None, s)]
    return iterate(eng, st, x, d, 'collect', {'acc': init}, item, lambda s, g: g(s, 'acc'))
@consumer('collect')
def _(eng, st, x, a, i, d, t, r):
    ty = eng.types[t]
    if ty['k'] == 'adt' and ty['path'] in ('alloc::vec::Vec', 'alloc::boxed::Box'):
        return collect_into(eng, st, x, arr(), d, eng.types[ty['args'][0]]['s'] == 'u8')
    if ty['k'] == 'adt' and ty['path'] in (RES, OPT):
        inner = eng.types[ty['args'][0]]
        if inner['k'] == 'adt' and inner['path'] == 'alloc::vec::Vec':
            def item(e, s, g, p):
                out = []
                for good, pay, s2 in trybranch(eng, s, e):
                    if good: p(s2, 'acc', cat(g(s2, 'acc'), arr(pay))); out.append(('back', None, s2))
                    else: out.append(('exit', e, s2))
                return out
            w = some if ty['path'] == OPT else ok
            return iterate(eng, st, x, d, 'collect', {'acc': arr()}, item, lambda s, g: w(g(s, 'acc')))
    if eng.offchain:
        import prims_off
        return prims_off.collect(eng, st, x, i, d, t)
    return None
@prim('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::extend_desugared', 'alloc::vec::Vec::extend_trusted', 'alloc::vec::spec_extend::SpecExtend::spec_extend')
def _(eng, st, a, i, d, t):
    ty = selfty(eng, i)
    if 'SpecExtend' not in eng.names[i] and ty is not None and not (ty['k'] == 'adt' and ty['path'] == 'alloc::vec::Vec'):
        if eng.names[i].endswith('Extend::extend'): return None
    x = to_it(eng, st, a[1], marg(eng, i) or (ttas(eng, i) or [None])[-1])
    if x is None: return None
    v = content(eng, st, a[0])
    out = []
    ety = eng.types[ty['args'][0]]['s'] if ty is not None and ty['k'] == 'adt' and ty['args'] else ''
    for o in collect_into(eng, st, x, v, d, ety == 'u8'):
        if o.kind == 'ret':
            eng.storeref(o.st, a[0], o.val); o.val = UNIT
        out.append(o)
    return out
@prim('core::iter::traits::exact_size::ExactSizeIterator::len')
def _(eng, st, a, i, d, t):
    x = as_it(eng, st, content(eng, st, a[0]))
    if x is None: return None
    if x.op == 'agg' and x.args[0].endswith('::Range'): return ret(satsub(st, x.args[3], x.args[2]), st)
    n = itlen(x)
    return None if n is None else ret(n, st)
@prim('core::iter::traits::iterator::Iterator::size_hint')
def _(eng, st, a, i, d, t): return ret(tup(ZERO, NONE), st)
@prim('core::ops::range::Range::contains', 'core::ops::range::RangeInclusive::contains', 'core::ops::range::RangeBounds::contains')
def _(eng, st, a, i, d, t):
    r = content(eng, st, a[0]); x = eng.byref(st, a[1], None)
    if r.op != 'agg': return None
    tag = r.args[0].split('::')[-1]
    if tag == 'Range': return ret(and_(not_(pos(subt(r.args[2], x))), pos(subt(r.args[3], x))), st)
    if tag == 'RangeInclusive': return ret(and_(not_(pos(subt(r.args[2], x))), not_(pos(subt(x, r.args[3])))), st)
    return None
@prim('core::ops::range::RangeInclusive::start', 'core::ops::range::RangeInclusive::end')
def _(eng, st, a, i, d, t):
    r = content(eng, st, a[0])
    return ret(fld(r, 'start' if eng.names[i].endswith('start') else 'end', 0 if eng.names[i].endswith('start') else 1), st)

# ---------------------------------------------------------------- Solana account model
AI = 'solana_account_info::AccountInfo::'
def acct(eng, st, r): return deref_all(eng, st, r)
@prim(AI + 'lamports')
def _(eng, st, a, i, d, t):
    x = acct(eng, st, a[0])
    v = eng.load(st, ('lam', x), ()); HINT.setdefault(v, (False, 64))
    return ret(v, st)
@prim(AI + 'data_len', AI + 'try_data_len')
def _(eng, st, a, i, d, t):
    v = ln(datacell(eng, st, acct(eng, st, a[0])))
    return ret(ok(v) if 'try' in eng.names[i] else v, st)
@prim(AI + 'data_is_empty', AI + 'try_data_is_empty')
def _(eng, st, a, i, d, t):
    v = eqz(ln(datacell(eng, st, acct(eng, st, a[0]))))
    return ret(ok(v) if 'try' in eng.names[i] else v, st)
def datacell(eng, st, x): return eng.getcell(st, ('data', x))
@prim(AI + 'try_borrow_data', AI + 'try_borrow_mut_data')
def _(eng, st, a, i, d, t):
    return ret(ok(mk('guard', mk('fld', acct(eng, st, a[0]), 'data'))), st)
@prim(AI + 'try_borrow_lamports', AI + 'try_borrow_mut_lamports')
def _(eng, st, a, i, d, t):
    return ret(ok(mk('guard', mk('fld', acct(eng, st, a[0]), 'lamports'))), st)
@prim(AI + 'assign')
def _(eng, st, a, i, d, t):
    x = acct(eng, st, a[0]); v = content(eng, st, a[1])
    st.store[('@', mk('fld', x, 'owner'))] = v
    st.ev('assign', x, v)
    return ret(UNIT, st)
@prim(AI + 'resize', AI + 'realloc')
def _(eng, st, a, i, d, t):
    x = acct(eng, st, a[0]); D = datacell(eng, st, x); n = a[1]
    out = []
    c = mk('call', AI + 'resize', x, D, n)
    for r, s in eng.fork(st, isvar(c, 'Ok')):
        if not r:
            s.ev('fail', c); out += ret(err(mk('errof', c)), s); continue
        s.ev('resize', x, n)
        r2 = s.decide(pos(subt(n, ln(D))))
        if r2 is False: nd = sub(D, ZERO, n)
        else: nd = mk('resized', D, n)
        s.store[('data', x)] = nd
        out += ret(ok(UNIT), s)
    return out
@prim(AI + 'owner', AI + 'unsigned_key')
def _(eng, st, a, i, d, t): return None

def key_of(eng, st, k, accounts):
    """account whose key term is k"""
    for x in accounts:
        if eng.loadref(st, mk('fld', x, 'key')) is k: return x
    if k.op == 'key': return k.args[0]
    for x in accounts:
        if st.decide(eqv(eng.loadref(st, mk('fld', x, 'key')), k)) is True: return x
    return None
SYSI = 'solana_system_interface::instruction::'
def collect_accounts(t):
    return [u for u in walk(t) if C.is_acct(u)]
@prim('solana_invoke::invoke', 'solana_invoke::invoke_signed', 'solana_invoke::invoke_signed_unchecked', 'solana_program::program::invoke', 'solana_program::program::invoke_signed', 'solana_cpi::invoke', 'solana_cpi::invoke_signed', 'solana_program::program::invoke_signed_unchecked', 'solana_program::program::invoke_unchecked')
def _(eng, st, a, i, d, t):
    ix = strip(eng.val(st, a[0])); accs = strip(eng.val(st, a[1])); seeds = strip(eng.val(st, a[2])) if len(a) > 2 else arr()
    return do_cpi(eng, st, ix, accs, seeds)
def do_cpi(eng, st, ix, accs, seeds):
    n = len(st.events)
    c = mk('call', 'cpi', ix, accs, seeds, mk('nth', sum(1 for e in st.events if e.args[0] == 'cpi')))
    out = []
    for r, s in eng.fork(st, isvar(c, 'Ok')):
        if not r:
            s.ev('fail', c); out += ret(err(mk('errof', c)), s); continue
        s.ev('cpi', ix, accs, seeds, mk('snap', *[mk('at', c[1], v) for c, v in s.store.items() if c[0] == 'data']))
        effects(eng, s, ix, accs)
        out += ret(ok(UNIT), s)
    return out
def lamget(eng, st, x):
    v = eng.getcell(st, ('lam', x)); HINT.setdefault(v, (False, 64)) if v.op not in ('int', 'lin') else None
    return v
def effects(eng, st, ix, accs):
    al = collect_accounts(accs)
    nm = ix.args[0] if ix.op == 'call' else ''
    ar = [strip(x) for x in ix.args[1:]] if ix.op == 'call' else []
    if nm.startswith(SYSI):
        op = nm[len(SYSI):]
        if op in ('transfer', 'create_account'):
            f, to = key_of(eng, st, ar[0], al), key_of(eng, st, ar[1], al)
            if f is not None: st.store[('lam', f)] = subt(lamget(eng, st, f), ar[2])
            if to is not None: st.store[('lam', to)] = add(lamget(eng, st, to), ar[2])
            if op == 'create_account' and to is not None:
                st.assume(eqz(ln(datacell(eng, st, to))), True)
                st.store[('data', to)] = zeros(ar[3])
                st.store[('@', mk('fld', to, 'owner'))] = ar[4]
            return
        if op == 'allocate':
            x = key_of(eng, st, ar[0], al)
            if x is not None:
                st.assume(eqz(ln(datacell(eng, st, x))), True)
                st.store[('data', x)] = zeros(ar[1])
            return
        if op == 'assign':
            x = key_of(eng, st, ar[0], al)
            if x is not None: st.store[('@', mk('fld', x, 'owner'))] = ar[1]
            return
    for x in al:
        old = lamget(eng, st, x)
        v = mk('lamafter', x, old, mk('n', len(st.events)))
        HINT[v] = (False, 64)
        st.store[('lam', x)] = v
def zeros(n):
    return B(bytes(n.args[0])) if isint(n) and n.args[0] <= 64 else mk('zeros', n)
def rollup(kind):
    def f(eng, st, a, i, d, t):
        vals = [strip(eng.val(st, x)) for x in a]
        c = mk('call', eng.names[i], *vals)
        out = []
        for r, s in eng.fork(st, isvar(c, 'Ok')):
            if not r: s.ev('fail', c); out += ret(err(mk('errof', c)), s); continue
            s.ev('extcpi', eng.names[i], *vals)
            for x in set(u for v in vals for u in collect_accounts(v)):
                o = lamget(eng, s, x); v = mk('lamafter', x, o, mk('n', len(s.events))); HINT[v] = (False, 64)
                s.store[('lam', x)] = v
                s.store[('data', x)] = mk('dataafter', x, mk('n', len(s.events)))
                s.store[('@', mk('fld', x, 'owner'))] = mk('ownerafter', x, mk('n', len(s.events)))
            out += ret(ok(UNIT), s)
        return out
    return f
TABLE['ephemeral_rollups_sdk::cpi::delegate_account'] = rollup('delegate')
TABLE['ephemeral_rollups_sdk::cpi::undelegate_account'] = rollup('undelegate')
for n in ('ephemeral_rollups_sdk::ephem::deprecated::v0::commit_and_undelegate_accounts', 'ephemeral_rollups_sdk::ephem::commit_and_undelegate_accounts', 'ephemeral_rollups_sdk::ephem::commit_accounts', 'ephemeral_rollups_sdk::ephem::deprecated::v0::commit_accounts'):
    TABLE[n] = rollup('commit')
@prim('solana_address::Address::as_array', 'solana_address::Address::as_ref', 'solana_hash::Hash::as_bytes', 'solana_address::Address::as_bytes')
def _(eng, st, a, i, d, t): return ret(a[0], st)

# ---------------------------------------------------------------- addresses and hashes
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def b58(s):
    n = 0
    for ch in s: n = n * 58 + B58.index(ch)
    return n.to_bytes(32, 'big')
KNOWN_ID = {'solana_system_interface::program': '11111111111111111111111111111111', 'solana_sdk_ids::system_program': '11111111111111111111111111111111',
            'solana_sdk_ids::bpf_loader_upgradeable': 'BPFLoaderUpgradeab1e11111111111111111111111',
            'solana_sdk_ids::sysvar::slot_hashes': 'SysvarS1otHashes111111111111111111111111111',
            'solana_sdk_ids::sysvar': 'Sysvar1111111111111111111111111111111111111'}
def known(path):
    for k in KNOWN_ID:
        if path.startswith(k + '::') and path[len(k) + 2:] in ('id', 'check_id'): return B(b58(KNOWN_ID[k]))
for _k in list(KNOWN_ID):
    def _mkid(v):
        return lambda eng, st, a, i, d, t: ret(v, st)
    def _mkck(v):
        return lambda eng, st, a, i, d, t: ret(eqv(content(eng, st, a[0]), v), st)
    _v = B(b58(KNOWN_ID[_k]))
    TABLE[_k + '::id'] = _mkid(_v); TABLE[_k + '::check_id'] = _mkck(_v)
@prim('solana_address::Address::from_str_const', 'solana_pubkey::Pubkey::from_str_const')
def _(eng, st, a, i, d, t):
    s = content(eng, st, a[0])
    if s.op != 'bytes': return None
    try: return ret(B(b58(s.args[0].decode())), st)
    except Exception: return None
def seedcat(eng, st, r):
    v = strip(eng.val(st, r))
    if v.op == 'arr': return cat(*[strip(x) for x in v.args]) if v.args else arr()
    return mk('concat', v)
@prim('solana_address::Address::find_program_address', 'solana_address::syscalls::find_program_address', 'solana_pubkey::Pubkey::find_program_address')
def _(eng, st, a, i, d, t):
    s = seedcat(eng, st, a[0]); p = strip(eng.val(st, a[1]))
    k, b = mk('pda', s, p), mk('bump', s, p)
    HINT[k] = ('len', 32); HINT[b] = (False, 8)
    return ret(tup(k, b), st)
@prim('solana_address::Address::try_find_program_address', 'solana_address::syscalls::try_find_program_address', 'solana_pubkey::Pubkey::try_find_program_address')
def _(eng, st, a, i, d, t):
    s = seedcat(eng, st, a[0]); p = strip(eng.val(st, a[1]))
    k, b = mk('pda', s, p), mk('bump', s, p)
    HINT[k] = ('len', 32); HINT[b] = (False, 8)
    c = mk('call', 'try_find_program_address', s, p); out = []
    for r, s2 in eng.fork(st, isvar(c, 'Some')): out += ret(some(tup(k, b)) if r else NONE, s2)
    return out
@prim('solana_address::Address::create_program_address', 'solana_address::syscalls::create_program_address', 'solana_pubkey::Pubkey::create_program_address')
def _(eng, st, a, i, d, t):
    s = seedcat(eng, st, a[0]); p = strip(eng.val(st, a[1]))
    if s.op in ('cat', 'arr'):
        l = s.args[-1]
        pre = cat(*s.args[:-1]) if s.op == 'cat' else arr()
        if l.op == 'arr' and len(l.args) > 1: pre = cat(pre, arr(*l.args[:-1])); l = arr(l.args[-1])
        if l.op == 'arr' and len(l.args) == 1 and l.args[0] is mk('bump', pre, p): return ret(ok(mk('pda', pre, p)), st)
    c = mk('call', 'create_program_address', s, p); out = []
    for r, s2 in eng.fork(st, isvar(c, 'Ok')):
        if r: out += ret(ok(mk('ok', c)), s2)
        else: s2.ev('fail', c); out += ret(err(mk('errof', c)), s2)
    return out
@prim('solana_sha256_hasher::hash')
def _(eng, st, a, i, d, t):
    v = mk('sha256', strip(eng.val(st, a[0]))); HINT[v] = ('len', 32); return ret(v, st)
@prim('solana_sha256_hasher::hashv')
def _(eng, st, a, i, d, t):
    v = mk('sha256', seedcat(eng, st, a[0])); HINT[v] = ('len', 32); return ret(v, st)

@prim('borsh::de::BorshDeserialize::deserialize', 'borsh::de::BorshDeserialize::try_from_slice')
def _(eng, st, a, i, d, t):
    """a borsh decode is a function of the bytes and the decoded type (the byte layout itself is checked by the S02 rules)"""
    ty = (ttas(eng, i) or [None])[0] or selfty(eng, i)
    if ty is None: return None
    part = eng.names[i].endswith('deserialize')
    b = strip(eng.val(st, content(eng, st, a[0])))
    nm = B(ty['s'].encode())
    v = mk('dec', nm, b)
    c = mk('call', 'borsh' if part else 'borsh_all', nm, b)
    out = []
    rt = eng.types[t]
    for r, s in eng.fork(st, isvar(c, 'Ok')):
        if r:
            if part: eng.storeref(s, a[0], mk('rest', nm, b))
            okt = rt['args'][0] if rt['k'] == 'adt' and rt['path'] == RES else None
            if okt is not None: v = eng.hint(v, okt)
            out += ret(ok(v), s)
        else: s.ev('fail', c); out += ret(err(mk('errof', c)), s)
    return out
@prim('solana_sysvar::Sysvar::get')
def _(eng, st, a, i, d, t):
    ty = (ttas(eng, i) or [None])[0] or selfty(eng, i)
    nm = ty['path'] if ty is not None and ty['k'] == 'adt' else '?'
    c = mk('call', 'sysvar', B(nm.encode())); out = []
    for r, s in eng.fork(st, isvar(c, 'Ok')):
        if r: out += ret(ok(mk('sysvar', nm.split('::')[-1])), s)
        else: s.ev('fail', c); out += ret(err(mk('errof', c)), s)
    return out

import prims_crypto
import prims_wire
