"""Byte-level transfer functions: borsh encoding/decoding of library types, account metas.
The borsh format itself (little-endian integers, u32 length prefixes, one byte per bool) is the trusted specification;
derived implementations of workspace types are analysed from their own MIR."""
import core as C
from terms import *
from prims import prim, ret, panic, content, strip, selfty, ttas, TABLE, TRANSPARENT
VEC = 'alloc::vec::Vec'
AM = 'solana_instruction::account_meta::AccountMeta'
def by(eng, i, name):
    """instance implementing a trait method for the workspace type with type string `ts`"""
    return [k for k, x in enumerate(eng.insts) if x.get('trait_item') == name and x.get('st') is not None and eng.types[x['st']]['s'] == i and str(k) in eng.fns]
def bytelike(ty): return ty['k'] == 'adt' and ty['path'] in TRANSPARENT and ty.get('size') == 32
def copyhints(t, a, b):
    for u in list(walk(t)):
        y = subst(u, a, b)
        if u in HINT: HINT[y] = HINT[u]
        if u in BOOLTERMS: BOOLTERMS.add(y)
def ser(eng, st, ty, v, d=0):
    """bytes of the borsh encoding of value v of type ty, or None"""
    v = strip(eng.val(st, v))
    if ty['k'] == 'ref': return ser(eng, st, eng.types[ty['to']], v, d)
    if ty['k'] == 'bool':
        if not is_bool(v): BOOLTERMS.add(v); HINT.setdefault(v, (False, 1))
        return arr(v)
    if ty['k'] == 'uint' and ty['size'] == 1: return arr(v)
    if ty['k'] == 'uint': return mk('le', ty['size'], v)
    if ty['k'] == 'int': return mk('le', ty['size'], mk('reint', 'u%d' % (8 * ty['size']), v))
    if bytelike(ty): HINT.setdefault(v, ('len', 32)); return v
    if ty['k'] == 'array' and eng.types[ty['to']]['s'] == 'u8': return v
    e = None
    if ty['k'] == 'adt' and ty['path'] == VEC: e = eng.types[ty['args'][0]]
    elif ty['k'] in ('slice', 'array'): e = eng.types[ty['to']]
    elif ty['k'] == 'str' or ty['k'] == 'adt' and ty['path'] == 'alloc::string::String': e = {'k': 'uint', 's': 'u8', 'size': 1}
    if e is not None:
        pre = arr() if ty['k'] == 'array' else mk('le', 4, ln(v))
        if e['s'] == 'u8': return cat(pre, v)
        if v.op == 'arr': parts = [ser(eng, st, e, x, d) for x in v.args]; return None if None in parts else cat(pre, *parts)
        ph = mk('sym', 'elem-index'); x = idx(v, ph)
        b = ser(eng, st, e, x, d)
        if b is None: return None
        m = C.mapterm(v, ph, b)
        if m.op == 'map': copyhints(b, ph, m.args[2])
        return cat(pre, mk('concat', m))
    if ty['k'] == 'adt':
        k = by(eng, ty['s'], 'borsh::ser::BorshSerialize::serialize')
        if not k: return None
        s = st.copy(); s.store[('arg', 'bser')] = v; s.store[('arg', 'bout')] = arr()
        os = [o for o in eng.run(k[0], [ref(('arg', 'bser')), ref(('arg', 'bout'))], s, d + 1)]
        if len(os) != 1 or os[0].kind != 'ret' or os[0].val.op != 'agg' or os[0].val.args[1] != 'Ok': return None
        return os[0].st.store[('arg', 'bout')]
    return None
@prim('borsh::ser::BorshSerialize::serialize')
def _(eng, st, a, i, d, t):
    ty = selfty(eng, i) or (ttas(eng, i) or [None])[0]
    b = ser(eng, st, ty, content(eng, st, a[0]), d)
    if b is None: return None
    w = a[1]
    eng.storeref(st, w, cat(content(eng, st, w), b)); return ret(ok(UNIT), st)
@prim('borsh::ser::helpers::to_vec', 'borsh::to_vec', 'borsh::ser::BorshSerialize::try_to_vec')
def _(eng, st, a, i, d, t):
    ty = (ttas(eng, i) or [None])[0] or selfty(eng, i) or _m(eng, i)
    b = ser(eng, st, ty, content(eng, st, a[0]), d) if ty else None
    return None if b is None else ret(ok(b), st)
@prim('borsh::ser::helpers::to_writer', 'borsh::to_writer')
def _(eng, st, a, i, d, t):
    ty = [eng.types[x] for x in eng.insts[i].get('ma') or [] if x is not None]
    ty = next((x for x in ty if x['k'] in ('ref', 'adt') and by(eng, eng.types[x['to']]['s'] if x['k'] == 'ref' else x['s'], 'borsh::ser::BorshSerialize::serialize')), None)
    b = ser(eng, st, ty, content(eng, st, a[1]), d) if ty else None
    if b is None: return None
    eng.storeref(st, a[0], cat(content(eng, st, a[0]), b)); return ret(ok(UNIT), st)
def _m(eng, i):
    x = (eng.insts[i].get('ma') or eng.insts[i].get('targs') or [None])[0]
    return eng.types[x] if x is not None else None

def de(eng, st, ty, b, d=0):
    """[(value or None on error, rest, state)] decoding the front of byte string b"""
    def fixed(n, f):
        out = []
        for r, s in eng.fork(st, pos(subt(add(ln(b), ONE), I(n)))):
            out.append((f(), sub(b, I(n), ln(b)), s) if r else (None, b, s))
        return out
    if ty['k'] == 'uint': return fixed(ty['size'], lambda: rd(b, ZERO, ty['s']))
    if ty['k'] == 'bool':
        out = []
        for v, r, s in fixed(1, lambda: idx(b, ZERO)):
            if v is None or is_bool(v): out.append((v, r, s)); continue
            for q, s2 in eng.fork(s, pos(subt(I(2), v))): out.append((mk('odd', v) if False else eqz(subt(v, ONE)), r, s2) if q else (None, r, s2))
        return out
    if bytelike(ty): return fixed(32, lambda: sub(b, ZERO, I(32)))
    if ty['k'] == 'array' and eng.types[ty['to']]['s'] == 'u8': return fixed(ty['len'], lambda: sub(b, ZERO, I(ty['len'])))
    if ty['k'] == 'adt' and ty['path'] == VEC:
        e = eng.types[ty['args'][0]]; out = []
        for n, r, s in de(eng, st, {'k': 'uint', 'size': 4, 's': 'u32'}, b, d):
            if n is None: out.append((None, r, s)); continue
            if e['s'] == 'u8':
                for q, s2 in eng.fork(s, pos(subt(add(ln(r), ONE), n))): out.append((sub(r, ZERO, n), sub(r, n, ln(r)), s2) if q else (None, r, s2))
                continue
            if isint(n) and n.args[0] <= 64:
                cur = [((), r, s)]
                for _ in range(n.args[0]):
                    nxt = []
                    for xs, r1, s1 in cur:
                        for v, r2, s2 in de(eng, s1, e, r1, d) or [(None, r1, s1)]:
                            if v is None: out.append((None, r2, s2))
                            else: nxt.append((xs + (v,), r2, s2))
                    cur = nxt
                out += [(arr(*xs), r1, s1) for xs, r1, s1 in cur]; continue
            h = r.args[0] if r.op == 'cat' else r
            if h.op == 'concat' and h.args[0].op == 'map' and ln(h.args[0]) is n:
                coll, body, K = h.args[0].args
                tail = mk('sym', 'elem-tail')
                copyhints(body, K, mk('sym', 'elem-i'))
                os = de(eng, s.copy(), e, cat(subst(body, K, mk('sym', 'elem-i')), tail), d)
                os = [o for o in os if o[0] is not None or not o[2].refuted()]
                if len(os) == 1 and os[0][0] is not None and os[0][1] is tail:
                    v = C.mapterm(coll, mk('sym', 'elem-i'), eta(os[0][0]))
                    out.append((v, sub(r, ln(h), ln(r)) if r is not h else arr(), s) if r is h or True else None); continue
            v = mk('dec', B(ty['s'].encode()), r); c = mk('call', 'borsh', B(ty['s'].encode()), r)
            for q, s2 in eng.fork(s, isvar(c, 'Ok')): out.append((v, mk('rest', B(ty['s'].encode()), r), s2) if q else (None, r, s2))
        return out
    if ty['k'] == 'adt':
        k = by(eng, ty['s'], 'borsh::de::BorshDeserialize::deserialize_reader')
        if not k: return None
        s = st.copy(); c = eng.newcell(s, b); c2 = eng.newcell(s, c)
        out = []
        for o in eng.run(k[0], [c2], s, d + 1):
            if o.kind != 'ret': raise C.AnalysisError('decoder may panic')
            r = eng.loadref(o.st, eng.loadref(o.st, c2))
            if o.val.op == 'agg' and o.val.args[1] == 'Ok': out.append((o.val.args[2], r, o.st))
            else: out.append((None, r, o.st))
        return out
    return None
def eta(v):
    """S{x.f1, x.f2, ..} -> x"""
    if v.op == 'agg' and len(v.args) > 2:
        L = FIELDS.get((v.args[0], v.args[1]))
        if L and len(L) == len(v.args) - 2 and v.args[2].op == 'fld':
            x = v.args[2].args[0]
            if all(a is fld(x, f, j) for j, (a, f) in enumerate(zip(v.args[2:], L))): return x
    return v
@prim('borsh::de::BorshDeserialize::deserialize_reader')
def _(eng, st, a, i, d, t):
    ty = selfty(eng, i) or (ttas(eng, i) or [None])[0]
    b = strip(eng.val(st, content(eng, st, a[0])))
    os = de(eng, st, ty, b, d)
    if os is None: return None
    out = []
    for v, r, s in os:
        w = a[0]
        eng.storeref(s, w, eng.newcell(s, r))
        if v is None: out += ret(err(mk('const', 'borsh-error')), s)
        else: out += ret(ok(v), s)
    return out
_old = {n: TABLE[n] for n in ('borsh::de::BorshDeserialize::deserialize', 'borsh::de::BorshDeserialize::try_from_slice')}
def whole(eng, st, a, i, d, t):
    if not getattr(eng, 'wire', False): return _old['borsh::de::BorshDeserialize::' + eng.names[i].split('::')[-1]](eng, st, a, i, d, t)
    ty = (ttas(eng, i) or [None])[0] or selfty(eng, i)
    part = eng.names[i].endswith('deserialize')
    b = strip(eng.val(st, content(eng, st, a[0])))
    os = de(eng, st, ty, b, d)
    if os is None: return None
    out = []
    for v, r, s in os:
        if v is None: out += ret(err(mk('const', 'borsh-error')), s); continue
        if part: eng.storeref(s, a[0], eng.newcell(s, r)); out += ret(ok(v), s); continue
        for q, s2 in eng.fork(s, eqz(ln(r))): out += ret(ok(v), s2) if q else ret(err(mk('const', 'borsh-trailing')), s2)
    return out
for n in _old: TABLE[n] = whole
FIELDS.setdefault((AM, ''), ['pubkey', 'is_signer', 'is_writable'])
@prim(AM + '::new')
def _(eng, st, a, i, d, t): return ret(agg(AM, '', strip(eng.val(st, a[0])), a[1], TRUE), st)
@prim(AM + '::new_readonly')
def _(eng, st, a, i, d, t): return ret(agg(AM, '', strip(eng.val(st, a[0])), a[1], FALSE), st)

IX = 'solana_instruction::Instruction'
FIELDS.setdefault((IX, ''), ['program_id', 'accounts', 'data'])
@prim(IX + '::new_with_bytes')
def _(eng, st, a, i, d, t): return ret(agg(IX, '', strip(eng.val(st, a[0])), eng.val(st, a[2]), content(eng, st, a[1])), st)
@prim(IX + '::new_with_borsh')
def _(eng, st, a, i, d, t):
    ty = _m(eng, i) or (ttas(eng, i) or [None])[0]
    b = ser(eng, st, ty, content(eng, st, a[1]), d) if ty else None
    return None if b is None else ret(agg(IX, '', strip(eng.val(st, a[0])), eng.val(st, a[2]), b), st)
