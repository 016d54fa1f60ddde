"""Rules over the QueueAccount view itself (api crate): every method analysed over an arbitrary account
region (safety, termination) and over a region satisfying the inductive invariant 16 <= cursor <= length
(functional rules: one obligation per path and per loop back edge)."""
from rules.base import *
import queueacct as Q
ITEM, HDR = Q.ITEM, Q.HDR
N = mk('sym', 'n'); HINT[N] = (False, 64)
IDK = mk('sym', 'id'); HINT[IDK] = ('len', 32)
BASE, METAS, ARGS = mk('sym', 'item'), mk('sym', 'metas'), mk('sym', 'args')
V = lambda x: mk('val', x)
METHODS = {'find_item_by_id': [IDK], 'get_item_by_index': [V(N)], 'remove_item': [V(N)], 'iter_items': [], 'add_item': [BASE, Q.DISC, METAS, ARGS], 'is_empty': [], 'len': []}
WALKERS = ('find_item_by_id', 'get_item_by_index', 'iter_items', 'remove_item', 'add_item')
START = 16
_memo = {}
def off(f): return LAYOUT[ITEM][f]
def size(): return LAYOUT[ITEM]['']
def method(name, wf=True):
    k = (name, wf)
    if k not in _memo:
        obs = []
        e = Q.engine()
        e.obligation = lambda eng, st, kind, info: obs.append((kind, info, dict(st.facts), st.copy()))
        try: _memo[k] = Q.run('QueueAccount::' + name, METHODS[name], wf=wf) + (obs,)
        finally: e.obligation = None
    return _memo[k]
def itemfld(A, c, f):
    o, ty = off(f); return rd(A, add(c, I(o)), ty)
def step(A, c):
    """position following the entry at c (entries are aligned to 8 from the first one)"""
    s = add(add(c, I(size())), add(itemfld(A, c, 'callback_discriminator_len'), add(mul(I(LAYOUT[Q.Q + 'CompactAccountMeta']['']), itemfld(A, c, 'metas_len')), itemfld(A, c, 'args_len'))))
    return C.aligned_down(add(s, I(7)), 8)
def used(A, c): return eqz(subt(itemfld(A, c, 'used'), ONE))
def room(K, c): return pos(subt(K, add(c, I(size() - 1))))
def regions(t):
    """content terms read inside t"""
    return [u for u in {x.args[0]: 1 for x in walk(t) if x.op in ('rd', 'idx', 'sub')} if isinstance(u, T)]
def cond_state(tr, phis, conds):
    """facts holding on a back edge: loop-invariant facts of the path plus the conditions of the iteration"""
    s = C.State()
    for f, v in tr.st.facts.items():
        if not any(occurs(p, f) for p in phis): s.assume(f, v)
    for a, v in conds: s.assume(a, v)
    return s
class Walk:
    """a loop that walks the entries of region A, recognised from its loop-carried cursor"""
    def __init__(s, tr, ev, loops=()):
        s.ok = False; s.tr = tr; s.ev = ev
        s.phis = ev.args[2]; s.backs = ev.args[3]
        pv = [p for p, i in s.phis]
        for c in pv:
            ups = [dict(b.args[1]).get(c) for b in s.backs]
            if not ups or any(u is None or not isinstance(u, T) for u in ups): continue
            for A in regions(ups[0]):
                if all(u is step(A, c) for u in ups): s.c, s.A = c, A; s.ok = True
        if not s.ok: return
        s.K = rd(s.A, I(4), 'u32')
        s.init = dict(s.phis)[s.c]
        # iterations unrolled before the loop head
        s.pre = []
        p = I(START)
        while p is not s.init and len(s.pre) < 3: s.pre.append(p); p = step(s.A, p)
        if p is not s.init: s.ok = False; return
        s.st = []
        for b in s.backs:
            st = cond_state(tr, pv, b.args[0]); m = dict(b.args[1])
            s.st.append((st, m, st.decide(used(s.A, s.c))))
        s.guarded = all(st.decide(room(s.K, s.c)) is True and st.decide(room(ln(s.A), s.c)) is True for st, m, u in s.st) and \
            all(tr.holds(room(s.K, p)) for p in s.pre)
        s.split = all(u is not None for st, m, u in s.st)
    def ended(s):
        """the path left the loop because no further entry fits in the used region"""
        return s.tr.fails(room(s.K, s.c)) or s.tr.fails(room(ln(s.A), s.c))
    def preused(s): return [s.tr.st.decide(used(s.A, p)) for p in s.pre]
def loops(tr): return [e for e in tr.st.events if e.args[0] == 'loop']
def walks(tr): return [w for w in (Walk(tr, e) for e in loops(tr)) if w.ok]
def hdr_only(F, A):
    """strip writes confined to the header bytes"""
    while F is not A:
        if F.op == 'w' and isint(F.args[1]) and isint(F.args[2]) and F.args[1].args[0] + F.args[2].args[0] <= 12: F = F.args[0]
        elif F.op == 'wi' and isint(F.args[1]) and F.args[1].args[0] < 12: F = F.args[0]
        else: return F
    return F
def writes(F, A):
    """[(offset, size)] of the writes leading from A to F, or None"""
    r = []
    while F is not A:
        if F.op == 'w': r.append((F.args[1], F.args[2]))
        elif F.op == 'wi': r.append((F.args[1], ONE))
        else: return None
        F = F.args[0]
    return r
def count_kept(F, A): return rd(F, ZERO, 'u32') is rd(A, ZERO, 'u32')
def cursor_kept_or_trimmed(tr, F, A):
    """final cursor: unchanged, or lowered to the end of the last pending entry of the final region"""
    K, K2 = rd(A, I(4), 'u32'), rd(F, I(4), 'u32')
    if K2 is K or tr.holds(eqz(subt(K2, K))): return True
    return trim_value(tr, F, K2, K)
def trim_value(tr, F, X, K):
    if not tr.holds(pos(subt(K, X))) and not tr.holds(pos(add(subt(K, X), ONE))): return False
    bF = hdr_only(F, None)
    # no entry at all / every entry unrolled
    cands = walks(tr)
    for w in cands:
        if hdr_only(w.A, None) is not bF or not (w.guarded and w.split and w.ended()): continue
        last = I(START)
        for p, u in zip(w.pre, w.preused()):
            if u is None: last = None; break
            if u: last = step(w.A, p)
        if last is None: continue
        for q, i in w.phis:
            if q is w.c or q is not X: continue
            if i is not last: continue
            if all((m.get(q) is step(w.A, w.c)) if u else (m.get(q) is q) for st, m, u in w.st): return True
    p, last = I(START), I(START)
    for _ in range(3):
        if tr.fails(room(K, p)) or tr.fails(room(ln(F), p)): return X is last
        u = tr.st.decide(used(bF, p))
        if u is None: return False
        p2 = step(bF, p)
        if u: last = p2
        p = p2
    return False
def trs(name, wf=True):
    e, outs, obs = method(name, wf)
    return e, [Tr(e, o, 'QueueAccount::%s path %d (%s)' % (name, n, o.kind)) for n, o in enumerate(outs)]
def wfn(e, name): return where_fn(e, 'QueueAccount::<\'a>::' + name)
class M:
    """the pending entry a search stopped at: field getter, position among the pending entries, region cursor"""
    def __init__(s, get, n, c=None): s.get = get; s.n = n; s.c = c
def at(A, c): return lambda f: itemfld(A, c, f)
def same_item(v, get, but=()):
    v = strip(v)
    return all(fld(v, f) is get(f) for f in LAYOUT[ITEM] if f not in ('', '_padding') + but)
def same_entry(v, A, c, but=()): return same_item(v, at(A, c), but)
def find_walk(tr, A):
    ws = [w for w in walks(tr) if hdr_only(w.A, None) is A and w.A is A]
    return ws[0] if ws else None
def counted(w, q, i):
    """position of the entry at the cursor, as a term over q (a loop-carried counter of pending entries passed)"""
    n = 0
    for u in w.preused():
        if u is None: return None
        n += bool(u)
    for sg in (1, -1):
        if all(m.get(q) is (add(q, I(sg)) if u else q) for st, m, u in w.st): return add(mul(I(sg), subt(q, i)), I(n))
    return None
def matched(tr, A, match):
    """first-match search over the pending entries in walking order: the entry this path stopped at, 'none'
    when the search ended without a match, None when the path is no such search"""
    w = find_walk(tr, A)
    K = rd(A, I(4), 'u32')
    if w is None:       # decided on the entries unrolled before any loop
        p, n = I(START), 0
        for _ in range(4):
            if tr.fails(room(K, p)) or tr.fails(room(ln(A), p)): return 'none'
            if not tr.holds(room(K, p)): return None
            u = tr.st.decide(used(A, p))
            if u is None: return None
            if u:
                m = tr.st.decide(match(at(A, p), I(n)))
                if m is None: return None
                if m: return M(at(A, p), I(n), p)
                n += 1
            p = step(A, p)
        return None
    if not (w.guarded and w.split): return None
    r = matched_walk(tr, A, match, w)
    if r is None:
        for L in [q for q, i in w.phis if q is not w.c]:
            if listed(tr, A, L): r = matched_list(tr, L, match) or r
    return r
def matched_walk(tr, A, match, w):
    n = 0
    for p, u in zip(w.pre, w.preused()):
        if u is None or u and tr.st.decide(match(at(A, p), I(n))) is not False: return None
        n += bool(u)
    cs = [(q, c) for q, c in [(q, counted(w, q, i)) for q, i in w.phis if q is not w.c] if c is not None]
    for q, c in cs or [(None, None)]:
        mt = match(at(A, w.c), c)
        if mt is None: continue
        if any(u and st.decide(mt) is not False for st, m, u in w.st): continue
        if w.ended(): return 'none'
        if tr.holds(room(w.K, w.c)) and tr.holds(room(ln(A), w.c)) and tr.holds(used(A, w.c)) and tr.holds(mt): return M(at(A, w.c), c, w.c)
    return None
def matched_list(tr, L, match):
    """search over the enumerated entries L by a position running 0,1,2,.."""
    item = lambda k: (lambda f: fld(idx(L, k), f))
    for k in (N,):
        mt = match(item(k), k)          # direct access by position
        if mt is TRUE:
            if tr.fails(pos(subt(ln(L), k))): return 'none'
            if tr.holds(pos(subt(ln(L), k))): return M(item(k), k)
    for ev in loops(tr):
        pv = [p for p, i in ev.args[2]]
        for k, i in ev.args[2]:
            if i is not ZERO or not ev.args[3] or not all(dict(b.args[1]).get(k) is add(k, ONE) for b in ev.args[3]): continue
            mt = match(item(k), k)
            if mt is None or not all(cond_state(tr, pv, b.args[0]).decide(mt) is False for b in ev.args[3]): continue
            if tr.fails(pos(subt(ln(L), k))): return 'none'
            if tr.holds(mt) and tr.holds(pos(subt(ln(L), k))): return M(item(k), k)
    # a quantified fact left by a search primitive
    for f, v in tr.st.facts.items():
        if f.op == 'any' and f.args[0] is L and not v:
            if match(lambda g: fld(idx(L, f.args[1]), g), f.args[1]) is f.args[2]: return 'none'
    return None
def by_id(get, n): return eqv(IDK, get('id'))
def by_pos(get, n): return None if n is None else eqz(subt(N, n))
def listed(tr, A, L):
    """L enumerates the pending entries of A in walking order"""
    w = find_walk(tr, A); K = rd(A, I(4), 'u32')
    if w is None or not any(q is L for q, i in w.phis):
        xs, p = [], I(START)
        for _ in range(4):
            if tr.fails(room(K, p)) or tr.fails(room(ln(A), p)):
                es = elems(L) if L.op in ('arr', 'bytes') else None
                return es is not None and len(es) == len(xs) and all(same_entry(e, A, x) for e, x in zip(es, xs))
            u = tr.st.decide(used(A, p))
            if u is None: return False
            if u: xs.append(p)
            p = step(A, p)
        return False
    if not (w.guarded and w.split and w.ended()): return False
    i = dict(w.phis)[L]
    xs = [p for p, u in zip(w.pre, w.preused()) if u]
    if None in w.preused(): return False
    es = elems(i) if i.op in ('arr', 'bytes') else None
    if es is None or len(es) != len(xs) or not all(same_entry(e, A, x) for e, x in zip(es, xs)): return False
    for st, m, u in w.st:
        v = m.get(L)
        if not u:
            if v is not L: return False
        else:
            ps = catparts(v)
            if len(ps) != 2 or ps[0] is not L or ps[1].op != 'arr' or len(ps[1].args) != 1 or not same_entry(ps[1].args[0], A, w.c): return False
    return True
def final(tr): return tr.st.store[Q.CELL]
def opt(v): return strip(v)
def unchanged(tr, A): return final(tr) is A
def method_rule(ctx, name, chk):
    e, ts = trs(name); ctx.saw(e, ts)
    w = wfn(e, name)
    ctx.ob('method-has-a-returning-path@' + name, any(t.o.kind == 'ret' for t in ts), w)
    for t in ts:
        if t.o.kind != 'ret': continue
        for k, p in chk(t):
            try: ok = bool(p())
            except (IndexError, KeyError, AttributeError, TypeError): ok = False
            ctx.ob('%s@%s' % (k, name), ok, w, t.text)
A0 = Q.WACC
def find_checks(t):
    v = opt(t.o.val)
    def r():
        m = matched(t, A0, by_id)
        if v.args[1] == 'None': return m == 'none'
        pr = v.args[2]
        return fld(pr, '0', 0) is m.n and same_item(fld(pr, '1', 1), m.get)
    return [('lookup-by-id-is-first-pending-match-with-its-position', r), ('lookup-leaves-queue-unchanged', lambda: unchanged(t, A0))]
def get_checks(t):
    v = opt(t.o.val)
    def r():
        m = matched(t, A0, by_pos)
        if v.args[1] == 'None': return m == 'none'
        return same_item(v.args[2], m.get)
    return [('lookup-by-position-is-nth-pending-entry', r), ('lookup-leaves-queue-unchanged', lambda: unchanged(t, A0))]
def iter_checks(t):
    v = opt(t.o.val)
    def r():
        if v.op != 'it' or v.args[2] is not ZERO: return False
        L = v.args[1]
        return v.args[3] is ln(L) and listed(t, A0, L)
    return [('enumeration-lists-pending-entries-in-order', r), ('lookup-leaves-queue-unchanged', lambda: unchanged(t, A0))]
def rm_position(t): return matched(t, A0, by_pos)
def rm_checks(t):
    v = opt(t.o.val); F = final(t)
    if v.args[1] == 'Err':
        return [('failed-removal-only-when-position-not-occupied', lambda: rm_position(t) == 'none'),
                ('failed-removal-changes-nothing', lambda: hdr_only(F, A0) is A0 and count_kept(F, A0) and cursor_kept_or_trimmed(t, F, A0))]
    def entry():
        m = rm_position(t); return same_item(v.args[2], m.get, ('used',))
    def marks():
        c = rm_position(t).c
        return itemfld(F, c, 'used') is ZERO and all(itemfld(F, c, f) is itemfld(A0, c, f) for f in LAYOUT[ITEM] if f not in ('', '_padding', 'used'))
    def count():
        x = rd(F, ZERO, 'u32'); y = rd(A0, ZERO, 'u32')
        return x is mk('satsub', y, ONE) or x is subt(y, ONE)
    def only():
        c = rm_position(t).c
        for o, s in writes(F, A0):
            if isint(o) and isint(s) and o.args[0] + s.args[0] <= 12: continue
            if not (t.ge(o, c) and t.ge(add(c, I(size())), add(o, s))): return False
        return rd(F, I(8), 'u8') is rd(A0, I(8), 'u8')
    return [('removal-returns-nth-pending-entry', entry), ('removal-frees-exactly-that-entry', marks), ('removal-lowers-count-by-one', count),
            ('removal-touches-nothing-else', only), ('reclaims-only-beyond-last-pending-entry', lambda: cursor_kept_or_trimmed(t, F, A0))]
def add_where(t):
    """(position of the new entry, cursor it was appended at)"""
    K = rd(A0, I(4), 'u32'); F = final(t)
    cands = []
    for w in walks(t):
        for q, i in w.phis:
            if q is not w.c and t.holds(pos(subt(K, q))) and trim_value(t, w.A, q, K): cands.append(q)
    cands += [x for x in (I(START),) if t.holds(pos(subt(K, x))) and trim_value(t, A0, x, K)] + [K]
    for k in cands:
        a = C.aligned_down(add(k, I(7)), 8)
        for p in (k, a):
            if p is not a and not t.holds(eqz(subt(p, a))): continue
            if itemfld(F, p, 'used') is ONE: return p, k
    return None, None
def add_len(): return add(add(I(size()), ln(Q.DISC)), add(mul(I(LAYOUT[Q.Q + 'CompactAccountMeta']['']), ln(METAS)), ln(ARGS)))
def add_checks(t):
    v = opt(t.o.val); F = final(t)
    if v.args[1] == 'Err':
        return [('rejected-insertion-leaves-no-partial-entry', lambda: hdr_only(F, A0) is A0 and count_kept(F, A0) and cursor_kept_or_trimmed(t, F, A0)),
                ('insertion-rejected-only-if-oversized-or-full', lambda: add_may_reject(t))]
    P, k = add_where(t)
    def contents():
        rdf = lambda f: itemfld(F, P, f)
        ok = all(rdf(f) is fld(BASE, f) for f in ('slot', 'id', 'callback_program_id', 'priority_request'))
        C33 = LAYOUT[Q.Q + 'CompactAccountMeta']['']
        d, m, a = rdf('callback_discriminator_offset'), rdf('metas_offset'), rdf('args_offset')
        ok = ok and rdf('callback_discriminator_len') is ln(Q.DISC) and rdf('metas_len') is ln(METAS) and rdf('args_len') is ln(ARGS)
        ok = ok and sub(F, d, add(d, ln(Q.DISC))) is Q.DISC and sub(F, a, add(a, ln(ARGS))) is ARGS
        ms = sub(F, m, add(m, mul(I(C33), ln(METAS))))
        return ok and ms.op == 'pod' and ms.args[1] is METAS
    def within():
        end = add(P, add_len())
        rs = [(itemfld(F, P, o), n) for o, n in (('callback_discriminator_offset', ln(Q.DISC)), ('metas_offset', mul(I(33), ln(METAS))), ('args_offset', ln(ARGS)))]
        return all(t.ge(o, add(P, I(size()))) and t.ge(end, add(o, n)) for o, n in rs)
    def cursor():
        e = add(P, add_len())
        return rd(F, I(4), 'u32') is e and t.ge(ln(A0), e)
    def only():
        for o, s in writes(F, A0):
            if isint(o) and isint(s) and o.args[0] + s.args[0] <= 12: continue
            if not (t.ge(o, k) and t.ge(add(P, add_len()), add(o, s))): return False
        return rd(F, I(8), 'u8') is rd(A0, I(8), 'u8')
    return [('entry-appended-at-next-walking-position', lambda: P is not None), ('entry-stored-without-truncation', contents), ('entry-data-inside-its-own-extent', within),
            ('cursor-covers-new-entry-and-fits', cursor), ('insertion-touches-nothing-else', only),
            ('insertion-raises-count-by-one', lambda: rd(F, ZERO, 'u32') is add(rd(A0, ZERO, 'u32'), ONE)),
            ('position-returned-by-insertion-is-that-of-the-new-entry', lambda: strip(v.args[2]) is rd(A0, ZERO, 'u32'))]
LIMITS = [('metas', pos(subt(ln(METAS), I(20)))), ('args', pos(subt(ln(ARGS), I(512)))), ('disc', pos(subt(ln(Q.DISC), I(8))))]
def add_may_reject(t):
    K = rd(A0, I(4), 'u32')
    ks = [K, I(START)] + [q for w in walks(t) for q, i in w.phis if q is not w.c]
    for k in ks:
        if k is not K and not t.holds(pos(subt(K, k))): continue
        s = t.st.copy()
        a = C.aligned_down(add(k, I(7)), 8)
        if not all(s.assume(l, False) for n, l in LIMITS) or not s.assume(pos(add(subt(ln(A0), add(a, add_len())), ONE)), True) or s.refuted(): return True
    return False
@rule('Q01')
def q01(ctx):
    """every path of insertion appends one entry at the position the walk reaches next, with exact contents, and writes nothing else; every path of removal frees exactly one entry; lookups return stored contents; count changes with the entry"""
    method_rule(ctx, 'add_item', add_checks)
    method_rule(ctx, 'remove_item', rm_checks)
    method_rule(ctx, 'find_item_by_id', find_checks)
    method_rule(ctx, 'get_item_by_index', get_checks)
    method_rule(ctx, 'iter_items', iter_checks)
    counts(ctx); load_rule(ctx)
@rule('Q02')
def q02(ctx):
    """every traversal starts at the same entry, advances by the same step over the same bounds, selects pending entries by the same flag, and counts positions identically"""
    for n, c in (('find_item_by_id', find_checks), ('get_item_by_index', get_checks), ('iter_items', iter_checks), ('remove_item', rm_checks), ('add_item', add_checks)):
        method_rule(ctx, n, lambda t, c=c: [x for x in c(t) if not x[0].startswith(('rejected', 'insertion-rejected', 'entry-stored', 'entry-data', 'cursor', 'insertion', 'failed-removal-changes', 'removal-lowers', 'removal-touches'))])
    counts(ctx)
@rule('Q03')
def q03(ctx):
    """removal frees exactly the n-th pending entry, lowers the count by one, returns the entry, and the cursor only ever drops to the end of the last pending entry (checked wherever the cursor is lowered)"""
    method_rule(ctx, 'remove_item', rm_checks)
    method_rule(ctx, 'add_item', lambda t: [x for x in add_checks(t) if x[0].startswith(('entry-appended', 'rejected'))])
def counts(ctx):
    for name, exp in (('len', rd(A0, ZERO, 'u32')), ('is_empty', eqz(rd(A0, ZERO, 'u32')))):
        e, ts = trs(name); ctx.saw(e, ts)
        for t in ts: ctx.ob('reported-count-is-header-count@' + name, t.o.kind == 'ret' and strip(t.o.val) is exp, wfn(e, name), t.text)
    # the same views on a bare header
    e = Q.engine(); hc = ('arg', 'hdr')
    for name, exp in (('len', rd(A0, ZERO, 'u32')), ('is_empty', eqz(rd(A0, ZERO, 'u32')))):
        ks = [k for k in range(len(e.insts)) if str(k) in e.fns and e.insts[k]['path'] == 'state::queue::Queue::' + name]
        for k in ks:
            st = Q.state(True); st.store[hc] = Q.WACC
            outs = e.run(k, [e.subref(ref(hc), ('ss', ZERO, I(12)), ('view', Q.HDR))], st, 0); ctx.saw(e, outs)
            for o in outs: ctx.ob('reported-count-is-header-count@header-' + name, o.kind == 'ret' and strip(o.val) is exp, 'state::queue::Queue::' + name, lambda: show(o.val, 9))
def load_rule(ctx, arbitrary=False):
    e = Q.engine(); st = C.State(); st.store[Q.CELL] = Q.ACC
    outs = e.run(Q.inst(e, 'QueueAccount::load'), [ref(Q.CELL)], st, 0); ctx.saw(e, outs)
    K = rd(Q.ACC, I(4), 'u32'); w = wfn(e, 'load')
    for n, o in enumerate(outs):
        t = Tr(e, o, 'QueueAccount::load path %d' % n)
        ctx.ob('load-never-panics@load', o.kind == 'ret', w, t.text)
        if o.kind != 'ret': continue
        v = opt(o.val); F = final(t)
        if v.args[1] == 'Err': ctx.ob('failed-load-changes-nothing@load', F is Q.ACC, w, t.text); continue
        ctx.ob('load-requires-header@load', t.ge(ln(Q.ACC), I(12)), w, t.text)
        k2 = rd(F, I(4), 'u32')
        ok = hdr_only(F, Q.ACC) is Q.ACC and count_kept(F, Q.ACC) and rd(F, I(8), 'u8') is rd(Q.ACC, I(8), 'u8')
        ok = ok and (k2 is K and t.holds(pos(K)) or k2 is I(START) and t.holds(eqz(K)))
        ctx.ob('load-initialises-only-an-empty-cursor@load', ok, w, t.text)
def available(e, st, p):
    """bytes readable from raw pointer p (None if unknown)"""
    c, pr = e.loc(p)
    pr = list(pr)
    while pr and pr[-1][0] in ('view', 'first', 'viewn', 'bytes'):
        x = pr.pop()
        if x[0] == 'bytes':
            d = x[1]
            if isinstance(d, tuple) and d[0] == 'slice':
                base = C.content(e, st, ref(c, tuple(pr))) if hasattr(C, 'content') else None
                from prims import content
                n = ln(content(e, st, ref(c, tuple(pr))))
                return mul(I(tysize(d[1])), n)
            return I(tysize(d)) if tysize(d) is not None else None
    if pr and pr[-1][0] == 'ss': return subt(pr[-1][2], pr[-1][1])
    if not pr:
        from prims import content
        return ln(content(e, st, ref(c, ())))
    return None
RAW = ('raw_slice', 'raw_read', 'raw_write', 'raw_copy_src', 'raw_copy_dst', 'raw_index')
def raw_checks(ctx, e, name, obs):
    w = where_fn(e, name)
    for kind, info, facts, st in obs:
        if kind not in RAW: continue
        if kind == 'raw_index': ok = st.decide(info[1]) is True
        else:
            ty = info[3]; sz = ty.get('size') if isinstance(ty, dict) else None
            n = I(1) if info[2] is None else info[2]
            try: av = available(e, st, info[1])
            except Exception: av = None
            ok = sz is not None and av is not None and (subt(av, mul(I(sz), n)) is ZERO or st.decide(pos(add(subt(av, mul(I(sz), n)), ONE))) is True)
        ctx.ob('raw-access-in-bounds@%s/%s' % (name, kind), ok, w, lambda: '%s on %s' % (kind, show(info[1], 8)[:600]))
@rule('Q04')
def q04(ctx):
    """over arbitrary account bytes: every unchecked (raw-pointer) access is inside the slice it was derived from, slices are taken by checked indexing only, and the reading operations have no panicking path"""
    for name in WALKERS:
        e, outs, obs = method(name, False); ctx.saw(e, outs)
        raw_checks(ctx, e, name, obs)
        if name != 'add_item':
            for o in outs: ctx.ob('reading-never-panics@' + name, o.kind == 'ret', wfn(e, name), Tr(e, o, name).text)
    load_rule(ctx)
    IT = mk('sym', 'it')
    for name, o_, l_, el in (('callback_discriminator', 'callback_discriminator_offset', 'callback_discriminator_len', 1), ('account_metas', 'metas_offset', 'metas_len', 33), ('callback_args', 'args_offset', 'args_len', 1)):
        obs = []; e = Q.engine()
        e.obligation = lambda eng, st, kind, info: obs.append((kind, info, dict(st.facts), st.copy()))
        try: e, outs = Q.run('QueueItem::' + name, [IT, Q.ACC], view=False)
        finally: e.obligation = None
        ctx.saw(e, outs); raw_checks(ctx, e, name, obs)
        from prims import content
        for o in outs:
            t = Tr(e, o, name)
            ctx.ob('accessor-never-panics@' + name, o.kind == 'ret', where_fn(e, name), t.text)
            if o.kind != 'ret': continue
            x = strip(content(e, o.st, o.val))
            s, n = fld(IT, o_), mul(I(el), fld(IT, l_))
            fits = o.st.decide(pos(add(subt(ln(Q.ACC), add(s, n)), ONE)))
            if fits is False: ctx.ob('inconsistent-entry-yields-empty-view@' + name, ln(x) is ZERO, where_fn(e, name), t.text)
            else:
                y = x.args[0] if x.op == 'viewn' else x
                good = fits is True and (x is sub(Q.ACC, s, add(s, n)) or x.op in ('rdn', 'viewn', 'podn', 'as_slice') or occurs(sub(Q.ACC, s, add(s, n)), x))
                ctx.ob('accessor-returns-recorded-bytes@' + name, good, where_fn(e, name), lambda: t.text() + '\n  returns ' + show(x, 9))
    for name in ('Queue::try_from_bytes', 'Queue::try_from_bytes_mut'):
        e, outs = Q.run(name, [Q.ACC], view=False); ctx.saw(e, outs)
        for o in outs:
            t = Tr(e, o, name)
            ctx.ob('header-decoding-never-panics@' + name, o.kind == 'ret', where_fn(e, name), t.text)
            if o.kind == 'ret' and opt(o.val).args[1] == 'Ok':
                ctx.ob('header-decoded-only-from-tagged-long-enough-data@' + name, t.ge(ln(Q.ACC), I(20)) and (t.holds(eqv(B(bytes([3] + [0] * 7)), sub(Q.ACC, ZERO, I(8)))) or t.holds(eqz(subt(idx(Q.ACC, ZERO), I(3))))), where_fn(e, name), t.text)
@rule('Q05')
def q05(ctx):
    """every loop of every queue method has a loop-carried integer that strictly increases on each back edge and is below the account length whenever the body repeats"""
    for name in WALKERS:
        e, outs, obs = method(name, False); ctx.saw(e, outs)
        for o in outs:
            t = Tr(e, o, 'QueueAccount::%s' % name)
            for ev in loops(t): ctx.ob('loop-has-ranking-argument@' + name, ranked(t, ev), wfn(e, name), lambda: 'loop %s\n%s' % (ev.args[1], t.text()))
def ranked(t, ev):
    pv = [p for p, i in ev.args[2]]
    if not ev.args[3]: return True
    sts = [(cond_state(t, pv, b.args[0]), dict(b.args[1])) for b in ev.args[3]]
    for p in pv:
        if not all(isinstance(m.get(p), T) and st.decide(pos(subt(m[p], p))) is True for st, m in sts): continue
        if all(any(st.decide(pos(subt(b, p))) is True for b in bounds_for(st, p, pv)) for st, m in sts): return True
    return False
def bounds_for(st, p, pv):
    """loop-invariant upper bounds of p among the conditions of the iteration"""
    r = [ln(Q.ACC)]
    for f, v in st.facts.items():
        if f.op == 'pos' and occurs(p, f):
            c, parts = lin_parts(f.args[0]); k = dict(parts).get(p)
            if k in (1, -1):
                rest = mklin(c, [(x, q) for x, q in parts if x is not p])
                if any(occurs(z, rest) for z in pv): continue
                b = rest if k == -1 else mklin(-c, [(x, -q) for x, q in parts if x is not p])
                r += [b, add(b, ONE)]
    return r
@rule('R05')
def r05q(ctx):
    """insertion refuses more than 20 accounts, more than 512 argument bytes and anything beyond the remaining space, before writing anything; accepted entries are stored with full lengths"""
    method_rule(ctx, 'add_item', add_checks)
    for t in trs('add_item')[1]:
        if t.o.kind == 'ret' and opt(t.o.val).args[1] == 'Ok':
            for n, l in LIMITS[:2]: ctx.ob('insertion-limits-%s@add_item' % n, t.fails(l), 'QueueAccount::add_item', t.text)
