"""The oracle service: every task of the process, from main and each spawned future, as one interpretation unit."""
from rules.base import *
import re
import prims as P, prims_off
import rules.sdk as S
_c = {}
SUMM = ('compute_vrf', 'verify_vrf', 'generate_vrf_keypair')
def opaque(name):
    def f(eng, st, a, i, d, t):
        if eng.types[t]['k'] == 'bool': 
            c = mk('call', name, *[eng.argval(st, x, i, j) for j, x in enumerate(a)]); BOOLTERMS.add(c)
            return [C.Out('ret', c, st)]
        return eng.opaque_call(name, a, st, d, t, i)
    return f
def iter_items(eng, st, a, i, d, t):
    """summary of QueueAccount::iter_items (rules Q02..Q05 establish it): the live items of the account bytes"""
    acc = a[0]
    while acc.op == 'ref': acc = eng.loadref(st, acc)
    l = mk('items', strip(eng.val(st, fld(acc, 'acc', 1))))
    return [C.Out('ret', P.it('val', l, ZERO, ln(l)), st)]
def account_metas(eng, st, a, i, d, t):
    l = mk('metas', strip(eng.val(st, eng.loadref(st, a[0]))), strip(eng.val(st, eng.loadref(st, a[1]))))
    return [C.Out('ret', eng.newcell(st, l), st)]
QUEUE = 'ephemeral_vrf_api::state::queue::Queue'
MINLEN = 20
def src_next(eng, st, a, i, d, t):
    v = eng.val(st, a[0])
    eng.storeref(st, a[0], mk('mutby', 'next', v))
    return [C.Out('ret', mk('srcnext', v), st)]
def src_await(eng, st, f, outty):
    """summary of QueueUpdateSource::next (rule `sources` establishes it for every implementation): nothing, or
    (address, the queue header decoded from the bytes, the bytes of a decodable queue account, slot)"""
    k = sum(1 for x in st.events if x.args[0] == 'await' and x.args[2] is f)
    st.ev('await', 'QueueUpdateSource::next', f)
    c = mk('call', 'await QueueUpdateSource::next', f, mk('site', eng.site()), k)
    out = []
    for b, s in eng.fork(st, isvar(c, 'Some')):
        if not b: out.append(C.Out('ret', NONE, s)); continue
        r = fld(as_(c, 'Some'), '0', 0); by = mk('updbytes', r)
        if s.assume(pos(subt(ln(by), I(MINLEN - 1))), True) is False: continue
        out.append(C.Out('ret', some(tup(mk('updkey', r), rd(by, I(8), QUEUE), by, mk('updslot', r))), s))
    return out
def engine():
    if 'e' not in _c:
        e = C.Engine(extract.load('vrf_oracle-bin', 'workspace'), offchain=True)
        for n in SUMM: e.summaries['ephemeral_vrf::vrf::' + n] = opaque('ephemeral_vrf::vrf::' + n)
        e.summaries['ephemeral_vrf_api::state::queue::QueueAccount::iter_items'] = iter_items
        e.summaries['ephemeral_vrf_api::state::queue::QueueItem::account_metas'] = account_metas
        e.impure = lambda n: 'Instant' in n or 'SystemTime' in n or 'rand' in n.split('::')[0] or n.endswith('QueueUpdateSource::next')
        e.eventful = lambda n: n in ('std::process::exit', 'std::process::abort')
        e.summaries['oracle::client::QueueUpdateSource::next'] = src_next
        e.futures = {'srcnext': src_await}
        e.cut = ('oracle::client::OracleClient::run::{closure#0}',)
        _c['e'] = e
    return _c['e']
def thaw(e, st, v, memo):
    """rebuild pointers from a deep snapshot"""
    if v in memo: return memo[v]
    if v.op == '&': r = e.newcell(st, thaw(e, st, v.args[0], memo))
    elif v.op in ('agg', 'upd') and any(isinstance(x, T) for x in v.args):
        r = C.rebuild(v.op, tuple(thaw(e, st, x, memo) if isinstance(x, T) else x for x in v.args))
    else: r = v
    memo[v] = r
    return r
def allev(evs, ctx=()):
    """every event with the loops enclosing it"""
    for x in evs:
        if x.args[0] == 'loop':
            for b in x.args[3]:
                yield from allev(b.args[2], ctx + ((x, b),))
        else: yield x, ctx
class Unit:
    """one task: its body interpreted from the values it captured"""
    def __init__(self, name, outs, src=None, facts=()): self.name, self.outs, self.src, self.facts = name, outs, src, facts
    def sites(self):
        if not hasattr(self, '_s'): self._s = all_sites(self)
        return self._s
class Site:
    """one recorded effect: the events before it on its path, the facts that hold there, the locks held, the enclosing loops"""
    def __init__(s, u, o, ev, pre, n, facts, held, ctx): s.u, s.o, s.ev, s.pre0, s.n, s.facts, s.held, s.ctx = u, o, ev, pre, n, facts, held, ctx
    @property
    def pre(s):
        r = []
        for l, n in s.pre0: r += l[:n]
        return r + s.ctxlist()[:s.n]
    def ctxlist(s): return list(s.ctx[-1][1].args[2]) if s.ctx else list(s.o.st.events)
    def state(s):
        if not hasattr(s, '_st'):
            s._st = C.State()
            for f, v in s.facts.items(): s._st.assume(f, v)
        return s._st
def own(lev): return {p for p, i in lev.args[2]}
def all_sites(u):
    """every effect of a task; what happens in a loop is listed once, under the facts all paths through the loop share"""
    loops_ = {}; out = []
    def go(evs, held, pre, facts, ctx, o):
        evs = list(evs); held = dict(held)
        for n, x in enumerate(evs):
            if x.args[0] == 'loop':
                ph = own(x)
                base = {(f, v) for f, v in facts.items() if not any(y in ph for y in walk(f))}
                k = (ctx, tuple(evs[:n + 1]))
                if k in loops_: loops_[k][0] &= base
                else: loops_[k] = [base, x, dict(held), pre + ((evs, n),), ctx, o]
                continue
            out.append(Site(u, o, x, pre, n, facts, dict(held), ctx))
            if x.args[0] == 'lock': held[x.args[3]] = (x.args[1], x.args[2])
            elif x.args[0] == 'unlock': held.pop(x.args[2], None)
    for o in u.outs: go(o.st.events, {}, (), dict(o.st.facts), (), o)
    while loops_:
        todo = list(loops_.values()); loops_.clear()
        for base, x, held, pre, ctx, o in todo:
            for b in x.args[3]: go(b.args[2], held, pre, {**dict(base), **dict(b.args[0])}, ctx + ((x, b),), o)
    return out
def body(e, st, v):
    """run a task value (a coroutine) to completion"""
    return prims_off.await_(e, st, v, None, 0, 'task', None)
LEAF = ('int', 'bytes', 'zeros', 'sym', 'pod')
def spawned(u):
    """the tasks a unit starts, each with the facts every start of it shares"""
    seen = {}
    for s in u.sites():
        if s.ev.args[0] not in ('spawn', 'sub'): continue
        v = s.ev.args[1]
        f = set(s.facts.items())
        seen[v] = f & seen[v] if v in seen else f
    return {v: list(f) for v, f in seen.items()}
def handlers(u):
    """closures a task hands to code outside the workspace (request handlers)"""
    seen = {}
    for s in u.sites():
        for y in walk(s.ev):
            if y.op == 'agg' and y.args[0] == 'closure': seen[y] = True
    for o in u.outs:
        for f in list(o.st.facts) + ([o.val] if o.val is not None else []):
            for y in walk(f):
                if y.op == 'agg' and y.args[0] == 'closure': seen[y] = True
    return list(seen)
def handler(e, v):
    """a handler's outcomes on arbitrary arguments, its future included"""
    i = str(v.args[1]); st = C.State(); raw = e.fns.get(i)
    if raw is None: return None
    outs = []
    for o in e.call_value(thaw(e, st, v, {}), [mk('sym', 'request%d' % k) for k in range(raw['argc'] - 1)], st, 0):
        if o.kind == 'ret' and o.val is not None and is_co(e.deref(o.st, o.val) if hasattr(e, 'deref') else o.val): outs += body(e, o.st, o.val)
        else: outs.append(o)
    return outs
def is_co(v): return v.op == 'agg' and v.args[0] == 'coroutine'
def general(v, facts):
    """forget what one start of a task has over another: identity, request, account and queue become symbols"""
    kp = list(dict.fromkeys(x for x in walk(v) if x.op == 'call' and x.args[0].endswith('from_base58_string')))
    m = {kp[0]: mk('sym', 'identity')} if len(kp) == 1 else {}
    if m: v, facts = substm(v, m), [(substm(f, m), b) for f, b in facts]
    j = job(v, facts)
    m = {}
    if j is not None and j.queue is not None and j.data is not None:
        D = mk('sym', 'account')
        m = {j.item.args[0]: mk('items', sub(D, I(8), ln(D))), j.item.args[1]: mk('sym', 'position')}
        m1 = {j.data: D, j.queue: mk('sym', 'queue')}
        v, facts = [substm(substm(x, m), m1) if isinstance(x, T) else [(substm(substm(f, m), m1), b) for f, b in x] for x in (v, facts)]
    sub_ = {y for y in walk(v) if y.args and y.op not in LEAF and y.op not in ('agg', '&', 'call')}
    sub_ |= {x for y in walk(v) if y.op not in ('fld', 'as') for x in y.args if isinstance(x, T) and x.op == 'call'}
    if m: sub_ = {mk('sym', 'position'), mk('sym', 'queue')}
    facts = [(f, b) for f, b in facts if any(y in sub_ for y in walk(f)) and not (m and any(y.op in ('phi', 'shared') for y in walk(f)))]
    return v, frozenset(facts)
def units():
    if 'u' in _c: return _c['u']
    e = engine(); us = []; seen = {}; _c['gen'] = {}
    m = [k for k in e.find('main') if e.insts[k]['path'] == 'main' and e.insts[k]['crate'] == 'vrf_oracle'][0]
    us.append(Unit('main', e.run(m, [], C.State(), 0)))
    n = 0
    while n < len(us):
        for v0, facts in spawned(us[n]).items():
            if not is_co(v0): continue
            v, facts = general(v0, facts)
            key = (v, facts)
            if key not in seen:
                st = C.State()
                for f, b in facts: st.assume(f, b)
                seen[key] = Unit(e.insts[int(v.args[1])]['path'], body(e, st, thaw(e, st, v, {})), v, facts)
                us.append(seen[key])
            l = _c['gen'].setdefault(v0, [])
            if seen[key] not in l: l.append(seen[key])
        for v in handlers(us[n]):
            if v in seen: continue
            seen[v] = True; outs = handler(e, v)
            if outs is not None: us.append(Unit(e.insts[int(v.args[1])]['path'], outs, v))
        n += 1
    _c['u'] = us
    return us

# ---------------------------------------------------------------- roles
import rules.cli as K
SEND = ('send_transaction', 'send_and_confirm', 'send_versioned')
def is_send(x): return x.args[0] == 'await' and any(n in x.args[1] for n in SEND)
def is_net(x): return x.args[0] == 'await'
def has_send(u): return any(is_send(s.ev) for s in u.sites())
class Model:
    """who does what: the worker tasks, where they are started, which lock holds the claims and which the handles"""
    def __init__(m):
        m.e = engine(); m.us = units()
        m.bysrc = _c['gen']
        m.workers = [u for u in m.us if u.src is not None and has_send(u)]
        m.wsrc = {v for v, l in m.bysrc.items() if any(u in m.workers for u in l)}
        m.starts = [s for u in m.us for s in u.sites() if s.ev.args[0] == 'spawn' and s.ev.args[1] in m.wsrc]
        m.jobs = {}
        for s in m.starts:
            j = job(s.ev.args[1], s.facts.items()); o = m.jobs.get(s.ev.args[1])
            if o is None or o.queue is None: m.jobs[s.ev.args[1]] = j
        for u in m.workers: m.jobs[u.src] = job(u.src, u.facts)
        # units that (transitively) start workers
        m.feeders = {u for u in m.us if any(s.u is u for s in m.starts)}
        while True:
            more = {u for u in m.us if u not in m.feeders and any(s.ev.args[0] in ('spawn', 'sub') and any(w in m.feeders for w in m.bysrc.get(s.ev.args[1], ())) for s in u.sites())}
            if not more: break
            m.feeders |= more
        m.claim = None; cl = None
        for s in m.starts:
            c = {k[0] for k in claims(m, s)}
            cl = c if cl is None else cl & c
        m.claims = cl or set()
        hs = None
        for s in m.starts:
            c = {lk for lk, acq, key in handles(m, s)}
            hs = c if hs is None else hs & c
        m.handles = hs or set()
def model():
    if 'm' not in _c: _c['m'] = Model()
    return _c['m']
class Job:
    def __init__(j, item, id, queue, index, data, kp): j.item, j.id, j.queue, j.index, j.data, j.kp = item, id, queue, index, data, kp
def root(X):
    """the account bytes (past the 8-byte tag) an item list was decoded from"""
    while X.op in ('w', 'wi'): X = X.args[0]
    return X.args[0] if X.op == 'sub' and X.args[1] is I(8) else None
def job(v, facts):
    """the request a worker was started for: the item, its queue (from the address check at the start) and the account bytes"""
    items = [x for x in walk(v) if x.op == 'idx' and x.args[0].op == 'items']
    items = list(dict.fromkeys(items))
    if len(items) != 1: return None
    it = items[0]; data = root(it.args[0].args[0])
    for f, t in facts:
        q = queuefact(f)
        if t and q and q[2] is not None: return Job(it, fld(it, 'id'), q[0], q[2], data, q[1])
    return Job(it, fld(it, 'id'), None, None, data, None)
def queuefact(f):
    """(address, key pair, index) when f compares an address with the queue address of an identity"""
    if f.op != 'eqv': return None
    for a, p in (f.args, f.args[::-1]):
        if p.op == 'pda' and p.args[1] is PROG():
            s = catparts(p.args[0])
            if len(s) == 3 and s[0] is B(b'queue') and s[1].op == 'call' and s[1].args[0].split('<')[0].endswith('Signer::pubkey'):
                ix = s[2].args[0] if s[2].op == 'arr' and len(s[2].args) == 1 else None
                return a, strip(s[1].args[1]), ix
    return None
def PROG():
    """the program id, as the API's queue address derivation uses it"""
    if 'pid' not in _c:
        o = [x for x in K.run_api(engine(), None, 'state::oracle_queue_pda', [mk('sym', 'ident'), mk('sym', 'index')]) if x.kind == 'ret']
        p = [y for x in o for y in walk(x.val) if y.op == 'pda']
        _c['pid'] = p[0].args[1] if p else None
    return _c['pid']
def TAG(): return B(bytes([3] + [0] * 7))
def placekeys(x):
    """(lock, acquisition, map keys) of a recorded map operation on a shared map"""
    pl = x.args[2]; cell, path = pl.args
    if not (isinstance(cell, tuple) and cell and cell[0] == 'shared'): return None
    ks = [p[1] for p in path if p[0] == 'mk']
    return cell[1], cell[2], ks + ([x.args[3]] if x.args[3] is not UNIT else [])
def keyparts(ks):
    r = []
    for k in ks:
        if k.op == 'agg' and k.args[0] == 'tuple': r += keyparts([y for y in k.args[2:]])
        elif k.op == 'tostring': r.append(k.args[0])
        else: r.append(k)
    return r
def names_job(ks, j): 
    """the keys identify exactly this request: its id and its queue"""
    p = keyparts(ks)
    return j is not None and j.queue is not None and set(p) == {j.queue, j.id}
def absent(s, lock, acq, ks):
    """under this acquisition the entry was found missing"""
    sh = mk('shared', lock, acq)
    for f, v in s.facts.items():
        if v is False and f.op == 'has' and f.args[1] is ks[-1] and any(y is sh for y in walk(f.args[0])):
            m = f.args[0]; path = []
            while m.op in ('mapget', 'mapset', 'mapdel') : 
                if m.op == 'mapget': path.append(m.args[1])
                m = m.args[0]
            if path[::-1] == ks[:-1]: return True
    return False
def claims(m, s):
    """[(lock, acq, keys)]: entries for this job inserted before s after being found missing, under one exclusive acquisition"""
    j = m.jobs.get(s.ev.args[1]); r = []
    mode = {}
    for x in s.pre:
        if x.args[0] == 'lock': mode[x.args[3]] = x.args[2]
        if x.args[0] == 'map' and x.args[1] == 'insert':
            p = placekeys(x)
            if p and names_job(p[2], j) and mode.get(p[1]) == 'write' and absent(s, p[0], p[1], p[2]): r.append((p[0], p[1], tuple(p[2])))
        if x.args[0] == 'map' and x.args[1] in ('remove', 'clear'):
            p = placekeys(x)
            if p: r = [c for c in r if not (c[0] is p[0] and c[1] is p[1])]
    return r
def handles(m, s):
    """[(lock, acq, keys)]: where the handle of the task started at s is stored under the request's keys"""
    j = m.jobs.get(s.ev.args[1]); r = []
    l = s.ctxlist()
    for x in l[s.n:]:
        if x.args[0] == 'map' and x.args[1] == 'insert' and any(y.op == 'jh' and y.args[1] is s.ev.args[1] and y.args[0] is s.ev.args[2] for y in walk(x.args[4])):
            p = placekeys(x)
            if p and names_job(p[2], j): r.append((p[0], p[1], tuple(p[2])))
    return r
def lname(l):
    return re.sub(r'[\w:]*::', '', l.args[0]) if isinstance(l.args[0], str) else show(l, 3)
def place_of(m, s):
    return '%s (started in %s)' % (m.e.insts[int(s.ev.args[1].args[1])]['path'], s.u.name)
def where_unit(m, u):
    i = u.src.args[1] if u.src is not None else None
    sp = m.e.fns[str(i)].get('span') if i is not None and str(i) in m.e.fns else None
    return '%s%s' % (u.name, ' (%s)' % (':'.join(map(str, sp)) if isinstance(sp, list) else sp) if sp else '')
def text(s, more=''):
    L = ['task: ' + s.u.name]
    for f, v in s.facts.items(): L.append('  guard %s %s' % ('holds' if v else 'fails', show(f, 6)))
    for x in s.pre[-14:]:
        if x.args[0] != 'loop': L.append('  effect ' + show(x, 6)[:400])
    L.append('  here   ' + show(s.ev, 6)[:600])
    return '\n'.join(L)[:3500] + more
def loops(u):
    if not hasattr(u, '_l'): u._l = list(loops_(u))
    return u._l
def loops_(u):
    """(loop, facts known when it has been left, 'ret'/'div'/'panic'/'back', events after it on the same level)"""
    def go(evs, facts, kind):
        evs = list(evs)
        for n, x in enumerate(evs):
            if x.args[0] != 'loop': continue
            yield x, facts, kind, evs[n + 1:]
            ph = own(x)
            base = {f: v for f, v in facts.items() if not any(y in ph for y in walk(f))}
            for b in x.args[3]: yield from go(b.args[2], {**base, **dict(b.args[0])}, 'back')
    for o in u.outs: yield from go(o.st.events, dict(o.st.facts), o.kind)
def fstate(facts):
    st = C.State()
    for f, v in facts.items(): st.assume(f, v)
    return st
def complete(lev, i, coll, facts, kind):
    """the loop over coll with index i starts at 0, advances by one and was only left at the end"""
    init = dict(lev.args[2]).get(i)
    if init is not ZERO: return 'starts at %s' % (show(init, 3) if init is not None else '?')
    for b in lev.args[3]:
        u = dict(b.args[1]).get(i)
        if u is not add(i, ONE): return 'advances by %s' % (show(subt(u, i), 4) if u is not None else '?')
    if kind == 'panic': return None
    if fstate(facts).decide(pos(subt(ln(coll), i))) is not False: return 'can be left before the last element'
    return None
def idxs(t, pred):
    """(collection, loop index) pairs t is built from"""
    r = []
    for x in walk(t):
        if x.op == 'idx' and pred(x.args[0]) and x.args[1].op == 'phi' and (x.args[0], x.args[1]) not in r: r.append((x.args[0], x.args[1]))
    return r
def is_accounts(c): return c.op == 'ok' and c.args[0].op == 'call' and 'get_program_accounts' in c.args[0].args[0]
def is_items(c): return c.op == 'items'
def inside(evs):
    """all events of a list, loops included"""
    for x, _ in allev(evs): yield x

def svc(ctx):
    m = model(); ctx.saw(m.e, [o for u in m.us for o in u.outs])
    return m
@rule('O01', 'O02', 'O03', 'O05', doc='every spawned future that submits transactions is a worker: its request, queue and identity are recovered from the captured values and the guards at the spawn')
def workers(ctx):
    m = svc(ctx)
    ctx.ob('workers-found', bool(m.starts), 'vrf-oracle', 'no spawned task submits transactions')
    for u in m.us:
        for s in u.sites():
            if is_send(s.ev) and u.src is None: ctx.fail('submission-only-by-workers@' + u.name, where_unit(m, u), lambda: text(s))
    for v, j in m.jobs.items():
        ctx.ob('one-request-per-worker@' + m.e.insts[int(v.args[1])]['path'], j is not None, m.e.insts[int(v.args[1])]['path'], lambda: 'the task is not started for one queue item: ' + show(v, 5)[:800])

@rule('O01', doc='a worker is started only under the address check of its own queue; the loop over the queue items takes every item not yet claimed; the loop over fetched accounts takes every account of the program; skipping needs a decode failure')
def o01(ctx):
    m = svc(ctx)
    for s in m.starts:
        j = m.jobs[s.ev.args[1]]
        if j is None: continue
        w = place_of(m, s)
        q = [queuefact(f) for f, v in s.facts.items() if v and queuefact(f)]
        ok = any(k is j.kp and a is j.queue and ix is not None and j.data is not None and ix is fld(rd(j.data, I(8), QUEUE), 'index') for a, k, ix in q)
        ctx.ob('own-queue-only@' + s.u.name, ok, w, lambda: text(s))
        ctx.ob('own-identity@' + s.u.name, j.kp is not None and (j.kp is mk('sym', 'identity') or j.kp.op == 'call'), w, lambda: 'identity: %s' % (show(j.kp, 6) if j.kp is not None else None))
        # the loop over the items
        i = j.item.args[1]; coll = j.item.args[0]
        lev = next((l for l, b in s.ctx if i in own(l)), None)
        if not ctx.ob('every-item-visited@' + s.u.name, lev is not None, w, lambda: 'the worker is started for %s, outside a loop over the queue items' % show(j.item, 5)[:300]): continue
    # every iteration of an item loop starts a worker, or the request is claimed already
    for u in m.us:
        for l, facts, kind, after in loops(u):
            st = [x for b in l.args[3] for x in inside(b.args[2]) if x.args[0] == 'spawn' and x.args[1] in m.wsrc]
            colls = {(m.jobs[x.args[1]].item.args[0], m.jobs[x.args[1]].item.args[1]) for x in st if m.jobs[x.args[1]] is not None}
            for coll, i in colls:
                if i not in own(l): continue
                bad = complete(l, i, coll, facts, kind)
                ctx.ob('every-item-visited@' + u.name, bad is None, where_unit(m, u), lambda: 'the loop over the queue items %s' % bad)
                for b in l.args[3]:
                    if any(x.args[0] == 'spawn' and x.args[1] in m.wsrc and m.jobs[x.args[1]].item is idx(coll, i) for x in inside(b.args[2])): continue
                    known = any(v and f.op == 'has' and f.args[1] is fld(idx(coll, i), 'id') and any(y.op == 'shared' and y.args[0] in m.claims for y in walk(f.args[0])) for f, v in b.args[0])
                    ctx.ob('only-claimed-items-skipped@' + u.name, known, where_unit(m, u), lambda: 'an item is skipped under\n' + '\n'.join('  %s %s' % ('holds' if v else 'fails', show(f, 7)) for f, v in b.args[0])[:3000])
    n = 0
    for u in m.us:
        if u not in m.feeders: continue
        for l, facts, kind, after in loops(u):
            for coll, i in {p for b in l.args[3] for x in list(inside(b.args[2])) + [f for f, v in b.args[0]] for p in idxs(x, is_accounts)}:
                if i not in own(l): continue
                bad = complete(l, i, coll, facts, kind)
                ctx.ob('every-account-visited@' + u.name, bad is None, where_unit(m, u), lambda: 'the loop over the fetched accounts %s' % bad)
    for u, facts, evs, t in passes(m):
        n += 1
        ctx.ob('every-queue-processed@' + u.name, takes(m, evs) or skip_ok(facts) or empty_items(facts), where_unit(m, u), t)
    ctx.ob('accounts-are-processed', n > 0, 'vrf-oracle', 'no loop over accounts or updates found')
    filters(ctx, m)
def passes(m):
    """(task, guards, effects, text): every way an account or update received from outside is handled"""
    for u in m.us:
        if u not in m.feeders: continue
        for l, facts, kind, after in loops(u):
            for coll, i in {p for b in l.args[3] for x in list(inside(b.args[2])) + [f for f, v in b.args[0]] for p in idxs(x, is_accounts)}:
                if i not in own(l): continue
                for b in l.args[3]:
                    F = dict(b.args[0])
                    if any(not v and f.op == 'eqv' and PROG() in f.args and any(a.op == 'fld' and a.args[1] == 'owner' for a in f.args) for f, v in F.items()): continue
                    yield u, F, b.args[2], lambda: guards_text('an account is skipped under', F)
            for b in l.args[3]:
                if any(x.args[0] == 'await' and x.args[1].endswith('QueueUpdateSource::next') for x in b.args[2]) and any(v and f.op == 'isvar' and f.args[1] == 'Some' and f.args[0].op == 'call' and f.args[0].args[0].endswith('QueueUpdateSource::next') for f, v in b.args[0]):
                    yield u, dict(b.args[0]), b.args[2], lambda: guards_text('an update is dropped under', dict(b.args[0]))
        if u.src is not None and any(s.u is u for s in m.starts) and idxs(u.src, is_accounts):
            for o in u.outs:
                if o.kind == 'ret': yield u, o.st.facts, o.st.events, lambda: Tr(m.e, o, 'the account is left unprocessed').text()[:3000]
def guards_text(h, F): return h + '\n' + '\n'.join('  %s %s' % ('holds' if v else 'fails', show(f, 7)[:500]) for f, v in F.items())[:3000]
def takes(m, evs):
    for x in inside(evs):
        if x.args[0] == 'spawn' and (x.args[1] in m.wsrc or any(w in m.feeders for w in m.bysrc.get(x.args[1], ()))): return True
    return any(item_loop(m, x) for x in walk_loops(evs))
def skip_ok(facts):
    """the guards exclude a decodable queue account of the own identity"""
    st = C.State()
    for f in facts:
        for x in walk(f):
            if x.op == 'len' and is_bytes(x.args[0]): st.assume(pos(subt(x, I(MINLEN - 1))), True)
            elif x.op == 'eqv' and any(y.op == 'sub' and is_bytes(y.args[0]) and y.args[1] is ZERO and y.args[2] is I(8) for y in x.args) and TAG() in x.args: st.assume(x, True)
            elif queuefact(x): st.assume(x, True)
    return any(st.decide(f) is (not v) for f, v in facts.items())
def filters(ctx, m):
    """what is requested from the network admits every queue account of the program"""
    seen = {}
    for u in m.us:
        for o in u.outs:
            for f in list(o.st.facts) + [x for x in inside(o.st.events)]:
                for y in walk(f):
                    if y.op == 'call' and y.args[0].split('::')[-1] in ('get_program_accounts_with_config', 'program_subscribe', 'subscribe') and 'await' not in y.args[0]: seen[y] = u
    n = 0
    for y, u in seen.items():
        w = '%s, %s' % (u.name, y.args[0].split('::')[-1]); n += 1
        t = lambda: show(y, 14)[:2500]
        asked = any(x is PROG() for a in y.args[1:] if isinstance(a, T) for x in walk(a))
        ctx.ob('program-accounts-requested@' + y.args[0], asked, w, t)
        fs = [x for x in walk(y) if x.op == 'agg' and isinstance(x.args[1], str) and x.args[0].endswith('RpcFilterType')]
        for f in fs:
            ok_ = f.args[1] == 'Memcmp' and admits(f.args[2])
            ctx.ob('filter-admits-every-queue@' + y.args[0], ok_, w, t)
        for f in [x for x in walk(y) if x.op == 'agg' and 'SubscribeRequestFilterAccountsFilter' in str(x.args[0]) and 'Memcmp' not in str(x.args[0])]:
            for x in walk(f):
                if x.op == 'agg' and str(x.args[0]).endswith('FilterMemcmp'):
                    ctx.ob('filter-admits-every-queue@' + y.args[0], fld(x, 'offset') is ZERO and admits(x), w, t)
    ctx.ob('requests-found', n > 0, 'vrf-oracle', 'no account request found')
def admits(t):
    """offset 0 and a prefix of the queue tag"""
    bs = [x.args[0] for x in walk(t) if x.op == 'bytes']
    off = [x for x in walk(t) if x.op == 'call' and x.args[0].endswith('Memcmp::new')]
    return len(bs) == 1 and TAG().args[0].startswith(bs[0]) and all(x.args[1] is ZERO for x in off)
def is_bytes(t): return t.op in ('updbytes',) or t.op == 'fld' and t.args[1] == 'data' or t.op == 'sub'
def walk_loops(evs):
    for x in evs:
        if x.args[0] == 'loop':
            yield x
            for b in x.args[3]: yield from walk_loops(b.args[2])
def item_loop(m, l):
    return any(x.args[0] == 'spawn' and x.args[1] in m.wsrc and m.jobs[x.args[1]] is not None and m.jobs[x.args[1]].item.args[1] in own(l) for b in l.args[3] for x in inside(b.args[2]))
def empty_items(facts):
    if any(v and f.op == 'eqz' and f.args[0].op == 'fld' and f.args[0].args[1] == 'item_count' or not v and f.op == 'pos' and f.args[0].op == 'fld' and f.args[0].args[1] == 'item_count' for f, v in facts.items()): return True
    return any(f.op in ('pos', 'eqz') and any(y.op == 'items' for y in walk(f)) and v is (f.op == 'eqz') for f, v in facts.items())

NEXT = 'oracle::client::QueueUpdateSource::next'
def received(t):
    """the external results a term is taken from"""
    r = []
    def go(x):
        if x.op == 'call' and (x.args[0].startswith('await ') or x.args[0].split('::')[-1] in ('recv', 'try_recv', 'recv_timeout')): r.append(x); return
        for y in x.args: deep(y)
    def deep(y):
        if isinstance(y, T): go(y)
        elif isinstance(y, tuple):
            for z in y: deep(z)
    go(t); return set(r)
@rule('O01', 'O07', doc='every implementation of the update source yields nothing, or address, header, bytes and slot of one update, the header decoded from those bytes under the tag and length check; no received value makes it panic')
def update_sources(ctx):
    e = engine(); svc(ctx); n = 0
    for k, x in enumerate(e.insts):
        if x.get('trait_item') != NEXT or str(k) not in e.fns: continue
        n += 1; st = C.State(); st.store[('arg', 'self')] = mk('sym', 'source'); w = where_fn(e, x['path'])
        outs = [q for o in e.run(k, [ref(('arg', 'self'))], st, 0) for q in (body(e, o.st, prims_off.unpin(e, o.st, o.val)) if o.kind == 'ret' else [o])]
        some_ = 0
        for o in outs:
            t = lambda: Tr(e, o, x['path']).text()[-3000:]
            if o.kind == 'panic':
                ctx.ob('source-never-panics@' + x['path'], not any(env(c) for c in cause(o)), w, t); continue
            if o.kind != 'ret': continue
            v = e.val(o.st, o.val)
            if o.st.decide(isvar(v, 'None')) is True: continue
            some_ += 1
            r = strip(fld(as_(v, 'Some'), '0', 0)); key, hdr, by, slot = [strip(fld(r, str(j), j)) for j in range(4)]
            ctx.ob('header-of-the-delivered-bytes@' + x['path'], hdr is rd(by, I(8), QUEUE), w, t)
            ctx.ob('bytes-decode-as-queue@' + x['path'], o.st.decide(pos(subt(ln(by), I(MINLEN - 1)))) is True and o.st.decide(eqv(TAG(), sub(by, ZERO, I(8)))) is True, w, t)
            ctx.ob('one-update@' + x['path'], len(received(key) | received(by) | received(slot)) == 1 and bool(received(key)) and bool(received(by)), w, t)
            st2 = C.State(); st2.assume(pos(subt(ln(by), I(MINLEN - 1))), True); st2.assume(eqv(TAG(), sub(by, ZERO, I(8))), True)
            extra = [(f, v2) for f, v2 in o.st.facts.items() if received(f) and f.op != 'isvar' and not any(y is PROG() or y.op == 'len' and leaf(y.args[0]) == 'pubkey' or y.op == 'isvar' for y in walk(f)) and st2.decide(f) is not v2]
            ctx.ob('every-queue-update-delivered@' + x['path'], not extra, w, lambda: 'an update is only delivered if\n' + '\n'.join('  %s %s' % ('holds' if v2 else 'fails', show(f, 8)) for f, v2 in extra)[:2500])
            ctx.ob('updates-address@' + x['path'], leaf(key) == 'pubkey' and leaf(slot) == 'slot', w, t)
        ctx.ob('source-delivers@' + x['path'], some_ > 0, w, 'the source never yields an update')
    ctx.ob('sources-found', n > 0, 'vrf-oracle', 'no update source')
def leaf(t):
    """name of the field a term is (a conversion of)"""
    while True:
        t = strip(t)
        if t.op in ('ok', 'as'): t = t.args[0]
        elif t.op == 'fld' and not t.args[1].isdigit(): return t.args[1]
        elif t.op in ('fld', 'tostring', 'bytesof'): t = t.args[0]
        elif t.op == 'call' and len(t.args) > 1 and isinstance(t.args[1], T): t = t.args[1]
        else: return None

@rule('O02', doc='each start of a worker is preceded by test-and-insert of the request under one exclusive acquisition of the claim lock; claims are removed only for requests no longer in the queue, or by the unconfirmed worker itself')
def o02(ctx):
    m = svc(ctx)
    for s in m.starts:
        c = claims(m, s)
        ctx.ob('claimed-before-start@' + s.u.name, bool(c), place_of(m, s), lambda: text(s))
    ctx.ob('one-claim-map', len(m.claims) == 1, 'vrf-oracle', 'the starts of workers do not share one claim map')
    for u in m.us:
        for s in u.sites():
            if s.ev.args[0] != 'map' or s.ev.args[1] not in ('remove', 'clear', 'update', 'insert'): continue
            p = placekeys(s.ev)
            if p is None or p[0] not in m.claims: continue
            w = where_unit(m, u)
            if s.ev.args[1] in ('insert', 'update'): continue
            if u in m.workers:
                j = m.jobs[u.src]
                ctx.ob('worker-releases-only-its-claim@' + u.name, names_job(p[2], j), w, lambda: text(s))
                ctx.ob('confirmed-claim-kept@' + u.name, not confirmed(s), w, lambda: text(s))
                last = [x for x in inside(s.ctxlist()[s.n:]) if is_send(x)]
                ctx.ob('released-after-last-attempt@' + u.name, not last and not s.ctx, w, lambda: text(s))
            else:
                ctx.ob('released-only-when-gone@' + u.name, gone(s, p[2]), w, lambda: text(s))
def gone(s, ks):
    """a guard shows the id is not among the ids of the queue's current items"""
    k = keyparts(ks[-1:])
    for f, v in s.facts.items():
        if v is False and f.op == 'any':
            coll, b, cond = f.args
            src = coll.args[0] if coll.op == 'map' else coll
            if src.op == 'items' and any(cond is eqv(fld(idx(src, b), 'id'), x) or cond is eqv(x, fld(idx(src, b), 'id')) for x in k):
                d = root(src.args[0])
                if d is not None and same_account(s, d, ks): return True
    return False
def same_account(s, data, ks):
    """the queue named by the keys is the account the item list was read from"""
    p = set(keyparts(ks))
    return any(v and queuefact(f) and queuefact(f)[0] in p and queuefact(f)[2] is fld(rd(data, I(8), QUEUE), 'index') for f, v in s.facts.items())
def confirmed(s):
    """a confirmation was observed on the path to s"""
    for f, v in s.facts.items():
        if not v: continue
        for y in walk(f):
            if y.op == 'call' and y.args[0].startswith('await ') and ('confirm_transaction' in y.args[0] or 'send_and_confirm' in y.args[0]):
                okc = mk('ok', y)
                if 'send_and_confirm' in y.args[0] and f is isvar(y, 'Ok'): return True
                if f in (fld(okc, 'value'), okc): return True
    return False

class End:
    def __init__(s, u, o): s.u, s.o, s.facts, s.ev, s.pre = u, o, dict(o.st.facts), mk('ev', 'end'), list(o.st.events)
@rule('O03', doc='every ending of a worker drops its handle and, unless confirmed, its claim, and never drops a handle once its claim could have been taken over; the handle is stored under the acquisition held across the start; each processed snapshot releases and aborts every tracked request that is gone')
def o03(ctx):
    m = svc(ctx)
    ctx.ob('one-handle-map', len(m.handles) == 1, 'vrf-oracle', 'the handles of started workers are not stored in one shared map under the request')
    for s in m.starts:
        hs = handles(m, s)
        ctx.ob('handle-stored-under-the-lock-held-at-start@' + s.u.name, any(a in s.held and s.held[a][0] is lk and s.held[a][1] == 'write' for lk, a, k in hs), place_of(m, s), lambda: text(s))
    for u in m.workers:
        j = m.jobs[u.src]
        if j is None: continue
        for o in u.outs:
            if o.kind == 'panic': continue
            s = End(u, o); w = where_unit(m, u)
            tops = [x for x in o.st.events if x.args[0] == 'map' and x.args[1] == 'remove']
            def dropped(locks):
                for x in tops:
                    p = placekeys(x)
                    if p and p[0] in locks and names_job(p[2], j): return True
                return any(v is False and f.op == 'has' and f.args[0].op == 'shared' and f.args[0].args[0] in locks and keyparts([f.args[1]]) == [j.queue] for f, v in s.facts.items())
            t = lambda: Tr(m.e, o, 'end of ' + u.name).text()[-3000:]
            ctx.ob('handle-dropped-at-end@' + u.name, dropped(m.handles), w, t)
            ctx.ob('claim-released-unless-confirmed@' + u.name, confirmed(s) or dropped(m.claims), w, t)
            ctx.ob('task-ends@' + u.name, o.kind == 'ret', w, t)
            ctx.ob('handle-of-a-successor-kept@' + u.name, dropped_in_time(m, j, o.st.events), w, t)
    # vanished requests
    for s in m.starts:
        j = m.jobs[s.ev.args[1]]
        if j is None: continue
        ok = False; why = 'no pass over the tracked requests precedes the start'
        levs = [(x, s.facts) for x in s.pre if x.args[0] == 'loop']
        for l, facts in levs:
            r = sweep(m, s, j, l, facts)
            if r is None: ok = True; break
            if r: why = r
        ctx.ob('vanished-requests-released@' + s.u.name, ok, place_of(m, s), lambda: why)
    jobs = [j for j in m.jobs.values() if j is not None and j.queue is not None]
    for u, facts, evs, t in passes(m):
        done = any(x.args[0] == 'spawn' and any(w in m.feeders for w in m.bysrc.get(x.args[1], ())) for x in inside(evs))
        r = [sweep(m, None, j, l, facts) for l in walk_loops(evs) for j in jobs] if not done else []
        ctx.ob('every-snapshot-releases-vanished-requests@' + u.name, done or None in r or skip_ok(facts), where_unit(m, u), lambda: ''.join(x for x in r if x)[:1500] + t())
def dropped_in_time(m, j, events):
    """the worker does not remove a handle after its claim was up for grabs: once the claim is released, the next worker may be
    started and its handle stored, unless the lock of either map is held from the release on"""
    held = {}; since = None
    for x in events:
        if x.args[0] == 'lock': held[x.args[3]] = x.args[1]
        elif x.args[0] == 'unlock':
            held.pop(x.args[2], None)
            if since is not None: since &= set(held)
        elif x.args[0] == 'map' and x.args[1] == 'remove':
            p = placekeys(x)
            if not p or not names_job(p[2], j): continue
            if p[0] in m.handles and since is not None and not since: return False
            if p[0] in m.claims: since = {a for a, l in held.items() if l in m.claims or l in m.handles}
    return True
def visited(l, p):
    """(source list, element term, list walked, condition of being on it) for the lists loop l walks with index p"""
    r = {}
    for b in l.args[3]:
        for f in [f for f, v in b.args[0]] + list(inside(b.args[2])):
            for x in walk(f):
                if x.op != 'idx': continue
                if x.args[1] is p: r[x] = (x.args[0], x, x.args[0], None)
                elif x.args[1].op == 'sel' and x.args[1].args[1] is p and x.args[1].args[0].args[0] is x.args[0]:
                    F = x.args[1].args[0]
                    r[x] = (x.args[0], x, F, subst(F.args[3], F.args[2], mk('bv', 99)))
    return list(r.values())
def sweep(m, s, j, l, facts):
    """None when loop l visits every claimed id of the queue and releases (and aborts) those that are gone"""
    for p, init in l.args[2]:
        for coll, k, walked, cond in visited(l, p):
            if coll.op != 'mapkeys': continue
            sh = coll.args[0]; path = []
            while sh.op == 'mapget': path.append(sh.args[1]); sh = sh.args[0]
            if sh.op != 'shared' or sh.args[0] not in m.claims or j.queue not in keyparts(path): continue
            bad = complete(l, p, walked, {f: v for f, v in facts.items()}, 'back')
            if bad: return 'the pass over the tracked requests ' + bad
            if cond is not None:
                st = C.State(); st.assume(cond, False)
                if not present(st.facts, idx(coll, mk('bv', 99))): return 'the pass over the tracked requests leaves out those failing ' + show(cond, 6)[:800]
            for b in l.args[3]:
                F = {**{f: v for f, v in facts.items() if not any(y in own(l) for y in walk(f))}, **dict(b.args[0])}
                z = End.__new__(End); z.facts = F
                if not gone(z, path + [k]):
                    if not present(F, k): return 'a tracked request may be kept although it is gone:\n' + '\n'.join('  %s %s' % ('holds' if v else 'fails', show(f, 7)) for f, v in b.args[0])[:2500]
                    continue
                rel = hd = False; ab = False
                for x in inside(b.args[2]):
                    if x.args[0] == 'map' and x.args[1] == 'remove':
                        q = placekeys(x)
                        if q and set(keyparts(q[2])) == {j.queue, k}:
                            rel |= q[0] in m.claims; hd |= q[0] in m.handles
                    if x.args[0] == 'abort' and any(y.op == 'shared' and y.args[0] in m.handles or y.op == 'lock' and y in m.handles for y in walk(x.args[1])) and any(y is k for y in walk(x.args[1])): ab = True
                none = any(v is False and f.op == 'has' and (keyparts([f.args[1]]) == [k] or keyparts([f.args[1]]) == [j.queue]) and any(y in m.handles for y in walk(f.args[0])) for f, v in F.items())
                if not rel: return 'the claim of a vanished request is kept'
                if not none and not (hd and ab): return 'the worker of a vanished request is %s' % ('not cancelled' if not ab else 'kept among the active tasks')
            return None
    return ''
def present(F, k):
    for f, v in F.items():
        if v and f.op == 'any' and any(y is k for y in walk(f.args[2])): return True
    return False

@rule('O04', doc='replay of lock and unlock events on every path and loop iteration of every task: acquisition graph acyclic, nothing re-acquired while held, nothing awaited while held, nothing held at the end of an iteration')
def o04(ctx):
    m = svc(ctx); edges = {}
    def replay(u, evs, held):
        for x in evs:
            k = x.args[0]; w = where_unit(m, u)
            if k == 'loop':
                for b in x.args[3]:
                    h = dict(held); replay(u, b.args[2], h)
                    ctx.ob('balanced-iteration@' + u.name, set(h) == set(held), w, lambda: 'a guard taken in a loop iteration is still held when it ends')
            elif k == 'lock':
                for a, l in held.items():
                    ctx.ob('no-reacquire@' + u.name, l is not x.args[1], w, lambda: 'locks %s while it is held' % lname(l))
                    if l is not x.args[1]: edges.setdefault(l, {}).setdefault(x.args[1], u)
                held[x.args[3]] = x.args[1]
            elif k == 'unlock': held.pop(x.args[2], None)
            elif k in ('await', 'sub'):
                ctx.ob('nothing-held-while-waiting@' + u.name, not held, w, lambda: 'awaits %s while holding %s' % (show(x.args[1], 3), ', '.join(lname(l) for l in held.values())))
    n = 0
    for u in m.us:
        for o in u.outs:
            h = {}; replay(u, o.st.events, h); n += 1
            if o.kind == 'ret': ctx.ob('released-at-end@' + u.name, not h, where_unit(m, u), lambda: 'ends holding ' + ', '.join(lname(l) for l in h.values()))
    seen = {}
    def cyc(l, path):
        for k, u in edges.get(l, {}).items():
            if k in path:
                c = path[path.index(k):] + [k]
                ctx.fail('one-lock-order@' + '<'.join(sorted(lname(x) for x in set(c))), u.name, 'cycle: ' + ' -> '.join(lname(x) for x in c))
            elif k not in seen: cyc(k, path + [k])
        seen[l] = True
    for l in list(edges): cyc(l, [l])
    ctx.ob('lock-order-acyclic', True, 'lock graph with %d edges over %d task paths' % (sum(map(len, edges.values())), n))
    ctx.ob('shared-maps-locked', bool(edges), 'vrf-oracle', 'no nested acquisition found')

def api_ix(m, fn, *args):
    return [S.ixparts(x.val) for x in K.run_api(m.e, None, 'sdk::' + fn, list(args)) if x.kind == 'ret']
def shapes(m):
    """(site, job, tx parts, instruction parts) of every submission"""
    for u in m.workers:
        for s in u.sites():
            if is_send(s.ev): yield u, s, m.jobs[u.src], K.txparts(s.ev.args[2])
def ixp(v):
    """(program id, [(key, signer, writable) or a list of metas of unknown length], data)"""
    p = S.ixparts(v)
    if p is not None: return p
    if v.op == 'upd': p, a, d = (fld(v, n) for n in ('program_id', 'accounts', 'data'))
    elif v.op == 'agg' and v.args[0] == S.IXT: p, a, d = v.args[2:5]
    else: return None
    ms = []
    for x in catparts(strip(a)):
        if x.op == 'arr': ms += [tuple(fld(m, n, j) for j, n in enumerate(('pubkey', 'is_signer', 'is_writable'))) for m in x.args]
        else: ms.append(x)
    return p, ms, d
def submitted(tp):
    return [x for x in K.catargs(strip(tp[0])) if not K.is_budget(x)]
def tagof(p):
    d = catparts(p[2]) if p else None
    return d[0].args[0][0] if d and d[0].op == 'bytes' and d[0].args[0] else None
@rule('O05', doc='each submission: one instruction equal to the API builder applied to the request (own key, queue, program, id, proof elements) plus the recorded accounts in order; proof computed with the own secret and verified; signed and paid by the own identity')
def o05(ctx):
    m = svc(ctx); n = 0
    for u, s, j, tp in shapes(m):
        w = where_unit(m, u); t = lambda: text(s)
        if j is None or j.queue is None: n += 1; continue      # reported by O01
        if not ctx.ob('transaction-form@' + u.name, tp is not None, w, t): continue
        ixs, payer, signers, bh = tp
        sg = strip(signers); sg = [strip(y) for y in sg.args] if sg.op == 'arr' else []
        p = payer.args[2] if payer.op == 'agg' and payer.args[1] == 'Some' else payer
        me = strip(p)
        ctx.ob('signed-by-own-identity@' + u.name, len(sg) == 1 and sg[0] is j.kp, w, lambda: 'signers %s' % [show(x, 6) for x in sg])
        ctx.ob('paid-by-own-identity@' + u.name, me.op == 'call' and 'pubkey' in me.args[0] and strip(me.args[1]) is j.kp, w, lambda: show(p, 6))
        xs = [ixp(x) for x in submitted(tp)]
        if not ctx.ob('one-instruction@' + u.name, len(xs) == 1 and xs[0] is not None, w, lambda: show(ixs, 7)[:2000]): continue
        x = xs[0]; tag = tagof(x)
        if tag == 9:
            ctx.ob('purge-own-queue@' + u.name, x in api_ix(m, 'purge_expired_requests', me, j.index), w, lambda: show(ixs, 9)[:2500]); continue
        n += 1
        G = [y for y in walk(u.src) if y.op == 'call' and y.args[0].endswith('generate_vrf_keypair') and strip(y.args[1]) is j.kp]
        cv = [y for y in walk(x[2]) if y.op == 'call' and y.args[0].endswith('vrf::compute_vrf')]
        cv = list(dict.fromkeys(cv))
        if not ctx.ob('proof-computed@' + u.name, len(cv) == 1, w, lambda: show(x[2], 8)[:2000]): continue
        c = cv[0]
        sk, pkk = (fld(G[0], '0', 0), fld(G[0], '1', 1)) if G else (None, None)
        ctx.ob('own-secret-key@' + u.name, c.args[1] is sk, w, lambda: show(c.args[1], 6))
        ctx.ob('own-request-id@' + u.name, strip(c.args[2]) is j.id, w, lambda: show(c.args[2], 6))
        out = fld(c, '0', 0); pr = fld(c, '1', 1); g, h, sc = fld(pr, '0', 0), fld(pr, '1', 1), fld(pr, '2', 2)
        want = api_ix(m, 'provide_randomness', me, j.queue, fld(j.item, 'callback_program_id'), j.id, out, g, h, mk('scbytes', sc))
        if not ctx.ob('builder-available', len(want) == 1 and want[0] is not None, w, 'the API builder does not yield one instruction'): continue
        W = want[0]
        ctx.ob('prescribed-program@' + u.name, x[0] is W[0], w, lambda: show(x[0], 5))
        ctx.ob('prescribed-data@' + u.name, x[2] is W[2], w, lambda: 'submits %s\nprescribed %s' % (show(x[2], 12)[:1800], show(W[2], 12)[:1800]))
        have, exp = list(x[1]), list(W[1])
        head = have[:len(exp)] == exp
        rest = have[len(exp):]
        ctx.ob('prescribed-accounts@' + u.name, head, w, lambda: 'submits %s\nprescribed %s' % ([show(y, 8) for y in have], [show(y, 8) for y in exp]))
        ctx.ob('recorded-accounts-appended@' + u.name, len(rest) == 1 and recorded(rest[0], j), w, lambda: 'appended: %s' % [show(y, 9)[:900] for y in rest])
        ver = [f for f, v in s.facts.items() if v and f.op == 'call' and f.args[0].endswith('verify_vrf')]
        good = any(strip(f.args[1]) is pkk and strip(f.args[2]) is j.id and strip(f.args[3]) is out and all(fld(strip(f.args[4]), str(k), k) is y for k, y in enumerate((g, h, sc))) for f in ver)
        ctx.ob('verified-before-submission@' + u.name, good, w, lambda: 'verified: %s' % [show(f, 8)[:900] for f in ver])
    ctx.ob('answers-submitted', n > 0, 'vrf-oracle', 'no submission answers a request')
def recorded(v, j):
    """the accounts recorded for the request, in order, as non-signers with their recorded writability"""
    if isinstance(v, tuple): v = v[-1] if isinstance(v[-1], T) else None
    if v is None or v.op != 'map' or v.args[0].op != 'metas': return False
    L, body, b = v.args
    it, by = L.args
    e = idx(L, b); wf = fld(body, 'is_writable'); wr = fld(e, 'is_writable')
    return it is j.item and by is sub(j.data, I(8), ln(j.data)) and fld(body, 'pubkey') is fld(e, 'pubkey') and fld(body, 'is_signer') is FALSE and (wf is pos(wr) or wf is wr or wf is not_(eqz(wr)) or wf is eqz(subt(wr, ONE)))

@rule('O06', doc='purge is submitted exactly when (last observed slot - request slot) exceeds the API limit QUEUE_TTL_SLOTS; otherwise the answer')
def o06(ctx):
    m = svc(ctx); c = [x for x in extract.load('ephemeral_vrf_api-lib', 'workspace')['consts'] if x['path'].endswith('QUEUE_TTL_SLOTS')]
    ttl = m.e._const(c[0]['val']) if c else None
    if not ctx.ob('limit-known', ttl is not None and isint(ttl), 'api', 'QUEUE_TTL_SLOTS not found'): return
    kinds = set()
    for u, s, j, tp in shapes(m):
        if j is None or tp is None: continue
        w = where_unit(m, u)
        now = observed(m, s, tp, j)
        if not ctx.ob('slot-observed-with-blockhash@' + u.name, now is not None, w, lambda: 'blockhash %s' % show(tp[3], 6)): continue
        xs = [ixp(x) for x in submitted(tp)]
        if len(xs) != 1 or xs[0] is None: continue
        d = s.state().decide(pos(subt(subt(now, fld(j.item, 'slot')), ttl)))
        if tagof(xs[0]) == 9: ctx.ob('purged-only-when-expired@' + u.name, d is True, w, lambda: text(s)); kinds.add(9)
        else: ctx.ob('answered-only-when-live@' + u.name, d is False, w, lambda: text(s)); kinds.add(4)
    ctx.ob('both-outcomes-exist', kinds == {4, 9}, 'vrf-oracle', 'submissions seen: %s' % sorted(kinds))
def observed(m, s, tp, j):
    """the slot read together with the blockhash the transaction uses"""
    bh = strip(tp[3])
    if not (bh.op == 'fld' and bh.args[0].op == 'shared'): return None
    c = [y for f in s.facts if any(x is fld(j.item, 'slot') for x in walk(f)) for y in walk(f) if y.op == 'fld' and y.args[0] is bh.args[0]]
    return c[0] if c else None

def env(t):
    """depends on something received from outside"""
    return any(y.op == 'call' and (y.args[0].startswith('await ') or any(n in y.args[0] for n in OUTSIDE)) or y.op in ('updbytes', 'updkey', 'updslot') for y in walk(t))
OUTSIDE = ('recv', 'program_subscribe', 'RpcClient::', 'PubsubClient')
def cause(o):
    """terms a panic depends on: the last failed unwrap, or the last guard"""
    fails = [x.args[1] for x in o.st.events if x.args[0] == 'fail']
    last = list(o.st.facts.items())[-1:]
    if o.val is not None and 'unwrap_failed' in show(o.val, 3) and fails: return [fails[-1]]
    return [f for f, v in last]
@rule('O07', doc='no task panics, ends the process or (main, refresh tasks) returns on any result of a network call; start-up errors lead back to the retry loop')
def o07(ctx):
    m = svc(ctx)
    for u in m.us:
        w = where_unit(m, u)
        for o in u.outs:
            ctx.ob('no-exit@' + u.name, not any(x.args[0] == 'call' for x in inside(o.st.events)), w, 'ends the process')
            if o.kind == 'panic':
                c = [t for t in cause(o) if env(t)]
                self_check = c and all(t.op == 'call' and t.args[0].endswith('verify_vrf') for t in c)
                ctx.ob('no-panic@' + u.name, not c or self_check, w, lambda: 'panics (%s) depending on %s\n%s' % (show(o.val, 3), [show(t, 7)[:300] for t in c], Tr(m.e, o, 'panic').text()[-1500:]))
            ctx.ob('no-caught-panic@' + u.name, not any(x.args[0] == 'caught' for x in inside(o.st.events)), w, 'a panic is only contained')
    main = m.us[0]
    ends = [o for o in main.outs if o.kind == 'ret']
    ctx.ob('main-never-returns', not ends and any(o.kind == 'div' for o in main.outs), 'main', lambda: Tr(m.e, ends[0], 'main returns').text()[:2500] if ends else 'main does not loop')
    # the service body is retried for ever
    subs = [s for s in main.sites() if s.ev.args[0] == 'sub']
    ctx.ob('service-body-retried', not subs or all(s.ctx for s in subs), 'main', 'the service body is awaited once only')
    k = 0
    for u in m.us:
        if u in m.workers or u.src is None: continue
        per = any(x.args[0] == 'await' and is_timer(x) for l, f, kd, a in loops(u) for b in l.args[3] for x in b.args[2])
        if not per: continue
        k += 1
        if any(s.ev.args[0] == 'sub' and u in m.bysrc.get(s.ev.args[1], ()) for s in main.sites()):
            late = [o for o in u.outs if o.kind == 'ret' and not err_start(o)]
            ctx.ob('service-body-only-fails-at-start@' + u.name, not late, where_unit(m, u), lambda: Tr(m.e, late[0], 'returns').text()[-2500:])
            continue
        ends = [o for o in u.outs if o.kind == 'ret']
        ctx.ob('refresh-tasks-never-end@' + u.name, not ends, where_unit(m, u), lambda: Tr(m.e, ends[0], 'returns').text()[-2500:])
    ctx.ob('refresh-tasks-exist', k >= 2, 'vrf-oracle', 'periodic tasks: %d' % k)
def is_timer(x): return any(n in x.args[1] for n in ('Sleep', 'Interval', 'timer', 'sleep'))
def err_start(o):
    return o.val is not None and o.val.op == 'agg' and o.val.args[1] == 'Err' or o.val is not None and o.val.op == 'call'

def is_refresh(x):
    return x.args[0] == 'await' and ('get_latest_blockhash' in x.args[1] or any(y.op == 'agg' and 'GetLatestBlockhash' in str(y.args[:2]) for y in walk(x.args[2])))
@rule('O08', doc='every attempt loop has a bounded strictly advancing counter, fetches a fresh blockhash after the last network call of the failed attempt, and never continues after an observed confirmation; the cache takes blockhash and slot from one response')
def o08(ctx):
    m = svc(ctx); n = 0
    for u in m.workers:
        w = where_unit(m, u)
        for l, facts, kind, after in loops(u):
            if not any(is_send(x) for b in l.args[3] for x in b.args[2]): continue
            n += 1
            ok = False
            for p, init in l.args[2]:
                if not isint(init): continue
                good = True
                for b in l.args[3]:
                    nx = dict(b.args[1]).get(p)
                    st = fstate({**{f: v for f, v in facts.items() if not any(y in own(l) for y in walk(f))}, **dict(b.args[0])})
                    if nx is None: good = False; break
                    lo = st.bounds(subt(nx, p))[0]; hi = st.bounds(p)[1]
                    if lo is None or lo < 1 or hi is None or hi > 1000: good = False; break
                ok |= good
            ctx.ob('attempts-bounded@' + u.name, ok, w, lambda: 'no bounded counter advances on every repetition; loop variables %s\n%s' % ([show(p, 2) + ' from ' + show(i, 3) for p, i in l.args[2]][:6], '\n'.join('  next: ' + ', '.join(show(y, 5)[:90] for p, y in b.args[1][:4]) for b in l.args[3][:6])))
            for b in l.args[3]:
                evs = list(inside(b.args[2]))
                net = [k for k, x in enumerate(evs) if x.args[0] == 'await' and not is_timer(x) and not is_refresh(x)]
                rf = [k for k, x in enumerate(evs) if is_refresh(x)]
                t = lambda: 'next attempt after\n' + '\n'.join('  %s %s' % ('holds' if v else 'fails', show(f, 6)[:300]) for f, v in b.args[0]) + '\n' + '\n'.join('  effect ' + show(x, 3)[:200] for x in evs)
                ctx.ob('blockhash-refreshed-before-next-attempt@' + u.name, bool(rf) and (not net or rf[-1] > net[-1]), w, t)
                z = End.__new__(End); z.facts = dict(b.args[0])
                ctx.ob('stops-when-confirmed@' + u.name, not confirmed(z), w, t)
                # a successful fetch is stored
                if rf and rf_ok(b, evs[rf[-1]]):
                    ctx.ob('fetched-blockhash-stored@' + u.name, any(x.args[0] == 'unlock' and newhash(x) for x in evs[rf[-1]:]), w, t)
    ctx.ob('attempt-loops-found', n > 0, 'vrf-oracle', 'no worker repeats submissions')
    k = 0
    C_ = caches(m)
    ctx.ob('one-blockhash-cache', len(C_) == 1, 'vrf-oracle', 'blockhashes come from %d caches' % len(C_))
    for u in m.us:
        for s in u.sites():
            v = s.ev.args[3] if s.ev.args[0] == 'unlock' and s.ev.args[1] in C_ else s.ev.args[2] if s.ev.args[0] == 'newlock' and s.ev.args[1] in C_ else None
            if v is None or v.op == 'shared': continue
            bf, sf = C_[s.ev.args[1]]; k += 1
            rs = [received(fld(v, f)) for f in (bf, sf)]
            ctx.ob('blockhash-and-slot-from-one-response@' + u.name, len(rs[0]) == 1 and rs[0] == rs[1], where_unit(m, u), lambda: show(v, 8)[:2500])
            ctx.ob('blockhash-field@' + u.name, leaf(fld(v, bf)) == 'blockhash' and leaf(fld(v, sf)) == 'slot', where_unit(m, u), lambda: show(v, 8)[:2500])
            if s.ev.args[0] == 'unlock': ctx.ob('only-successful-responses-stored@' + u.name, any(t and f.op == 'isvar' and f.args[1] == 'Ok' and f.args[0] in rs[0] for f, t in s.facts.items()), where_unit(m, u), lambda: text(s))
    ctx.ob('cache-updates-found', k > 0, 'vrf-oracle', 'the cached blockhash is never replaced')
def caches(m):
    """lock -> (blockhash field, slot field) of the values transactions are built from"""
    r = {}
    for u, s, j, tp in shapes(m):
        if j is None or tp is None: continue
        bh = strip(tp[3]); now = observed(m, s, tp, j)
        if now is not None: r.setdefault(bh.args[0].args[0], (bh.args[1], now.args[1]))
    return r
def rf_ok(b, ev):
    """every guard on this path about the fetched response is favourable"""
    r = False
    for f, v in b.args[0]:
        if f.op == 'isvar' and any(y.op == 'call' and y.args[0].startswith('await ') and y.args[1] is ev.args[2] for y in walk(f)):
            if f.args[1] in ('Ok', 'Some'):
                if not v: return False
                r = True
    return r
def newhash(x):
    v = x.args[3]
    return v.op in ('agg', 'upd') and any(y.op == 'call' and y.args[0].startswith('await ') for y in walk(v))
