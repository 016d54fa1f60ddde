"""Models of library calls made by the off-chain programs (CLI, oracle service): async tasks, locks, maps.

A coroutine body is interpreted as a blocking call: awaiting a future runs it to completion (every
other task may run meanwhile, so nothing read from a lock survives its release).  Effects recorded
as events: ('lock', lock, mode, n) / ('unlock', lock, n), ('await', what, value), ('spawn', inst,
captured, site), ('map', op, container, key, value) and ('abort', handle)."""
import core as C
import prims as P
from terms import *
TABLE = {}
def prim(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d
def ret(v, st): return [C.Out('ret', v, st)]
content = P.content
POLL = 'core::task::poll::Poll'
def ready(v, st): return ret(agg(POLL, 'Ready', v), st)
def lookup(eng, i, name, args):
    h = TABLE.get(name) or TABLE.get(C.canon(eng.insts[i]['path']))
    if h is None and name.endswith('{closure#0}') and args: return foreign_poll
    return h

def deep(st, eng, v):
    x = eng.val(st, v)
    while x.op == '&': x = x.args[0]
    return x
def again(st, what):
    """how many times this state already recorded `what` (keeps results of repeated calls apart)"""
    return sum(1 for x in st.events if x.args[1:1 + len(what)] == what or x.args[1:2] == what[:1] and x.args[0] == 'await' and x.args[3:4] == (what[-1],))

# ---------------------------------------------------------------- small things
@prim('anyhow::__private::not')
def anyhow_not(eng, st, a, i, d, t): return ret(not_(eng.loadref(st, a[0]) if a[0].op == 'ref' else a[0]), st)
@prim('core::str::parse')
def str_parse(eng, st, a, i, d, t):
    ty = (eng.insts[i].get('ma') or eng.insts[i].get('targs') or [None])[0]
    if t is None: return None
    s = deep(st, eng, a[0]); ty = eng.types[ty]['s']
    if s.op == 'tostring' and s.args[1] == ty: return ret(ok(s.args[0]), st)
    if ty == 'alloc::string::String': return ret(ok(s), st)
    return eng.result_call(mk('call', 'core::str::traits::FromStr::from_str<%s>' % ty, mk('&', s)), st, eng.types[t])
@prim('alloc::string::ToString::to_string')
def to_string(eng, st, a, i, d, t):
    ty = P.selfty(eng, i)
    while ty is not None and ty['k'] == 'ref': ty = eng.types[ty['to']]
    if ty is None: return None
    v = deep(st, eng, a[0])
    if ty['k'] == 'str' or ty['s'] == 'alloc::string::String': return ret(v, st)
    return ret(mk('tostring', v, ty['s']), st)
P_TOSTRING = P.TABLE['alloc::string::ToString::to_string']
def to_string2(eng, st, a, i, d, t):
    r = P_TOSTRING(eng, st, a, i, d, t)
    return r if r is not None or not eng.offchain else to_string(eng, st, a, i, d, t)
P.TABLE['alloc::string::ToString::to_string'] = to_string2
P_LE = P.TABLE.get('core::cmp::PartialOrd::le')
def log_le(eng, st, a, i, d, t):
    """log level comparisons: logging has no effect the rules look at"""
    if eng.offchain:
        ty = P.selfty(eng, i)
        if ty is not None and ty['s'] == 'log::Level': return ret(FALSE, st)
    return P_LE(eng, st, a, i, d, t) if P_LE else None
P.TABLE['core::cmp::PartialOrd::le'] = log_le
@prim('anyhow::Context::context', 'anyhow::Context::with_context')
def context(eng, st, a, i, d, t):
    out = []; v = a[0]
    good = 'Some' if v.op == 'agg' and v.args[0] == OPT else 'Ok'
    ty = P.selfty(eng, i)
    if ty is not None and ty['k'] == 'adt' and ty['path'] == OPT: good = 'Some'
    for r, s in eng.fork(st, isvar(v, good)):
        out += ret(ok(fld(as_(v, good), '0', 0)) if r else err(mk('call', 'anyhow::context', eng.val(s, v))), s)
    return out
@prim('solana_client::nonblocking::rpc_client::RpcClient::new')
def _noop(eng, st, a, i, d, t): return None

# ---------------------------------------------------------------- sharing, locks
def arcnew(eng, st, a, i, d, t): return ret(eng.newcell(st, a[0]), st)
for n in ('alloc::rcs::arc::Arc::new', 'alloc::rcs::rc::Rc::new', 'alloc::sync::Arc::new', 'alloc::rcs::arc::Arc::from', 'alloc::rcs::arc::Arc::pin'): TABLE[n] = arcnew
@prim('alloc::rcs::arc::Arc::clone')
def _(eng, st, a, i, d, t): return ret(content(eng, st, a[0]), st)
def innerty(eng, i):
    t = eng.insts[i].get('targs') or []
    return eng.types[t[0]]['s'] if t and t[0] is not None else '?'
LOCKS = ('tokio::sync::rwlock::RwLock', 'tokio::sync::mutex::Mutex', 'std::sync::poison::mutex::Mutex', 'std::sync::poison::rwlock::RwLock', 'std::sync::mutex::Mutex', 'std::sync::rwlock::RwLock', 'parking_lot::RwLock', 'parking_lot::Mutex')
def locknew(eng, st, a, i, d, t):
    s = mk('site', eng.site()); n = innerty(eng, i)
    if not n.startswith('std::collections'): st.ev('newlock', mk('lock', n, s), eng.val(st, a[0]))
    return ret(mk('lockobj', n, s), st)
def lockid(eng, st, p, i):
    v = p
    for _ in range(6):
        if v.op == 'lockobj': return mk('lock', v.args[0], v.args[1])
        if v.op not in ('ref', '&', 'deref'): break
        v = eng.loadref(st, v) if v.op == 'ref' else v.args[0]
    name = '?'
    if p.op == 'fld': name = p.args[1]
    elif p.op == 'ref':
        fs = [e[1] for e in p.args[1] if e[0] == 'f']
        name = fs[-1] if fs else '?'
    if name == '?':
        for u in (v,):
            if u.op == 'fld': name = u.args[1]
    return mk('lock', innerty(eng, i), name)
def acquire(eng, st, lock, mode, blocking=False):
    k = sum(1 for x in st.events if x.args[0] == 'lock' and x.args[1] is lock)
    n = mk('acq', mk('site', eng.site()), k)
    cell = ('shared', lock, n)
    st.store[cell] = mk('shared', lock, n)
    st.ev('lock', lock, mode, n)
    return mk('guard', ref(cell), lock, mk('mode', mode), n)
def lockfut(mode):
    def f(eng, st, a, i, d, t): return ret(mk('lockfut', lockid(eng, st, a[0], i), mk('mode', mode)), st)
    return f
def lockstd(mode):
    def f(eng, st, a, i, d, t):
        lock = lockid(eng, st, a[0], i)
        g = acquire(eng, st, lock, mode)
        ty = eng.types[t]
        return ret(ok(g) if ty['k'] == 'adt' and ty['path'] == RES else g, st)
    return f
for L in LOCKS:
    TABLE[L + '::new'] = locknew
    mk_ = lockfut if L.startswith('tokio') else lockstd
    TABLE[L + '::read'] = mk_('read'); TABLE[L + '::write'] = mk_('write'); TABLE[L + '::lock'] = mk_('write')
    TABLE[L + '::read_owned'] = mk_('read'); TABLE[L + '::write_owned'] = mk_('write'); TABLE[L + '::lock_owned'] = mk_('write')
def guards(v):
    if v.op == 'guard': return [v] if len(v.args) > 1 else []
    if v.op in ('agg', 'upd', 'arr', 'mapent'): return [g for x in v.args if isinstance(x, T) for g in guards(x)]
    return []
def on_drop(eng, st, v, tyid):
    for g in guards(v):
        v = UNIT
        if g.args[0].op == 'ref':
            c = g.args[0].args[0]
            v = eng.val(st, st.store[c]) if c in st.store else UNIT
            st.store.pop(c, None)
        st.ev('unlock', g.args[1], g.args[3], v)

# ---------------------------------------------------------------- futures and tasks
def unpin(eng, st, v):
    """the future behind Pin<&mut F> / Pin<Box<F>> / &mut F"""
    for _ in range(6):
        if v.op == 'ref': v = eng.loadref(st, v)
        elif v.op == '&': v = v.args[0]
        else: break
    return v
def run_coro(eng, st, co, d, outty=None):
    i = int(co.args[1]); raw = eng.fns.get(str(i))
    if outty is not None and eng.insts[i]['path'] in getattr(eng, 'cut', ()):     # analysed on its own
        st.ev('sub', eng.val(st, co), mk('site', eng.site()))
        return await_other(eng, st, eng.insts[i]['path'], co, outty, i)
    if raw is None: raise C.AnalysisError('no body for coroutine ' + eng.insts[i]['full'])
    if sum(1 for x in eng.stack if x[0] == i) >= 2: raise C.AnalysisError('recursive coroutine')
    return eng.run(i, [co, mk('sym', 'cx')], st, d + 1)
def polled(t, eng):
    ty = eng.types[t]
    return ty['args'][0] if ty['k'] == 'adt' and ty['path'].endswith('::Poll') and ty['args'] else None
def await_other(eng, st, what, v, outty, i):
    """a future implemented elsewhere: an unknown fresh result"""
    val = deep(st, eng, v)
    k = sum(1 for x in st.events if x.args[0] == 'await' and x.args[2] is val)
    st.ev('await', what, val)
    c = mk('call', 'await ' + what, val, mk('site', eng.site()), k)
    if outty is None: return ret(c, st)
    ty = eng.types[outty]
    if ty['k'] == 'tuple' and not ty['elems']: return ret(UNIT, st)
    if ty['k'] == 'never': return []
    if ty['k'] == 'adt' and ty['path'] == RES: return eng.result_call(c, st, ty)
    return ret(eng.hint(c, outty), st)
def await_(eng, st, f, outty, d, what, i):
    if f.op == 'agg' and f.args[0] == 'coroutine': return run_coro(eng, st, f, d, outty)
    if f.op == 'lockfut': return ret(acquire(eng, st, f.args[0], f.args[1].args[0]), st)
    if f.op == 'ready': return ret(f.args[0], st)
    h = getattr(eng, 'futures', {}).get(f.op)
    if h: return h(eng, st, f, outty)
    if f.op == 'catch':
        out = []
        for o in await_(eng, st, unpin(eng, st, f.args[0]), None, d, what, i):
            if o.kind == 'ret': o.val = ok(o.val)
            elif o.kind == 'panic':
                st2 = o.st; held = {}
                for x in st2.events:      # unwinding drops every guard taken by the inner future
                    if x.args[0] == 'lock': held[x.args[3]] = x.args[1]
                    elif x.args[0] == 'unlock': held.pop(x.args[2], None)
                st2.ev('caught', o.val)
                o = C.Out('ret', err(mk('panicked', o.val)), st2)
            out.append(o)
        return out
    if f.op == 'timeout':
        s2 = st.copy(); s2.ev('await', 'timer', f.args[1])
        out = ret(err(mk('const', 'Elapsed')), s2)
        for o in await_(eng, st, unpin(eng, st, f.args[0]), None, d, what, i):
            if o.kind == 'ret': o.val = ok(o.val)
            out.append(o)
        return out
    if f.op == 'joinall':
        x = f.args[0]
        outs = []
        for o in P.collect_into(eng, st, x, arr(), d):
            if o.kind != 'ret': outs.append(o); continue
            outs += join_items(eng, o.st, o.val, outty, d, what, i)
        return outs
    return await_other(eng, st, what, f, outty, i)
def join_items(eng, st, lst, outty, d, what, i):
    def inline(u):      # futures of started tasks run on their own
        return u.op == 'agg' and u.args[0] == 'coroutine' or u.op != 'jh' and u.op in ('arr', 'cat', 'agg', 'map', 'filt', 'flat', '&', 'concat') and any(inline(x) for x in (u.args[1:2] if u.op in ('map', 'filt') else u.args) if isinstance(x, T))
    if True:
        if inline(lst): raise C.AnalysisError('join_all over inline futures is not modelled')
    return await_other(eng, st, 'join_all', lst, outty, i)
def poll(eng, st, a, i, d, t):
    """poll of a workspace coroutine: run it to completion"""
    co = unpin(eng, st, a[0])
    if not (co.op == 'agg' and co.args[0] == 'coroutine'):
        return wrap_ready(await_other(eng, st, eng.insts[i]['path'], co, polled(t, eng), i))
    return wrap_ready(run_coro(eng, st, co, d, polled(t, eng)))
def wrap_ready(outs):
    for o in outs:
        if o.kind == 'ret': o.val = agg(POLL, 'Ready', o.val)
    return outs
@prim('core::future::future::Future::poll')
def future_poll(eng, st, a, i, d, t):
    f = unpin(eng, st, a[0])
    ty = P.selfty(eng, i)
    what = C.canon(ty['s'].split('<')[0]) if ty is not None else 'future'
    return wrap_ready(await_(eng, st, f, polled(t, eng), d, what, i))
def foreign_poll(eng, st, a, i, d, t):
    if t is None or polled(t, eng) is None: return None
    return wrap_ready(await_(eng, st, unpin(eng, st, a[0]), polled(t, eng), d, C.canon(eng.insts[i]['path'])[:-len('::{closure#0}')], i))
@prim('core::future::into_future::IntoFuture::into_future')
def _(eng, st, a, i, d, t): return ret(a[0], st)
@prim('core::future::get_context')
def _(eng, st, a, i, d, t): return ret(mk('sym', 'cx'), st)
@prim('core::future::ready::ready')
def _(eng, st, a, i, d, t): return ret(mk('ready', a[0]), st)
@prim('futures_util::future::future::FutureExt::catch_unwind')
def _(eng, st, a, i, d, t): return ret(mk('catch', a[0]), st)
@prim('futures_util::future::future::FutureExt::boxed')
def _(eng, st, a, i, d, t): return ret(a[0], st)
@prim('tokio::time::timeout::timeout')
def _(eng, st, a, i, d, t): return ret(mk('timeout', a[1], deep(st, eng, a[0])), st)
@prim('futures_util::future::join_all::join_all')
def _(eng, st, a, i, d, t):
    x = P.to_it(eng, st, a[0], P.marg(eng, i) or P.targ(eng, i))
    return None if x is None else ret(mk('joinall', x), st)
def spawn(eng, st, a, i, d, t):
    v = eng.val(st, a[0])
    h = mk('jh', mk('site', eng.site()), v)
    st.ev('spawn', v, mk('site', eng.site()))
    return ret(h, st)
for n in ('tokio::task::spawn::spawn', 'tokio::spawn', 'tokio::task::blocking::spawn_blocking', 'tokio::runtime::runtime::Runtime::spawn', 'tokio::task::local::spawn_local', 'tokio::runtime::handle::Handle::spawn'):
    TABLE[n] = spawn if 'Runtime' not in n and 'Handle' not in n else (lambda eng, st, a, i, d, t: spawn(eng, st, a[1:], i, d, t))
@prim('tokio::runtime::runtime::Runtime::block_on')
def block_on(eng, st, a, i, d, t): return await_(eng, st, unpin(eng, st, a[1]), t, d, 'block_on', i)
@prim('tokio::runtime::task::join::JoinHandle::abort', 'tokio::runtime::task::abort::AbortHandle::abort')
def abort(eng, st, a, i, d, t):
    st.ev('abort', deep(st, eng, a[0])); return ret(UNIT, st)
@prim('tokio::runtime::task::join::JoinHandle::abort_handle')
def _(eng, st, a, i, d, t): return ret(deep(st, eng, a[0]), st)

# ---------------------------------------------------------------- maps
HM = 'std::collections::hash::map::'
MAPS = ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap')
ENT = ('std::collections::hash::map::', 'alloc::collections::btree::map::entry::')
def mapname(fs):
    def d(f):
        for m in MAPS:
            for n in fs: TABLE[m + '::' + n] = f
        return f
    return d
def entname(kind, fs):
    def d(f):
        for m in ENT:
            for n in fs: TABLE[m + kind + '::' + n] = f
        return f
    return d
def where(eng, r):
    """the container a map reference denotes: (root cell, path)"""
    c, p = eng.loc(r)
    return mk('place', c, p)
def keyof(eng, st, k): return deep(st, eng, k)
def mapev(eng, st, op, r, key, val=UNIT): st.ev('map', op, where(eng, r), key, deep(st, eng, val))
def mapct(eng, st, r):
    while True:
        v = content(eng, st, r)
        if v.op != 'ref': return r, v
        r = v
@mapname(['new', 'with_capacity'])
def _(eng, st, a, i, d, t): return ret(mk('mapnew'), st)
P_DEFAULT = P.TABLE.get('core::default::Default::default')
def default2(eng, st, a, i, d, t):
    if eng.offchain:
        ty = P.selfty(eng, i)
        if ty is not None and ty['k'] == 'adt':
            if ty['path'] in MAPS: return ret(mk('mapnew'), st)
            if ty['path'].endswith('HashSet'): return ret(arr(), st)
    return P_DEFAULT(eng, st, a, i, d, t) if P_DEFAULT else None
P.TABLE['core::default::Default::default'] = default2
@mapname(['insert'])
def _(eng, st, a, i, d, t):
    out = []; key = keyof(eng, st, a[1])
    r, m = mapct(eng, st, a[0])
    for b, s in eng.fork(st, has(m, key)):
        eng.storeref(s, r, mapset(m, key, a[2])); mapev(eng, s, 'insert', r, key, a[2])
        out += ret(some(mapget(m, key)) if b else NONE, s)
    return out
@mapname(['remove'])
def _(eng, st, a, i, d, t):
    out = []; key = keyof(eng, st, a[1])
    r, m = mapct(eng, st, a[0])
    for b, s in eng.fork(st, has(m, key)):
        mapev(eng, s, 'remove', r, key)
        if b: eng.storeref(s, r, mapdel(m, key))
        out += ret(some(mapget(m, key)) if b else NONE, s)
    return out
@mapname(['remove_entry'])
def _(eng, st, a, i, d, t):
    out = []; key = keyof(eng, st, a[1])
    r, m = mapct(eng, st, a[0])
    for b, s in eng.fork(st, has(m, key)):
        mapev(eng, s, 'remove', r, key)
        if b: eng.storeref(s, r, mapdel(m, key))
        out += ret(some(tup(key, mapget(m, key))) if b else NONE, s)
    return out
@mapname(['get', 'get_mut'])
def _(eng, st, a, i, d, t):
    out = []; key = keyof(eng, st, a[1])
    r, m = mapct(eng, st, a[0])
    for b, s in eng.fork(st, has(m, key)): out += ret(some(eng.subref(r, ('mk', key))) if b else NONE, s)
    return out
@mapname(['contains_key'])
def _(eng, st, a, i, d, t):
    r, m = mapct(eng, st, a[0])
    return ret(has(m, keyof(eng, st, a[1])), st)
@mapname(['len'])
def _(eng, st, a, i, d, t): return ret(ln(mk('mapkeys', mapct(eng, st, a[0])[1])), st)
@mapname(['is_empty'])
def _(eng, st, a, i, d, t): return ret(eqz(ln(mk('mapkeys', mapct(eng, st, a[0])[1]))), st)
@mapname(['clear'])
def _(eng, st, a, i, d, t):
    r, m = mapct(eng, st, a[0])
    mapev(eng, st, 'clear', r, UNIT); eng.storeref(st, r, mk('mapnew')); return ret(UNIT, st)
def miter(eng, st, r, how):
    r, m = mapct(eng, st, r)
    l = eng.newcell(st, mk('mapkeys', m))
    return P.it('miter', l, ZERO, ln(mk('mapkeys', m)), r, how)
@mapname(['keys'])
def _(eng, st, a, i, d, t):
    r, m = mapct(eng, st, a[0])
    return ret(P.it('slice', eng.newcell(st, mk('mapkeys', m)), ZERO, ln(mk('mapkeys', m))), st)
@mapname(['into_keys'])
def _(eng, st, a, i, d, t): return ret(P.it('val', mk('mapkeys', a[0]), ZERO, ln(mk('mapkeys', a[0]))), st)
@mapname(['iter', 'iter_mut'])
def _(eng, st, a, i, d, t): return ret(miter(eng, st, a[0], 'ref'), st)
@mapname(['values', 'values_mut'])
def _(eng, st, a, i, d, t): return ret(miter(eng, st, a[0], 'values'), st)
@mapname(['drain'])
def _(eng, st, a, i, d, t):
    r, m = mapct(eng, st, a[0])
    mapev(eng, st, 'clear', r, UNIT); eng.storeref(st, r, mk('mapnew'))
    return ret(P.it('miter', eng.newcell(st, mk('mapkeys', m)), ZERO, ln(mk('mapkeys', m)), m, 'val'), st)
@mapname(['into_values'])
def _(eng, st, a, i, d, t): return ret(P.it('miter', eng.newcell(st, mk('mapkeys', a[0])), ZERO, ln(mk('mapkeys', a[0])), a[0], 'ival'), st)
@mapname(['retain'])
def _(eng, st, a, i, d, t):
    r, m0 = mapct(eng, st, a[0])
    keys = mk('mapkeys', m0)
    def item(e, s, g, p):
        out = []
        kr = eng.newcell(s, e)
        for o in eng.call_value(a[1], [kr, eng.subref(r, ('mk', e))], s, d):
            if o.kind != 'ret': out.append(('out', o, None)); continue
            for b, s2 in eng.fork(o.st, o.val):
                if not b:
                    mapev(eng, s2, 'remove', r, e)
                    eng.storeref(s2, r, mapdel(content(eng, s2, r), e))
                out.append(('back', None, s2))
        return out
    return P.iterate(eng, st, P.it('val', keys, ZERO, ln(keys)), d, 'retain', {}, item, lambda s, g: UNIT)
def to_it(eng, st, v, ty):
    """maps and sets as iterables"""
    if ty is None: return None
    byref = ty['k'] == 'ref'
    e = eng.types[ty['to']] if byref else ty
    if e['k'] != 'adt': return None
    if e['path'] in MAPS:
        if byref: return miter(eng, st, v, 'ref')
        return P.it('miter', eng.newcell(st, mk('mapkeys', v)), ZERO, ln(mk('mapkeys', v)), v, 'val')
    if e['path'].endswith('HashSet') or e['path'].endswith('BTreeSet'):
        return P.it('slice', v, ZERO, ln(content(eng, st, v))) if byref else P.it('val', v, ZERO, ln(v))
    return None
# entries
@mapname(['entry'])
def _(eng, st, a, i, d, t):
    r, m = mapct(eng, st, a[0])
    return ret(mk('ment', m, keyof(eng, st, a[1]), r), st)
def ment(v):
    while v.op in ('fld', 'as'): v = v.args[0]
    return v if v.op == 'ment' else None
def slot(eng, e): return eng.subref(e.args[2], ('mk', e.args[1]))
@entname('Entry', ['or_default', 'or_insert', 'or_insert_with', 'or_insert_entry'])
def _(eng, st, a, i, d, t):
    e = ment(a[0])
    if e is None: return None
    m, key, r = e.args
    if eng.names[i].endswith('or_default'):
        st.ev('map', 'ensure', where(eng, r), key, UNIT)
        eng.storeref(st, r, mapset(m, key, mapget(m, key)))
        return ret(slot(eng, e), st)
    out = []
    for b, s in eng.fork(st, has(m, key)):
        if b: out += ret(slot(eng, e), s); continue
        vs = ret(a[1], s)
        if eng.names[i].endswith('or_insert_with'): vs = eng.call_value(a[1], [], s, d)
        for o in vs:
            if o.kind == 'ret':
                eng.storeref(o.st, r, mapset(m, key, o.val)); mapev(eng, o.st, 'insert', r, key, o.val)
                o.val = slot(eng, e)
            out.append(o)
    return out
@entname('Entry', ['and_modify'])
def _(eng, st, a, i, d, t):
    e = ment(a[0])
    if e is None: return None
    m, key, r = e.args; out = []
    for b, s in eng.fork(st, has(m, key)):
        if not b: out += ret(a[0], s); continue
        for o in eng.call_value(a[1], [slot(eng, e)], s, d):
            if o.kind == 'ret':
                mapev(eng, o.st, 'update', r, key)
                o.val = mk('ment', content(eng, o.st, r), key, r)
            out.append(o)
    return out
@entname('VacantEntry', ['insert'])
def _(eng, st, a, i, d, t):
    e = ment(a[0])
    if e is None: return None
    m, key, r = e.args
    eng.storeref(st, r, mapset(m, key, a[1])); mapev(eng, st, 'insert', r, key, a[1])
    return ret(slot(eng, e), st)
@entname('OccupiedEntry', ['insert'])
def _(eng, st, a, i, d, t):
    e = ment(content(eng, st, a[0]) if a[0].op == 'ref' else a[0])
    if e is None: return None
    m, key, r = e.args
    eng.storeref(st, r, mapset(m, key, a[1])); mapev(eng, st, 'update', r, key, a[1])
    return ret(mapget(m, key), st)
@entname('OccupiedEntry', ['get', 'get_mut', 'into_mut'])
def _(eng, st, a, i, d, t):
    e = ment(content(eng, st, a[0]) if a[0].op == 'ref' else a[0])
    return None if e is None else ret(slot(eng, e), st)
@entname('OccupiedEntry', ['remove'])
def _(eng, st, a, i, d, t):
    e = ment(a[0])
    if e is None: return None
    m, key, r = e.args
    mapev(eng, st, 'remove', r, key); eng.storeref(st, r, mapdel(m, key))
    return ret(mapget(m, key), st)
# sets: the list of inserted elements
SETS = ('std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet')
def setname(fs):
    def d(f):
        for m in SETS:
            for n in fs: TABLE[m + '::' + n] = f
        return f
    return d
@setname(['new', 'with_capacity'])
def _(eng, st, a, i, d, t): return ret(arr(), st)
@setname(['insert'])
def _(eng, st, a, i, d, t):
    r = a[0]; v = content(eng, st, r)
    eng.storeref(st, r, cat(v, arr(a[1])))
    c = mk('call', 'set::insert', v, deep(st, eng, a[1])); BOOLTERMS.add(c)
    return ret(c, st)
@setname(['contains'])
def _(eng, st, a, i, d, t): return P.TABLE['core::slice::contains'](eng, st, a, i, d, t)
@setname(['len'])
def _(eng, st, a, i, d, t): return None
@setname(['is_empty'])
def _(eng, st, a, i, d, t): return ret(eqz(ln(content(eng, st, a[0]))), st)
@setname(['iter'])
def _(eng, st, a, i, d, t): return ret(P.it('slice', a[0], ZERO, ln(content(eng, st, a[0]))), st)
def collect(eng, st, x, i, d, t):
    ty = eng.types[t]
    if ty['k'] == 'adt' and (ty['path'].endswith('HashSet') or ty['path'].endswith('BTreeSet')): return P.collect_into(eng, st, x, arr(), d)
    if ty['k'] == 'adt' and ty['path'] in MAPS:
        def item(e, s, g, p):
            p(s, 'm', mapset(g(s, 'm'), deep(s, eng, fld(e, '0', 0)), fld(e, '1', 1))); return [('back', None, s)]
        return P.iterate(eng, st, x, d, 'collect', {'m': mk('mapnew')}, item, lambda s, g: g(s, 'm'))
    return None
P_EXTEND = P.TABLE['core::iter::traits::collect::Extend::extend']
def extend2(eng, st, a, i, d, t):
    """sets are lists of inserted elements, maps take the pairs one by one"""
    ty = P.selfty(eng, i)
    if not eng.offchain or ty is None or ty['k'] != 'adt': return P_EXTEND(eng, st, a, i, d, t)
    isset = ty['path'].endswith('HashSet') or ty['path'].endswith('BTreeSet')
    if not isset and ty['path'] not in MAPS: return P_EXTEND(eng, st, a, i, d, t)
    x = P.to_it(eng, st, a[1], P.marg(eng, i) or (P.ttas(eng, i) or [None])[-1])
    if x is None: return None
    if isset: outs = P.collect_into(eng, st, x, content(eng, st, a[0]), d)
    else:
        r, m = mapct(eng, st, a[0])
        def item(e, s, g, p):
            k, v = deep(s, eng, fld(e, '0', 0)), fld(e, '1', 1)
            p(s, 'm', mapset(g(s, 'm'), k, v)); mapev(eng, s, 'insert', r, k, v); return [('back', None, s)]
        outs = P.iterate(eng, st, x, d, 'extend', {'m': m}, item, lambda s, g: g(s, 'm'))
    for o in outs:
        if o.kind == 'ret':
            eng.storeref(o.st, a[0], o.val); o.val = UNIT
    return outs
P.TABLE['core::iter::traits::collect::Extend::extend'] = extend2
