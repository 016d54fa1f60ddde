"""Abstract interpreter over the dumped MIR.

Domain: cells -> value-number terms, plus a set of guard facts, plus an ordered list of effect
events; control-flow joins with equal memory and effects are merged (facts intersected); loops are
iterated to a fixpoint with structural widening to phi terms.  No solver, no execution."""
import sys, re, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import terms as TT
START, BUDGET = time.time(), float(os.environ.get('VERIF_BUDGET', '780'))     # seconds before an analysis is given up as not decidable
from terms import *
sys.setrecursionlimit(20000)

def canon(p):
    """strip every <...> group of a path"""
    out = []; d = 0; i = 0
    while i < len(p):
        c = p[i]
        if c == '<': d += 1
        elif c == '>' and p[i-1] != '-': d -= 1
        elif d == 0: out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s: s = s.replace('::::', '::')
    return s.strip(':')

class AnalysisError(Exception): pass

ANDPARTS = {}          # literal -> conjunctions containing it
class State:
    __slots__ = ('store', 'facts', 'ivl', 'events', 'n', 'bc', 'dc')
    def __init__(s): s.store = {}; s.facts = {}; s.ivl = {}; s.events = (); s.n = 0; s.bc = {}; s.dc = {}
    def copy(s):
        t = State.__new__(State)
        t.store = dict(s.store); t.facts = dict(s.facts); t.ivl = dict(s.ivl); t.events = s.events; t.n = s.n
        t.bc = s.bc; t.dc = s.dc          # memo tables, replaced (not emptied) when facts change
        return t
    def ev(s, kind, *args):
        s.events = s.events + (mk('ev', kind, *args),)

    # ------------------------------------------------ facts
    def bounds(s, t):
        """interval of an int term (linear form) from interval facts and natural ranges"""
        c, p = lin_parts(t)
        if not p: return c, c
        if c: t = subt(t, I(c))
        k = (t, GEN[0]); r = s.bc.get(k)
        if r is None: r = s.bc[k] = s.bounds_(t)
        return (r[0] if r[0] is None else r[0] + c, r[1] if r[1] is None else r[1] + c) if c else r
    def bounds_(s, t):
        c, p = lin_parts(t)
        if not p: return c, c
        def single(x):
            lo, hi = trange(x)
            b = s.ivl.get(((x, 1),))
            if b:
                if b[0] is not None: lo = b[0] if lo is None else max(lo, b[0])
                if b[1] is not None: hi = b[1] if hi is None else min(hi, b[1])
            if x.op == 'satsub':      # x <= a
                ah = s.bounds(x.args[0])[1]
                if ah is not None: hi = ah if hi is None else min(hi, ah)
            elif x.op == 'align':     # y - (n-1) <= align(y, n) <= y
                al, ah = s.bounds(x.args[0])
                if al is not None: lo = al - x.args[1] + 1 if lo is None else max(lo, al - x.args[1] + 1)
                if ah is not None: hi = ah if hi is None else min(hi, ah)
            elif x.op in ('div', 'rem') and lo is None and nonneg(x.args[0]): lo = 0
            if x.op == 'div' and isint(x.args[1]) and x.args[1].args[0] > 0:
                ah = s.bounds(x.args[0])[1]
                if ah is not None:
                    ah //= x.args[1].args[0]; hi = ah if hi is None else min(hi, ah)
            if x.op == 'rem':
                bl, bh = s.bounds(x.args[1])
                if bh is not None and nonneg(x.args[0]): hi = bh - 1 if hi is None else min(hi, bh - 1)
                if lo is None and nonneg(x.args[0]): lo = 0
            return lo, hi
        lo = hi = c
        for x, k in p:
            a, b = single(x)
            if k < 0: a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        al = [(x, k) for x, k in p if x.op == 'align']
        if al and len(p) > 1:          # y - (n-1) <= align(y, n) <= y
            u = l = t
            for x, k in al:
                y, n = x.args; low, high = subt(y, I(n - 1)), y
                if k < 0: low, high = high, low
                u = add(u, add(mul(I(k), high), mul(I(-k), x))); l = add(l, add(mul(I(k), low), mul(I(-k), x)))
            a = s.bounds(l)[0]; b = s.bounds(u)[1]
            if a is not None: lo = a if lo is None else max(lo, a)
            if b is not None: hi = b if hi is None else min(hi, b)
        if len(p) > 1 or p[0][1] != 1:
            key, sg = s.lkey(p)
            b = s.ivl.get(key)
            if b:
                l2, h2 = b if sg > 0 else (None if b[1] is None else -b[1], None if b[0] is None else -b[0])
                if l2 is not None: l2 += c; lo = l2 if lo is None else max(lo, l2)
                if h2 is not None: h2 += c; hi = h2 if hi is None else min(hi, h2)
        return lo, hi
    @staticmethod
    def lkey(p):
        if p[0][1] < 0: return tuple((x, -k) for x, k in p), -1
        return p, 1
    def decide(s, b, depth=0):
        """True/False/None for a boolean term"""
        if b.op == 'int': return bool(b.args[0])
        if b.op == 'not':
            r = s.decide(b.args[0], depth); return None if r is None else not r
        if b in s.facts: return s.facts[b]
        if b.op == 'pos':
            lo, hi = s.bounds(b.args[0])
            if lo is not None and lo > 0: return True
            if hi is not None and hi <= 0: return False
            if depth < 2:
                k = (b, depth, GEN[0])
                if k in s.dc: r = s.dc[k]
                else: r = s.dc[k] = s.trans(b.args[0], depth)
                if r is not None: return r
        elif b.op == 'eqz':
            lo, hi = s.bounds(b.args[0])
            if lo is not None and lo > 0 or hi is not None and hi < 0: return False
            if lo == 0 == hi: return True
        elif b.op == 'and':
            rs = [s.decide(x, depth) for x in b.args]
            if False in rs: return False
            if all(r is True for r in rs): return True
        elif b.op == 'isvar':
            # exclusive variants
            t, v = b.args
            for f, val in s.facts.items():
                if val and f.op == 'isvar' and f.args[0] is t and f.args[1] != v: return False
        elif b.op == 'eqv':
            x, y = b.args
            for f, val in s.facts.items():
                if val and f.op == 'eqv' and (x in f.args) and f is not b:
                    z = f.args[1] if f.args[0] is x else f.args[0]
                    if eqv(z, y) is FALSE: return False
                    if eqv(z, y) is TRUE: return True
                if val and f.op == 'eqv' and (y in f.args) and f is not b:
                    z = f.args[1] if f.args[0] is y else f.args[0]
                    if eqv(z, x) is FALSE: return False
                    if eqv(z, x) is TRUE: return True
        return None
    def refuted(s):
        """a negated conjunction among the facts whose parts all hold"""
        return any(not v and f.op == 'and' and all(s.decide(x) is True for x in f.args) for f, v in s.facts.items())
    def trans(s, d, depth):
        """one-step combination: d > 0 follows from a known e > 0 with d - e >= 0 (or refuted dually)"""
        pd = [x for x, _ in lin_parts(d)[1]]
        pd += [x for a in pd if a.op == 'align' for x, _ in lin_parts(a.args[0])[1]]
        for f, v in s.facts.items():
            if f.op != 'pos': continue
            e = f.args[0]
            if not any(x in pd for x, _ in lin_parts(e)[1]): continue
            if v:
                lo = s.bounds(subt(d, e))[0]
                if lo is not None and lo >= 0: return True
                if depth == 0 and s.decide(pos(add(subt(d, e), ONE)), 1) is True: return True
                hi = s.bounds(add(d, e))[1]        # d + e <= 0.. e>0 (e>=1) => d <= hi-1
                if hi is not None and hi <= 1: return False
            else:
                # e <= 0 :  d = e + r , hi(r) <= 0 => d <= 0
                hi = s.bounds(subt(d, e))[1]
                if hi is not None and hi <= 0: return False
                lo = s.bounds(add(d, e))[0]        # d >= lo - e >= lo
                if lo is not None and lo > 0: return True
                if depth == 0:                     # e <= 0: d >= d + e, d <= d - e
                    if s.decide(pos(add(d, e)), 1) is True: return True
                    if s.decide(pos(subt(d, e)), 1) is False: return False
        return None
    def assume(s, b, val=True):
        """add fact; returns False if contradictory"""
        while b.op == 'not': b = b.args[0]; val = not val
        if b.op == 'int': return bool(b.args[0]) == val
        r = s.decide(b)
        if r is not None:
            if r == val and b not in s.facts and b.op not in ('pos', 'eqz'): s.facts[b] = val; s.dc = {}
            return r == val
        if b.op == 'and':
            if val:
                s.facts[b] = True; s.dc = {}
                return all(s.assume(x, True) for x in b.args)
            s.facts[b] = False; s.dc = {}
            unk = [x for x in b.args if s.decide(x) is not True]
            if len(unk) == 1: return s.assume(unk[0], False)
            for x in unk: ANDPARTS.setdefault(x, {})[b] = 1
            return bool(unk)
        s.facts[b] = val; s.dc = {}
        if not s.assumed(b): return False
        for a in list(ANDPARTS.get(b if val else not_(b), ())):      # all but one conjunct of a refuted conjunction hold
            if s.facts.get(a) is not False: continue
            unk = [x for x in a.args if s.decide(x) is not True]
            if not unk or len(unk) == 1 and not s.assume(unk[0], False): return False
        return True
    def assumed(s, b):
        val = s.facts[b]
        if b.op == 'pos':
            c, p = b.args[0].args if b.args[0].op == 'lin' else (0, ((b.args[0], 1),))
            key, sg = s.lkey(p)
            s.tighten(key, sg, c, val)
        elif b.op == 'eqz' and val:
            c, p = b.args[0].args if b.args[0].op == 'lin' else (0, ((b.args[0], 1),))
            key, sg = s.lkey(p)
            v = -c * sg
            l, h = s.ivl.get(key, (None, None))
            s.ivl[key] = (v, v); s.bc = {}; s.dc = {}
        return True
    def tighten(s, key, sg, c, val):
        # val: sg*key + c > 0 ; not val: sg*key + c <= 0
        l, h = s.ivl.get(key, (None, None))
        if val:
            if sg > 0: b = 1 - c; l = b if l is None else max(l, b)
            else: b = c - 1; h = b if h is None else min(h, b)
        else:
            if sg > 0: b = -c; h = b if h is None else min(h, b)
            else: b = c; l = b if l is None else max(l, b)
        s.ivl[key] = (l, h); s.bc = {}; s.dc = {}

class Out:
    __slots__ = ('kind', 'val', 'st')
    def __init__(s, kind, val, st): s.kind = kind; s.val = val; s.st = st

class Fn:
    """per-function CFG info"""
    def __init__(s, raw):
        s.raw = raw; s.blocks = raw['blocks']; s.locals = raw['locals']; s.argc = raw['argc']
        n = len(s.blocks)
        s.succ = [s._succ(b) for b in s.blocks]
        s.rpo(); s.dom(); s.loops(); s.live()
    @staticmethod
    def _succ(b):
        t = b['t']; k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'sw':
            r = [x[1] for x in t[2]]
            if t[3] is not None: r.append(t[3])
            return list(dict.fromkeys(r))
        if k == 'call': return [t[5]] if t[5] is not None else []
        if k == 'drop': return [t[2]]
        if k == 'assert': return [t[4]]
        if k == 'yield': return [t[2]]
        return []
    def rpo(s):
        seen = set(); order = []
        st = [(0, iter(s.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); st.append((x, iter(s.succ[x]))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        s.order = order; s.num = {b: i for i, b in enumerate(order)}
        s.pred = {b: [] for b in order}
        for b in order:
            for x in s.succ[b]: s.pred[x].append(b)
    def dom(s):
        idom = {s.order[0]: s.order[0]}
        ch = True
        while ch:
            ch = False
            for b in s.order[1:]:
                new = None
                for p in s.pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while s.num[x] > s.num[y]: x = idom[x]
                                while s.num[y] > s.num[x]: y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new: idom[b] = new; ch = True
        s.idom = idom
    def dominates(s, a, b):
        while True:
            if a == b: return True
            if b == s.order[0]: return False
            b = s.idom[b]
    def loops(s):
        s.loop = {}
        for b in s.order:
            for x in s.succ[b]:
                if s.num[x] <= s.num[b] and s.dominates(x, b):
                    body = s.loop.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y); st.extend(s.pred[y])
    def live(s):
        n = len(s.locals)
        addr = set()
        use = {}; dfn = {}
        def uplace(p, u):
            u.add(p[0])
            for e in p[1]:
                if e[0] == 'i': u.add(e[1])
        def uop(o, u):
            if o[0] in ('cp', 'mv'): uplace(o[1], u)
        def urv(r, u):
            k = r[0]
            if k in ('use', 'rep'): uop(r[1], u)
            elif k == 'ref':
                if not any(e[0] == '*' for e in r[1][1]): addr.add(r[1][0])
                uplace(r[1], u)
            elif k == 'cast': uop(r[2], u)
            elif k == 'bin': uop(r[2], u); uop(r[3], u)
            elif k == 'un': uop(r[2], u)
            elif k == 'disc': uplace(r[1], u)
            elif k == 'agg':
                for o in r[4]: uop(o, u)
        for b in s.order:
            bl = s.blocks[b]; U = set(); D = set()
            def note(u):
                for x in u:
                    if x not in D: U.add(x)
            for st in bl['s']:
                if st[0] == '=':
                    u = set(); urv(st[2], u)
                    if st[1][1]: uplace(st[1], u)
                    note(u)
                    if not st[1][1]: D.add(st[1][0])
                elif st[0] == 'sd': note({st[1][0]})
                elif st[0] == 'cno':
                    u = set(); [uop(o, u) for o in st[1:4]]; note(u)
            t = bl['t']; u = set()
            if t[0] == 'call':
                uop(t[2], u)
                for o in t[3]: uop(o, u)
                if t[4][1]: uplace(t[4], u)
                note(u)
                if not t[4][1]: D.add(t[4][0])
            else:
                if t[0] == 'sw': uop(t[1], u)
                elif t[0] == 'assert':
                    uop(t[1], u)
                    if t[3][0] == 'bounds': uop(t[3][1], u); uop(t[3][2], u)
                elif t[0] == 'drop': uplace(t[1], u)
                elif t[0] == 'yield': uop(t[1], u)
                elif t[0] == 'ret': u.add(0)
                note(u)
            use[b] = U; dfn[b] = D
        s.addr = addr
        livein = {b: set() for b in s.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(s.order):
                o = set()
                for x in s.succ[b]: o |= livein[x]
                i = use[b] | (o - dfn[b])
                if i != livein[b]: livein[b] = i; ch = True
        s.livein = livein

class Engine:
    MAXOUT = 4000
    def __init__(self, dump, follow=None, summaries=None, offchain=False):
        import prims
        self.d = dump; self.types = dump['types']; self.insts = dump['insts']; self.fns = dump['fns']
        self._fn = {}; self.prims = prims; self.offchain = offchain
        self.summaries = dict(summaries or {})
        self.nofollow = follow
        self.names = [self.iname(i) for i in self.insts]
        self.steps = 0; self.maxsteps = 4000000
        self.track_err = False       # record calls that return Err (rule D05)
        self.analysed = set()        # instance names whose bodies were interpreted
        self.opaque = {}             # opaque callee -> count
        self.warnings = []
        self.build_layouts()
        self.stack = []; self._pan = []
        self.impure = self.eventful = lambda name: False   # off-chain rules: calls with a fresh result per site / recorded as effects
        self.constiter = False; self.concexit = False; self.swint = False

    # ------------------------------------------------------------ names and types
    @staticmethod
    def iname(i):
        return canon(i.get('trait_item') or i['path'])
    def implname(self, i):
        """name of the function body itself (not of the trait method it implements)"""
        inf = self.insts[i]
        return inf['full']
    def find(self, suffix, body=True):
        """instances whose own path (without generics) ends with suffix"""
        r = []
        for k, i in enumerate(self.insts):
            p = i['path']
            c = canon(p) if not p.startswith('<') else p
            if (c == suffix or c.endswith('::' + suffix) or p == suffix) and (not body or i['body'] and str(k) in self.fns): r.append(k)
        return r
    def find_full(self, sub):
        return [k for k, i in enumerate(self.insts) if sub in i['full'] and i['body'] and str(k) in self.fns]
    def fn(self, k):
        f = self._fn.get(k)
        if f is None:
            raw = self.fns[str(k)]
            if 'error' in raw: raise AnalysisError('no MIR for ' + self.insts[k]['full'])
            f = self._fn[k] = Fn(raw)
        return f
    def ty(self, i): return self.types[i]
    def desc(self, i):
        t = self.types[i]; k = t['k']
        if k in ('uint', 'int', 'bool', 'char', 'float'): return t['s']
        if k == 'array': return ('array', self.desc(t['to']), t.get('len'))
        if k == 'adt':
            if t['path'] in TRANSPARENT and t['variants'] and t['variants'][0]['fields']:
                d = parse_desc(t['variants'][0]['fields'][-1][1])
                return d if d is not None else t['path']
            return t['path']
        return t['s']
    def build_layouts(self):
        for t in self.types:
            if t['k'] == 'adt':
                for v in t['variants']:
                    FIELDS[(t['path'], v['name'] if t['adt'] == 'enum' else '')] = [f[0] for f in v['fields']]
                if t['adt'] == 'struct' and 'offsets' in t and not t['args'] and t['path'] not in LAYOUT:
                    L = LayoutDict(); L[''] = t['size']
                    fs = t['variants'][0]['fields']
                    if len(fs) != len(t['offsets']): continue
                    for (f, ft), o in zip(fs, t['offsets']):
                        L[f] = (o, parse_desc(ft))
                    LAYOUT[t['path']] = L
        for t in self.types:
            if t['k'] == 'adt' and t['path'] in TRANSPARENT and t['adt'] == 'struct' and t['variants'][0]['fields']:
                TDESC[t['path']] = parse_desc(t['variants'][0]['fields'][-1][1])
        for L in LAYOUT.values():
            for f, v in list(L.items()):
                if f != '' and isinstance(v[1], str) and v[1] in TDESC: L[f] = (v[0], TDESC[v[1]])
    def transparent(self, tid):
        t = self.types[tid]
        return t['k'] == 'adt' and (t['path'] in TRANSPARENT or t['path'] in PTRLIKE)
    def variant(self, tid, vi):
        t = self.types[tid]
        return t['variants'][vi]['name']
    def adt_tag(self, tid):
        t = self.types[tid]
        return t['path']

    # ------------------------------------------------------------ memory
    def default(self, cell):
        k = cell[0]
        if k == '@':
            p = cell[1]
            if p.op == 'fld' and p.args[1] == 'data' and is_acct(p.args[0]): return ref(('data', p.args[0]))
            if p.op == 'fld' and p.args[1] == 'lamports' and is_acct(p.args[0]): return ref(('lam', p.args[0]))
            if p.op == 'fld' and p.args[1] == 'key' and is_acct(p.args[0]): return mk('key', p.args[0])
            if p.op == 'fld' and p.args[1] == 'owner' and is_acct(p.args[0]): return mk('owner', p.args[0])
            return mk('deref', p)
        if k == 'k': return cell[1]
        if k == 'data': return mk('data', cell[1])
        if k == 'lam': return mk('lam', cell[1])
        if k == 'arg': return mk('sym', cell[1])
        return mk('uninit', cell)
    def getcell(self, st, cell):
        v = st.store.get(cell)
        return self.default(cell) if v is None else v
    def project(self, v, p):
        k = p[0]
        if k == 'f': return fld(v, p[1], p[2])
        if k == 'v': return as_(v, p[1])
        if k == 'i':
            return idx(v, p[1])
        if k == 'ss': return sub(v, p[1], p[2])
        if k == 'mk': return mapget(v, p[1])
        if k == 'first': return idx(v, ZERO)
        if k == 'from': return sub(v, p[1], ln(v))
        if k == 'view': return rd(v, ZERO, p[1])
        if k == 'viewn':            # slice of p[2] elements of type p[1]
            if v.op == 'pod' and v.args[0] == ('slice', p[1]): return v.args[1]
            return mk('viewn', v, p[1], p[2])
        if k == 'bytes':            # bytes of a typed value
            if p[1] == 'u8': return v
            if isinstance(p[1], tuple) and p[1][0] in ('array', 'slice') and p[1][1] == 'u8': return v
            return mk('pod', p[1], v)
        raise AnalysisError('proj ' + str(p))
    def inject(self, v, p, new):
        k = p[0]
        if k == 'f': return setfld(v, p[1], p[2], new)
        if k == 'v': return new
        if k == 'mk': return mapset(v, p[1], new)
        if k == 'i':
            if isint(p[1]) and v.op in ('arr', 'bytes'):
                e = list(elems(v))
                if p[1].args[0] < len(e):
                    e[p[1].args[0]] = new
                    return norm_arr(e, v.op == 'bytes')
            if isint(p[1]) and isint(ln(v)) and ln(v).args[0] <= 128 and v.op != 'sub':
                e = elems(v)
                if e is not None and v.op not in ('w', 'wi'):
                    e = list(e); e[p[1].args[0]] = new
                    return norm_arr(e, True)
            return mk('wi', v, p[1], new)
        if k == 'ss':
            if p[1] is ZERO and p[2] is ln(v): return new
            if v.op in ('arr', 'bytes') and isint(p[1]) and isint(p[2]):
                e = list(elems(v)); n = elems(new)
                if n is not None and len(n) == p[2].args[0] - p[1].args[0]:
                    e[p[1].args[0]:p[2].args[0]] = n
                    return norm_arr(e, True)
            if v.op == 'cat' or v.op in ('bytes', 'arr', 'zeros', 'rep'):
                return cat(sub(v, ZERO, p[1]), new, sub(v, p[2], ln(v)))
            if new.op == 'pod' and isinstance(new.args[0], str): return w_( v, p[1], I(tysize(new.args[0])) if tysize(new.args[0]) else subt(p[2], p[1]), new.args[0], new.args[1])
            if new.op in ('w', 'wi') :
                # write inside a sub-slice of v: re-base onto v
                base = new.args[0]
                if base is sub(v, p[1], p[2]):
                    if new.op == 'w': return w_( v, add(p[1], new.args[1]), *new.args[2:])
                    return mk('wi', v, add(p[1], new.args[1]), new.args[2])
                inner = self.inject(v, p, base)
                if new.op == 'w': return w_( inner, add(p[1], new.args[1]), *new.args[2:])
                return mk('wi', inner, add(p[1], new.args[1]), new.args[2])
            return w_( v, p[1], subt(p[2], p[1]), 'bytes', new)
        if k == 'first': return self.inject(v, ('i', ZERO), new)
        if k == 'from': return self.inject(v, ('ss', p[1], ln(v)), new)
        if k == 'view':
            n = tysize(p[1]); z = ln(v)
            if n is not None and z is not I(n): return self.inject(v, ('ss', ZERO, I(n)), mk('pod', p[1], new))
            return mk('pod', p[1], new)
        if k == 'viewn': return mk('pod', ('slice', p[1]), new)
        if k == 'bytes': return rd(new, ZERO, p[1])
        raise AnalysisError('inject ' + str(p))
    def load(self, st, cell, proj):
        v = self.getcell(st, cell)
        for p in proj: v = self.project(v, p)
        return v
    def update(self, v, proj, new):
        if not proj: return new
        p = proj[0]
        return self.inject(v, p, self.update(self.project(v, p), proj[1:], new))
    def storeat(self, st, cell, proj, val):
        if not proj: st.store[cell] = val
        else: st.store[cell] = self.update(self.getcell(st, cell), proj, val)
    def loadref(self, st, r):
        """value behind a pointer value"""
        if r.op == 'ref': return self.load(st, r.args[0], r.args[1])
        if r.op == 'guard': return self.loadref(st, r.args[0])
        return self.load(st, ('@', r), ())
    def loc(self, r):
        if r.op == 'ref': return r.args
        if r.op == 'guard': return self.loc(r.args[0])
        return (('@', r), ())
    def storeref(self, st, r, v):
        c, p = self.loc(r)
        self.storeat(st, c, p, v)
    def subref(self, r, *ps):
        c, p = self.loc(r)
        return ref(c, norm_proj(p + tuple(ps)))
    def newcell(self, st, val, kind='h'):
        st.n += 1
        c = (kind, st.n)
        st.store[c] = val
        return ref(c)

    # ------------------------------------------------------------ places and operands
    def place(self, st, fr, p):
        """-> (cell, proj, type id of the place)"""
        fn, depth = fr
        cell = ('l', depth, p[0]); proj = ()
        t = fn.locals[p[0]]['t']
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = self.load(st, cell, proj)
                cell, proj = self.loc(v)
                tt = self.types[e[1]]
                if tt['k'] in ('ref', 'ptr'): t = tt['to']
                elif tt['k'] == 'adt' and tt['args']: t = tt['args'][0]
            elif k == 'f':
                if not self.transparent(t): proj = proj + (('f', e[2], e[1]),)
                t = e[3]
            elif k == 'v': proj = proj + (('v', e[2]),)
            elif k == 'i':
                i = self.load(st, ('l', depth, e[1]), ())
                proj = proj + (('i', i),)
                t = self.types[t].get('to', t)
            elif k == 'ci':
                if e[3]: i = subt(ln(self.load(st, cell, proj)), I(e[1]))
                else: i = I(e[1])
                proj = proj + (('i', i),)
                t = self.types[t].get('to', t)
            elif k == 'ss':
                l = ln(self.load(st, cell, proj))
                proj = proj + (('ss', I(e[1]), subt(l, I(e[2])) if e[3] else I(e[2])),)
            else: raise AnalysisError('place elem %r' % (e,))
        return cell, norm_proj(proj), p[2]
    def hint(self, v, t):
        tt = self.types[t]
        if tt['k'] in ('uint', 'int') and v.op not in ('int', 'lin') and v not in HINT:
            HINT[v] = (tt['k'] == 'int', tt['size'] * 8)
        elif tt['k'] == 'bool' and v.op not in ('int',) and v.op not in BOOLOPS: BOOLTERMS.add(v)
        elif tt['k'] == 'array' and tt.get('len') is not None and v.op in ('fld', 'idx', 'deref', 'sym', 'key', 'owner', 'call', 'ok', 'phi', 'as', 'rd', 'const') and v not in HINT:
            HINT[v] = ('len', tt['len'])
        return v
    def readplace(self, st, fr, p):
        c, pr, t = self.place(st, fr, p)
        v = self.hint(self.load(st, c, pr), t)
        if v.op not in ('int', 'agg', 'bytes', 'arr', 'ref') :
            h = HINT.get(v)
        return v
    def operand(self, st, fr, o):
        if o[0] == 'k': return self.const(o[1])
        v = self.readplace(st, fr, o[1])
        if self.offchain and o[0] == 'mv' and v.op in ('guard', 'agg') and haslock(v):
            c, p, t = self.place(st, fr, o[1])
            self.storeat(st, c, p, MOVED)
        return v
    def const(self, k):
        key = id(k)
        c = self._kc.get(key) if hasattr(self, '_kc') else None
        if c is not None: return c
        if not hasattr(self, '_kc'): self._kc = {}
        v = self._const(k)
        self._kc[key] = v
        return v
    def _const(self, k):
        kind = k['k']; t = self.types[k['t']]
        if kind == 'int': return I(int(k['v']))
        if kind == 'str': return ref(('k', B(k['v'].encode())))
        if kind == 'bytes': return ref(('k', B(bytes(k['v']))))
        if kind == 'ref': return ref(('k', self._const(k['v'])))
        if kind == 'zst': return self.fnval(k['t'])
        if kind == 'agg':
            fs = [self._const(f) for f in k['f']]
            if t['k'] == 'array':
                el = self.types[t['to']]
                return norm_arr(fs, el['s'] == 'u8')
            if t['k'] == 'tuple': return tup(*fs)
            if t['k'] == 'adt':
                if t['path'] in TRANSPARENT or t['path'] in PTRLIKE: return fs[0] if fs else UNIT
                if t['path'] in VECLIKE: return arr()
                if t['adt'] == 'enum': return agg(t['path'], t['variants'][k.get('var', 0)]['name'], *fs)
                return agg(t['path'], '', *fs)
            if not fs: return UNIT
        nm = k.get('name')
        if nm: return mk('const', nm)
        return mk('const', t['s'], str(k.get('dbg', ''))[:80])
    def fnval(self, tid):
        t = self.types[tid]
        if t['k'] == 'closure': return agg('closure', str(t['inst']))
        if t['k'] == 'fndef': return mk('fn', t.get('inst', -1), t['path'])
        return mk('fn', -1, t['s'])

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, destty):
        k = r[0]
        if k == 'use': return self.operand(st, fr, r[1])
        if k == 'ref':
            c, pr, t = self.place(st, fr, r[1])
            return ref(c, pr)
        if k == 'cast': return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4])
        if k == 'un': return self.unop(st, r[1], self.operand(st, fr, r[2]), r[3])
        if k == 'disc':
            c, pr, t = self.place(st, fr, r[1])
            v = self.load(st, c, pr)
            return self.disc(v, t)
        if k == 'rep':
            v = self.operand(st, fr, r[1])
            if isinstance(r[2], int) and r[2] <= 256:
                if v.op == 'int': return B(bytes([v.args[0]]) * r[2]) if 0 <= v.args[0] < 256 and self.types[self.types[destty].get('to', destty)]['s'] == 'u8' else arr(*[v] * r[2])
                return arr(*[v] * r[2])
            return mk('rep', v, I(r[2]) if isinstance(r[2], int) else mk('const', str(r[2])))
        if k == 'agg':
            fs = [self.operand(st, fr, o) for o in r[4]]
            kind = r[1]; t = self.types[r[2]]
            if kind == 'array': return norm_arr(fs, self.types[t['to']]['s'] == 'u8')
            if kind == 'tuple': return tup(*fs)
            if kind == 'adt':
                if r[5] is not None:            # union
                    return fs[0]
                if t['path'] in TRANSPARENT or t['path'] in PTRLIKE: return fs[0]
                if t['adt'] == 'enum': return agg(t['path'], t['variants'][r[3]]['name'], *fs)
                return agg(t['path'], '', *fs)
            if kind == 'closure': return agg('closure', str(t['inst']), *fs)
            if kind in ('coroutine', 'coclosure'): return agg('coroutine', str(t.get('inst', -1)), *fs)
            if kind == 'rawptr':
                # (data pointer, metadata)
                return self.slice_from_raw(fs[0], fs[1])
        if k == 'tls': return mk('const', r[1])
        raise AnalysisError('rvalue %r' % (r,))
    def slice_from_raw(self, p, n, elemty=None):
        c, pr = self.loc(p)
        if pr:
            e = pr[-1]
            if e[0] == 'first': return ref(c, norm_proj(pr[:-1] + (('ss', ZERO, n),)))
            if e[0] == 'view': return ref(c, norm_proj(pr[:-1] + (('viewn', e[1], n),)))
            if e[0] == 'bytes': return p
        return mk('rawslice', p, n)
    def disc(self, v, tid):
        t = self.types[tid]
        if t['k'] == 'adt' and t['adt'] == 'enum':
            if v.op == 'agg':
                for x in t['variants']:
                    if x['name'] == v.args[1]: return I(x['discr'])
            return mk('disc', v, tuple((x['discr'], x['name']) for x in t['variants']))
        return mk('disc', v, ())
    def cast(self, st, kind, v, to, frm):
        T2 = self.types[to]; F = self.types[frm]
        if kind.startswith('IntToInt'):
            if v.op == 'disc' or v.op == 'agg':
                pass
            if v.op == 'int':
                x = v.args[0]
                if T2['k'] in ('uint', 'int', 'char'):
                    b = T2.get('size', 4) * 8
                    x &= (1 << b) - 1
                    if T2['k'] == 'int' and x >> (b - 1): x -= 1 << b
                return I(x)
            if F['k'] == 'bool': return v
            if F['k'] in ('uint', 'int', 'char') and T2['k'] in ('uint', 'int', 'char'):
                fs = F.get('size', 4); ts = T2.get('size', 4)
                if F['k'] == 'int' and T2['k'] == 'uint':
                    return mk('reint', T2['s'], v) if not nonneg(v) else v
                if F['k'] == 'uint' and T2['k'] == 'int' and ts <= fs:
                    return mk('reint', T2['s'], v)
                if ts >= fs: return v
                lo, hi = st.bounds(v)
                if T2['k'] == 'uint' and (lo is not None and lo >= 0 or st.decide(pos(add(v, ONE)))):
                    if hi is not None and hi < (1 << (8 * ts)) or st.decide(pos(subt(I(1 << (8 * ts)), v))): return v
                # truncation of a value assembled from bytes
                if v.op == 'rd' and T2['k'] == 'uint': return rd(v.args[0], v.args[1], T2['s'])
                return mk('trunc', ts * 8, v)
            return mk('castint', T2['s'], v)
        if 'PtrToPtr' in kind or 'Transmute' in kind or kind.startswith('PointerCoercion') or 'Subtype' in kind or 'FnPtrToPtr' in kind:
            if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind: return v
            if 'Unsize' in kind: return v
            if 'PtrToPtr' in kind: return self.ptrcast(st, v, T2, F)
            if 'Transmute' in kind:
                if T2['k'] in ('ref', 'ptr'): return self.ptrcast(st, v, T2, F) if F['k'] in ('ref', 'ptr') else v
                if F['k'] in ('ref', 'ptr'): return v
                a, b = self.desc(frm), self.desc(to)
                if a == b or (T2['k'] == 'adt' and self.transparent(to)) or (F['k'] == 'adt' and self.transparent(frm)): return v
                return mk('transmute', T2['s'], v)
            return v
        if 'PointerExposeProvenance' in kind or 'PointerWithExposedProvenance' in kind:
            return mk('addr', v) if 'PointerExpose' in kind else v
        if 'IntToFloat' in kind or 'FloatToInt' in kind or 'FloatToFloat' in kind:
            return mk('castf', T2['s'], v)
        return mk('cast', kind, T2['s'], v)
    def ptrcast(self, st, v, T2, F):
        """*const A as *const B"""
        if T2['k'] not in ('ref', 'ptr') or F['k'] not in ('ref', 'ptr'): return v
        a, b = F['to'], T2['to']
        if a == b: return v
        A, Bt = self.types[a], self.types[b]
        da, db = self.desc(a), self.desc(b)
        if da == db: return v
        if self.transparent(a) or self.transparent(b):
            return v
        if A['k'] == 'array' and Bt['k'] == 'slice': return v
        if v.op == 'ref' and A['k'] == 'array' and self.desc(A['to']) == db: return self.subref(v, ('first',))
        if v.op == 'ref' or v.op in ('fld', 'deref', 'sym', 'idx', 'as'):
            c, p = self.loc(v)
            if p and p[-1][0] == 'first':      # pointer to the first element of a region
                if A['s'] == 'u8': return ref(c, norm_proj(p[:-1] + (('view', db),)))
                if Bt['s'] == 'u8': return ref(c, norm_proj(p[:-1] + (('bytes', ('slice', da)),)))
            if A['s'] == 'u8': return ref(c, norm_proj(p + (('view', db),)))
            if Bt['s'] == 'u8': return ref(c, norm_proj(p + (('bytes', da),)))
            if A['k'] == 'slice' and Bt['k'] != 'slice': return v
        return v
    def binop(self, st, op, a, b, tid):
        t = self.types[tid]; k = t['k']
        if op in ('Eq', 'Ne'):
            if k == 'bool':
                r = TRUE if a is b else (b if a is TRUE else a if b is TRUE else not_(b) if a is FALSE else not_(a) if b is FALSE else mk('eqv', *sorted((a, b))))
            elif k in ('uint', 'int', 'char'): r = eqz(subt(a, b))
            else: r = eqv(a, b)
            return r if op == 'Eq' else not_(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if k in ('uint', 'int', 'char', 'bool'):
                if op == 'Gt': return pos(subt(a, b))
                if op == 'Lt': return pos(subt(b, a))
                if op == 'Ge': return not_(pos(subt(b, a)))
                return not_(pos(subt(a, b)))
            return mk('bool', 'cmp' + op, a, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if k == 'bool' and base in ('BitAnd', 'BitOr', 'BitXor'):
            if base == 'BitAnd': return and_(a, b)
            if base == 'BitOr': return or_(a, b)
            return not_(mk('eqv', *sorted((a, b)))) if not (isint(a) or isint(b)) else (not_(a) if b is TRUE else a if b is FALSE else not_(b) if a is TRUE else b)
        if k not in ('uint', 'int'):
            if base == 'Offset': return self.ptroffset(a, b)
            return mk('bin', op, a, b)
        bits = t['size'] * 8; signed = k == 'int'
        v = self.arith(st, base, a, b, signed, bits, t['s'])
        if base in ('Add', 'Sub') and v.op != 'int':
            lo, hi = st.bounds(v)
            if lo is not None and lo == hi: v = I(lo)
        if op.endswith('WithOverflow'):
            ov = FALSE
            lo, hi = st.bounds(v)
            mn, mx = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
            if lo is not None and hi is not None and lo >= mn and hi <= mx: ov = FALSE
            elif isint(v): ov = TRUE if not (mn <= v.args[0] <= mx) else FALSE
            else: ov = mk('bool', 'ovf', base, a, b, bits)
            return tup(v, ov)
        if isint(v) and base in ('Add', 'Sub', 'Mul', 'Shl'):
            x = v.args[0] & ((1 << bits) - 1)
            if signed and x >> (bits - 1): x -= 1 << bits
            return I(x)
        return v
    def ptroffset(self, a, b):
        if a.op == 'ref' and a.args[1] and a.args[1][-1][0] == 'first':
            c, p = a.args
            return ref(c, norm_proj(p[:-1] + (('from', b), ('first',))))
        return mk('ptroff', a, b)
    def arith(self, st, base, a, b, signed, bits, tyname):
        if base == 'Add': return add(a, b)
        if base == 'Sub': return subt(a, b)
        if base == 'Mul':
            x, y = (a, b) if isint(b) else (b, a)
            if isint(y) and x.op == 'div' and x.args[1] is y and y.args[0] > 0 and nonneg(x.args[0]): return aligned_down(x.args[0], y.args[0])
            return mul(a, b)
        if base in ('Div', 'Rem') and isint(b) and b.args[0]:
            if isint(a):
                q = abs(a.args[0]) // abs(b.args[0]); q = -q if (a.args[0] < 0) != (b.args[0] < 0) else q
                return I(q if base == 'Div' else a.args[0] - q * b.args[0])
            if b is ONE: return a if base == 'Div' else ZERO
            n = b.args[0]
            if n > 0 and not signed:
                c, p = lin_parts(a)
                if all(k % n == 0 for _, k in p) and c >= 0:
                    return mklin(c // n, [(x, k // n) for x, k in p]) if base == 'Div' else I(c % n)
        if base == 'Div': return mk('div', a, b)
        if base == 'Rem': return mk('rem', a, b)
        if isint(a) and isint(b):
            x, y = a.args[0], b.args[0]; m = (1 << bits) - 1
            if base == 'BitAnd': return I((x & y))
            if base == 'BitOr': return I((x | y))
            if base == 'BitXor': return I((x ^ y))
            if base == 'Shl': return I((x << (y % bits)) & m)
            if base == 'Shr': return I((x & m) >> (y % bits) if not signed else x >> (y % bits))
        if base == 'Shl' and isint(b): return mul(a, I(1 << b.args[0])) if False else mk('shl', a, b)
        if base == 'Shr' and isint(b) and not signed: return mk('div', a, I(1 << b.args[0]))
        if base == 'BitAnd' and not signed:
            x, y = (a, b) if isint(b) else (b, a)
            if isint(y):
                n = y.args[0]; m = (1 << bits) - 1
                if n & (n + 1) == 0:
                    return mk('rem', x, I(n + 1))
                inv = (~n) & m
                if inv & (inv + 1) == 0:      # x & !(2^k-1)
                    return aligned_down(x, inv + 1)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            if b.id < a.id: a, b = b, a
        if base == 'BitOr' and not signed and ZERO in (a, b): return b if a is ZERO else a
        r = mk(base.lower(), a, b)
        if r not in HINT: HINT[r] = (signed, bits)
        return r
    def unop(self, st, op, a, tid):
        t = self.types[tid]
        if op == 'Not':
            if t['k'] == 'bool': return not_(a)
            if isint(a):
                m = (1 << t['size'] * 8) - 1
                return I(~a.args[0] if t['k'] == 'int' else (~a.args[0]) & m)
            return mk('bnot', a)
        if op == 'Neg': return mul(I(-1), a)
        if op == 'PtrMetadata': return ln(self.loadref(st, a))
        return mk('un', op, a)

    # ------------------------------------------------------------ interpretation
    def run(self, k, args, st, depth):
        """interpret instance k; list of Out"""
        fn = self.fn(k)
        if depth > 90: raise AnalysisError('call depth exceeded in ' + self.insts[k]['full'])
        self.analysed.add(self.insts[k]['full'])
        for i, a in enumerate(args):
            st.store[('l', depth, i + 1)] = a
            if i + 1 < len(fn.locals): self.hint(a, fn.locals[i + 1]['t'])
        self.stack.append((k, None))
        try:
            outs, _, _ = self.region(k, fn, depth, None, 0, [st])
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            s = o.st
            dead = [c for c in s.store if c[0] == 'l' and c[1] >= depth]
            for c in dead: del s.store[c]
            res.append(o)
        return merge_outs(res)

    def region(self, k, fn, depth, head, start, states):
        """explore blocks from `start`; head != None: restrict to loop body fn.loop[head].
        returns (outs, exits{bb:[states]}, backs[states])"""
        allowed = fn.loop[head] if head is not None else None
        pend = {start: list(states)}
        outs = []; exits = []; backs = []; conc = {}
        first = True
        while pend:
            b = min(pend, key=lambda x: fn.num[x])
            sts = pend.pop(b)
            # liveness pruning then merge
            live = fn.livein[b]; addr = fn.addr
            for s in sts:
                dead = [c for c in s.store if c[0] == 'l' and c[1] == depth and c[2] not in live and c[2] not in addr]
                for c in dead: del s.store[c]
            sts = merge_states(sts)
            if len(sts) > self.MAXOUT: raise AnalysisError('too many states at %s bb%d' % (self.insts[k]['full'], b))
            for s in sts:
                if b in fn.loop and not (first and b == head):
                    o, ex = self.do_loop(k, fn, depth, b, s)
                    outs += o
                    nxt = ex
                else:
                    self.swint = False
                    o, nxt = self.block(k, fn, depth, b, s)
                    if head is not None and any(x not in allowed for x in fn.succ[b]):
                        conc.setdefault(b, set()).update((self.swint, nb in allowed) for nb, _ in nxt)
                    outs += o
                for (nb, ns) in nxt:
                    if head is not None and nb == head: backs.append(ns)
                    elif allowed is not None and nb not in allowed: exits.append((nb, ns))
                    else: pend.setdefault(nb, []).append(ns)
            first = False
        # an exit taken (or not) by a concrete value, the same way for every state: perhaps a counter to unroll
        if any(len(x) == 1 and next(iter(x))[0] for x in conc.values()): self.concexit = True
        return outs, exits, backs

    def block(self, k, fn, depth, b, st):
        """-> (outs, [(next bb, state)])"""
        self.steps += 1
        if self.steps > self.maxsteps: raise AnalysisError('step budget exhausted')
        if time.time() - START > BUDGET: raise AnalysisError('time budget exhausted')
        fr = (fn, depth)
        bl = fn.blocks[b]
        for s in bl['s']:
            o = s[0]
            if o == '=':
                v = self.rvalue(st, fr, s[2], s[1][2])
                if v.op not in ('int', 'agg', 'ref'): self.hint(v, s[1][2])
                c, p, t = self.place(st, fr, s[1])
                self.storeat(st, c, p, v)
                if self.trace_store: self.trace_store(self, st, k, b, c, p, v, s)
            elif o == 'dead':
                st.store.pop(('l', depth, s[1]), None)
            elif o == 'sd':
                c, p, t = self.place(st, fr, s[1])
                self.storeat(st, c, p, agg(self.adt_tag(t), self.variant(t, s[2])))
            elif o == 'cno':
                src, dst, cnt = [self.operand(st, fr, x) for x in s[1:4]]
                self.storeref(st, dst, self.loadref(st, src))
        return self.terminator(k, fn, depth, b, bl['t'], st)
    trace_store = None
    obligation = None          # callback(engine, state, kind, info)

    def fork(self, st, cond):
        """-> list of (bool, state)"""
        r = st.decide(cond)
        if r is not None:
            st.assume(cond, r)
            return [(r, st)]
        a, b = st, st.copy()
        out = []
        if a.assume(cond, True): out.append((True, a))
        if b.assume(cond, False): out.append((False, b))
        return out

    def terminator(self, k, fn, depth, b, t, st):
        fr = (fn, depth)
        kind = t[0]
        if kind == 'goto': return [], [(t[1], st)]
        if kind == 'ret':
            v = self.getcell(st, ('l', depth, 0))
            return [Out('ret', v, st)], []
        if kind == 'unreach': return [], []
        if kind in ('resume',): return [], []
        if kind == 'drop':
            if self.offchain:
                c, p, ty = self.place(st, fr, t[1])
                if not (c[0] == 'l' and c not in st.store):
                    self.prims.on_drop(self, st, self.load(st, c, p), t[3])
            return [], [(t[2], st)]
        if kind == 'assert':
            c = self.operand(st, fr, t[1])
            cond = c if t[2] else not_(c)
            ak = t[3][0]
            outs = []; nxt = []
            if ak == 'overflow':
                # dev-profile check only: never a guarantee, never an alternative the rules may rely on
                if self.obligation: self.obligation(self, st, 'overflow', (k, b, c, t[3]))
                return [], [(t[4], st)]
            if ak == 'other':
                return [], [(t[4], st)]
            if self.obligation: self.obligation(self, st, ak, (k, b, cond, t[3]))
            if ak == 'bounds' and t[3][2][0] != 'k' and is_bool(self.operand(st, fr, t[3][2])):
                # a two-entry table selected by a condition: one path per entry
                x, alts = self.operand(st, fr, t[3][2]), []
                for r, s in self.fork(st, x):
                    cl, p, ty = self.place(s, fr, t[3][2][1]); self.storeat(s, cl, p, ONE if r else ZERO); alts.append((s, r))
                for s, r in alts:
                    n = self.operand(s, fr, t[3][1])
                    for r2, s2 in self.fork(s, pos(subt(n, ONE if r else ZERO))):
                        if r2: nxt.append((t[4], s2))
                        else: outs.append(Out('panic', mk('panic', ak), s2))
                return outs, nxt
            for r, s in self.fork(st, cond):
                if r: nxt.append((t[4], s))
                else: outs.append(Out('panic', mk('panic', ak), s))
            return outs, nxt
        if kind == 'sw':
            return self.switch(st, fr, t)
        if kind == 'call':
            self.stack[-1] = (k, b)
            outs = self.call(k, fn, depth, b, t, st)
            res = []; nxt = []
            for o in outs:
                if o.kind == 'ret':
                    if t[5] is None: continue
                    c, p, ty = self.place(o.st, fr, t[4])
                    if o.val.op not in ('int', 'agg', 'ref'): self.hint(o.val, ty)
                    self.storeat(o.st, c, p, o.val)
                    nxt.append((t[5], o.st))
                else: res.append(o)
            return res, nxt
        if kind == 'yield':
            return [], [(t[2], st)]
        raise AnalysisError('terminator ' + kind)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        ty = self.types[t[4]]
        outs = []
        if v.op == 'int':
            self.swint = True
            for x, bb in t[2]:
                if self.wrapval(x, ty) == v.args[0]: return [], [(bb, st)]
            return [], [(t[3], st)] if t[3] is not None else []
        if ty['k'] == 'bool' or is_bool(v):
            tgt = {}
            for x, bb in t[2]: tgt[bool(x)] = bb
            for r in (True, False): tgt.setdefault(r, t[3])
            for r, s in self.fork(st, v):
                outs.append((tgt[r], s))
            return [], outs
        if v.op == 'disc' and v.args[1]:
            names = dict(v.args[1]); taken = []
            sw = {x: bb for x, bb in t[2]}
            base = v.args[0]
            for d, nm in v.args[1]:
                bb = sw.get(d, sw.get(d & ((1 << 128) - 1), t[3]))
                if bb is None: continue
                c = isvar(base, nm)
                r = st.decide(c)
                if r is False: continue
                s = st.copy()
                if s.assume(c, True): outs.append((bb, s))
            return [], outs
        cur = st
        for x, bb in t[2]:
            c = eqz(subt(v, I(self.wrapval(x, ty))))
            fs = dict((r, s) for r, s in self.fork(cur, c))
            if True in fs: outs.append((bb, fs[True]))
            cur = fs.get(False)
            if cur is None: break
        if cur is not None and t[3] is not None: outs.append((t[3], cur))
        return [], outs
    @staticmethod
    def wrapval(x, ty):
        if ty['k'] == 'int':
            b = ty['size'] * 8
            x &= (1 << b) - 1
            if x >> (b - 1): x -= 1 << b
        return x

    # ------------------------------------------------------------ calls
    def call(self, k, fn, depth, b, t, st):
        fr = (fn, depth)
        ft = self.types[t[1]]
        args = [self.operand(st, fr, a) for a in t[3]]
        destty = t[4][2]
        if ft['k'] == 'fndef' and 'inst' in ft:
            return self.call_inst(ft['inst'], args, st, depth, destty)
        f = self.operand(st, fr, t[2])
        if f.op == 'fn' and f.args[0] >= 0: return self.call_inst(f.args[0], args, st, depth, destty)
        if f.op == 'agg' and f.args[0] == 'closure': return self.call_value(f, args, st, depth, destty)
        name = canon(ft.get('path', 'indirect'))
        return self.opaque_call(name, args, st, depth, destty, None)

    def site(self):
        return ('site',) + tuple((self.insts[x[0]]['path'], x[1]) for x in self.stack)

    def call_inst(self, i, args, st, depth, destty):
        r = self.call_inst_(i, args, st, depth, destty)
        if self.track_err:
            for o in r:
                if o.kind == 'ret' and o.val.op == 'agg' and o.val.args[0] == RES and o.val.args[1] == 'Err':
                    if not (o.st.events and o.st.events[-1].args[0] == 'errret'): o.st.ev('errret', self.insts[i]['path'])
        return r
    def call_inst_(self, i, args, st, depth, destty):
        inf = self.insts[i]
        name = self.names[i]
        full = inf['full']
        s = self.summaries.get(canon(inf['path'])) or self.summaries.get(name) or self.summaries.get(full)
        if s is not None:
            r = s(self, st, args, i, depth, destty)
            if r is not None: return r
        p = self.prims.lookup(self, i, name, args)
        if p is not None:
            r = p(self, st, args, i, depth, destty)
            if r is not None: return r
        if self.offchain and self.coro(i) and destty is not None and self.types[destty]['k'] == 'adt' and self.types[destty]['path'].endswith('::Poll'):
            import prims_off
            return prims_off.poll(self, st, args, i, depth, destty)
        if inf['body'] and str(i) in self.fns and 'error' not in self.fns[str(i)] and not (self.nofollow and self.nofollow(inf)):
            fnraw = self.fns[str(i)]
            if sum(1 for x in self.stack if x[0] == i) >= 2:
                return self.opaque_call(name, args, st, depth, destty, i)
            args = self.adapt(i, fnraw, args, st)
            return roundup(self.run(i, args, st, depth + 1))
        return self.opaque_call(name, args, st, depth, destty, i)

    def coro(self, i):
        """is instance i the body of a coroutine (async fn / async block)"""
        raw = self.fns.get(str(i))
        return bool(raw) and raw.get('argc', 0) >= 1 and self.types[raw['locals'][1]['t']]['k'] == 'coroutine'
    def adapt(self, i, raw, args, st):
        argc = raw['argc']
        if len(args) != argc or self.is_closure(i):
            if len(args) == 2 and self.is_closure(i):
                a = args[1]
                n = argc - 1
                if len(args) != argc or (a.op == 'agg' and a.args[0] == 'tuple' and n == 1 and self.types[raw['locals'][2]['t']]['k'] != 'tuple'):
                    args = [args[0]] + [fld(a, str(j), j) for j in range(n)]
                elif a.op == 'agg' and a.args[0] == 'tuple' and n == 1 and len(a.args) == 3:
                    args = [args[0], a.args[2]]
            if self.is_closure(i):
                want_ref = self.types[raw['locals'][1]['t']]['k'] == 'ref'
                s = args[0]
                isref = s.op == 'ref'
                if want_ref and not isref and s.op == 'agg': args = [self.newcell(st, s)] + list(args[1:])
                elif not want_ref and isref: args = [self.loadref(st, s)] + list(args[1:])
        if len(args) != argc and argc == 1 + len(args) - 1: pass
        return list(args)
    def is_closure(self, i):
        return '{closure' in self.insts[i]['path'].split('::')[-1]

    def call_value(self, f, args, st, depth, destty=None):
        """call a closure / fn item value with a list of arguments"""
        g = f
        if g.op == 'ref': g = self.loadref(st, g)
        while g.op == 'ref': g = self.loadref(st, g)
        if g.op == 'agg' and g.args[0] == 'closure':
            i = int(g.args[1])
            raw = self.fns.get(str(i))
            if raw is None: return self.opaque_call('closure', args, st, depth, destty, None)
            want_ref = self.types[raw['locals'][1]['t']]['k'] == 'ref'
            self_arg = g
            if want_ref: self_arg = f if f.op == 'ref' and self.loadref(st, f) is g else self.newcell(st, g)
            return self.run(i, [self_arg] + list(args), st, depth + 1)
        if g.op == 'fn' and g.args[0] >= 0:
            return self.call_inst(g.args[0], list(args), st, depth, destty)
        if g.op == 'fn' and g.args[1]:
            # tuple-struct / variant constructors used as functions
            pth = g.args[1]
            last = pth.split('::')[-1]
            if last in ('Some', 'Ok', 'Err'): return [Out('ret', agg(OPT if last == 'Some' else RES, last, *args), st)]
            return self.opaque_call(canon(pth), args, st, depth, destty, None)
        return self.opaque_call('indirect', [f] + list(args), st, depth, destty, None)

    def val(self, st, v, depth=0):
        """deep snapshot of an argument: references replaced by what they refer to"""
        if depth > 6: return v
        if v.op == 'ref': return mk('&', self.val(st, self.load(st, v.args[0], v.args[1]), depth + 1))
        if v.op == 'guard': return mk('&', self.val(st, self.loadref(st, v.args[0]), depth + 1))
        if v.op == '&': return v
        if v.op == 'fld' and v.args[1] in ('key', 'owner') and is_acct(v.args[0]): return mk('&', self.load(st, ('@', v), ()))
        if v.op in ('fld', 'as', 'idx', 'deref') and self.isptrterm(v): 
            c = st.store.get(('@', v))
            if c is not None: return mk('&', self.val(st, c, depth + 1))
        if v.op in ('agg', 'arr', 'cat', 'upd', 'some') and any(isinstance(x, T) for x in v.args):
            n = tuple(self.val(st, x, depth + 1) if isinstance(x, T) else x for x in v.args)
            if n != v.args: return rebuild(v.op, n)
        return v
    def isptrterm(self, v): return True
    def isref_sig(self, i, j):
        if i is None: return False
        sg = self.insts[i].get('sig')
        if not sg or j >= len(sg): return False
        x = sg[j]
        if isinstance(x, str): return x.startswith('&')
        return self.types[x]['k'] in ('ref', 'ptr')
    def argval(self, st, a, i, j):
        v = self.val(st, a)
        if v.op not in ('&', 'ref', 'guard') and self.isref_sig(i, j): v = mk('&', self.val(st, self.loadref(st, a)))
        return v
    def byref(self, st, v, ty):
        """deep value behind v, a pointer to a value of type ty"""
        x = self.loadref(st, v)
        while ty is not None and ty['k'] == 'ref':
            x = self.loadref(st, x); ty = self.types[ty['to']]
        x = self.val(st, x)
        while x.op == '&': x = x.args[0]
        return x

    def opaque_call(self, name, args, st, depth, destty, i):
        self.opaque[name] = self.opaque.get(name, 0) + 1
        inf = self.insts[i] if i is not None else None
        vals = [self.argval(st, a, i, j) for j, a in enumerate(args)]
        nm = name
        if inf is not None and (inf.get('trait_item') or inf.get('ta')):
            nm = name + '<' + ','.join(self.types[x]['s'] if x is not None else '_' for x in inf.get('ta') or []) + '>'
        impure = self.impure(name)
        extra = (self.site(),) if impure else ()
        c = mk('call', nm, *(vals + list(extra)))
        dt = self.types[destty] if destty is not None else None
        if self.eventful(name):
            st.ev('call', nm, *vals)
        # havoc what is reachable through &mut arguments
        if inf is not None:
            sig = self.argtypes(i)
        for j, a in enumerate(args):
            if a.op == 'ref' and self.mutarg(i, j):
                old = self.loadref(st, a)
                self.storeref(st, a, mk('mutby', c, j))
        if dt is not None and dt['k'] == 'never': return [Out('panic', mk('panic', nm), st)]
        if dt is not None and dt['k'] == 'tuple' and not dt['elems']: return [Out('ret', UNIT, st)]
        if dt is not None and dt['k'] == 'adt' and dt['path'] == RES:
            return self.result_call(c, st, dt)
        if dt is not None: self.hint(c, destty)
        return [Out('ret', c, st)]
    def argtypes(self, i): return None
    def mutarg(self, i, j):
        """is argument j of opaque instance i a &mut / *mut ?  (from the printed signature types)"""
        if i is None: return True
        sg = self.insts[i].get('sig')
        if sg is None: return False
        if j >= len(sg): return False
        if isinstance(sg[j], str): return sg[j] == '&mut'
        return self.types[sg[j]]['k'] in ('ref', 'ptr') and self.types[sg[j]].get('mut', False)
    def result_call(self, c, st, dt):
        f = isvar(c, 'Ok')
        outs = []
        for r, s in self.fork(st, f):
            if r:
                okt = self.types[dt['args'][0]]
                v = UNIT if okt['k'] == 'tuple' and not okt['elems'] else self.hint(mk('ok', c), dt['args'][0])
                outs.append(Out('ret', ok(v), s))
            else:
                s.ev('fail', c)
                outs.append(Out('ret', err(mk('errof', c)), s))
        return outs

    # ------------------------------------------------------------ loops
    def do_loop(self, k, fn, depth, head, st):
        """-> (outs, [(exit bb, state)])"""
        dead = [c for c in st.store if c[0] == 'l' and c[1] == depth and c[2] not in fn.livein[head] and c[2] not in fn.addr]
        for c in dead: del st.store[c]
        return self.loop(st, (self.insts[k]['path'], head),
                         lambda sts: self.region(k, fn, depth, head, head, sts),
                         lambda sts: self.merge_at(fn, depth, head, sts))
    def pyloop(self, st, name, cells, step):
        """loop written in the analyser (iterator adaptors): step(state, get, set) -> (outs, exits, backs);
        get/set access the loop-carried cells; exits are (value, state)"""
        st.n += 1
        keys = {x: ('py', st.n, x) for x in cells}
        for x, v in cells.items(): st.store[keys[x]] = v
        def run(sts):
            O, X, Bk = [], [], []
            for s in sts:
                o, x, b = step(s, lambda q, key: q.store[keys[key]], lambda q, key, v: q.store.__setitem__(keys[key], v))
                O += o; X += x; Bk += b
            return O, X, Bk
        outs, exits = self.loop(st, (name,) + self.site()[-1:], run, merge_states)
        res = list(outs)
        for v, s in exits:
            w = s.store.pop(('py', 'ret'), v)
            for c in keys.values(): s.store.pop(c, None)
            res.append(Out('ret', v, s))
        return res

    def loop(self, st, name, run, merge):
        outs_all = []
        cur = [st]; exits_all = []
        # 1. unroll loops driven by constant-length iterators / constant conditions
        for it in range(300):
            saved = self.constiter, self.concexit; self.constiter = self.concexit = False
            snap = [s.copy() for s in cur]
            outs, exits, backs = run(cur)
            ci, ce = self.constiter, self.concexit; self.constiter, self.concexit = saved
            backs = merge(backs)
            if not backs:
                return outs_all + outs, exits_all + exits
            det = ci or not exits and not self.offchain
            if det and len(backs) <= 8 and (it < 40 or ci):
                outs_all += outs; exits_all += exits; cur = backs
                continue
            cur = snap
            if ce and not (self.offchain and (outs or exits)):
                r = self.counted([x.copy() for x in snap], run, merge)
                if r is not None: return outs_all + r[0], exits_all + r[1]
            break
        else:
            raise AnalysisError('unrolling limit in ' + str(name))
        # 2. fixpoint with widening
        res_o = outs_all; res_e = exits_all
        saved = self.constiter, self.concexit
        for s0 in cur:
            o, e = self.fix_loop(name, s0, run, merge)
            res_o = res_o + o; res_e = res_e + e
        self.constiter, self.concexit = saved
        return res_o, res_e

    def counted(self, cur, run, merge):
        """a counter that stays concrete through every iteration: complete unrolling or nothing"""
        saved = self.concexit, self.constiter
        O, X = [], []; cur0 = []
        try:
            for it in range(12 if self.offchain else 300):
                self.concexit = False
                o, x, backs = run(cur); O += o; X += x; backs = merge(backs)
                if not backs: return O, X
                if not self.concexit or len(backs) > 8: return None
                # nothing concrete moved: no counter drives this loop
                if it > 2 and self.conc_leaves(backs) == self.conc_leaves(cur0): return None
                cur = backs
                cur0 = [b.copy() for b in backs]
        finally: self.concexit, self.constiter = saved
        return None

    @staticmethod
    def conc_leaves(sts):
        def leaves(v):
            if v.op == 'int': return (v,)
            if v.op == 'agg': return tuple(x for a in v.args if isinstance(a, T) for x in leaves(a))
            return ()
        return [{c: l for c, v in b.store.items() for l in [leaves(v)] if l} for b in sts]
    def merge_at(self, fn, depth, b, sts):
        live = fn.livein[b]; addr = fn.addr
        for s in sts:
            dead = [c for c in s.store if c[0] == 'l' and c[1] == depth and c[2] not in live and c[2] not in addr]
            for c in dead: del s.store[c]
        return merge_states(sts)

    GLOBAL = ('@', 'data', 'lam', 'k', 'arg', 'g')
    def fix_loop(self, name, s0, run, merge):
        s0.n += 1
        lid = name + (s0.n,)
        base = s0.events; blocked = BLOCKED; H = None
        for rnd in range(80):
            if H is None: H = s0.copy(); H.events = ()
            hs = H.copy()
            outs, exits, backs = run([hs])
            backs = merge(backs)
            H2 = H.copy()
            changed = False
            keys = set(H.store)
            for bk in backs:
                for c in bk.store:
                    if c not in keys and c[0] in self.GLOBAL: keys.add(c)
            for c in sorted(keys, key=str):
                a = H.store.get(c)
                if a is None: a = self.default(c)
                new = a
                for bk in backs:
                    v = bk.store.get(c)
                    if v is None:
                        if c[0] in self.GLOBAL: v = self.default(c)
                        else: new = None; break
                    new = lgg(new, v, lid, (c,))
                if new is None:
                    if c in H2.store: del H2.store[c]; changed = True
                elif new is not a:
                    H2.store[c] = new; changed = True
            ph = []
            for c in sorted(H2.store, key=str): collect_phis(H2.store[c], s0.store[c] if c in s0.store else self.default(c), lid, ph)
            if not changed:
                bad = self.unsound_phis(H, [p for p, i in ph if p in PHILO], backs, lid)
                badh = self.unsound_phis(H, [p for p, i in ph if p in PHIHI], backs, lid, True)
                if not bad and not badh: break
                for p in [p for p, i in ph]: PHILO.pop(p, None); PHIHI.pop(p, None)
                newgen()
                blocked |= bad; BLOCKHI.update(badh); H = None
                continue
            for p, i in ph:
                lo, hi = s0.bounds(i) if i is not None and (i.op in ('int', 'lin') or trange(i) != (None, None)) else (None, None)
                if lo is None or p in blocked: PHILO.pop(p, None); blocked.add(p)
                else: PHILO[p] = min(lo, PHILO.get(p, lo))
                if hi is None or p in BLOCKHI or hi > HI: PHIHI.pop(p, None); BLOCKHI.add(p)
                else: PHIHI[p] = HI
            if ph: newgen()
            H = H2
        else:
            raise AnalysisError('loop does not stabilise: ' + str(name))
        phis = []
        for c in sorted(H.store, key=str):
            collect_phis(H.store[c], s0.store[c] if c in s0.store else self.default(c), lid, phis)
        binfo = []
        for bk in backs:
            m = {}
            for c in H.store: match_phis(H.store[c], bk.store.get(c) if c in bk.store else (self.default(c) if c[0] in self.GLOBAL else None), lid, m)
            facts = tuple(sorted(((f, v) for f, v in bk.facts.items() if s0.facts.get(f) != v), key=lambda x: x[0].id))
            binfo.append(mk('back', facts, tuple(sorted(m.items(), key=lambda x: x[0].id)), bk.events))
        co = coalesce(phis, binfo)
        if co:
            phis = [(p, substm(i, co)) for p, i in phis if p not in co]
            binfo = [mk('back', tuple((substm(f, co), v) for f, v in b.args[0]), tuple((substm(p, co), substm(u, co)) for p, u in b.args[1] if p not in co), substm(b.args[2], co)) for b in binfo]
            for s in [o.st for o in outs] + [s for b, s in exits]: subst_state(s, co)
            for o in outs:
                if o.val is not None: o.val = substm(o.val, co)
            exits = [(substm(b, co) if isinstance(b, T) else b, s) for b, s in exits]
        lev = mk('ev', 'loop', lid, tuple(phis), tuple(binfo))
        closed = close_loops(self, phis, binfo)
        res_o = []; res_e = []
        for o in outs:
            self.finish_exit(o.st, base, lev)
            m = closed(o.st)
            if o.val is not None and m: o.val = substm(o.val, m)
            res_o.append(o)
        for b, s in exits:
            self.finish_exit(s, base, lev)
            m = closed(s)
            if isinstance(b, T) and m: b = substm(b, m)
            res_e.append((b, s))
        if self.offchain and not exits and backs:      # the loop never ends: its effects are what matters
            s = H.copy(); s.events = ()
            self.finish_exit(s, base, lev)
            res_o.append(Out('div', None, s))
        return res_o, res_e

    def unsound_phis(self, H, phis, backs, lid, high=False):
        """phis assumed to stay >= their initial constant (<= the threshold) for which some back edge does not show it"""
        bad = set()
        for bk in backs:
            m = {}
            for c in H.store: match_phis(H.store[c], bk.store.get(c) if c in bk.store else (self.default(c) if c[0] in self.GLOBAL else None), lid, m)
            for p in phis:
                u = m.get(p)
                if u is p: continue
                if u is None: bad.add(p); continue
                lo, hi = bk.bounds(u)
                if high:
                    if (hi is None or hi > HI) and bk.decide(pos(subt(u, I(HI)))) is not False: bad.add(p)
                elif lo is None or lo < PHILO[p]: bad.add(p)
        return bad
    def finish_exit(self, s, base, lev):
        s.events = base + (lev,) + s.events

MOVED = mk('moved')
def haslock(v):
    if v.op == 'guard': return len(v.args) > 1
    return v.op in ('agg', 'upd') and any(isinstance(x, T) and haslock(x) for x in v.args)
BLOCKED = set()
BLOCKHI = set()
HI = 1 << 31
PTRLIKE = {'alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'core::pin::Pin', 'core::pin::unsafe_pin::Pin'}
VECLIKE = {'alloc::vec::Vec', 'alloc::string::String'}
TDESC = {}
ITER_STRUCTS = set()

def is_acct(t):
    """term standing for an AccountInfo value"""
    return t.op == 'idx' and (t.args[0].op == 'sym' and t.args[0].args[0] == 'accounts') or t.op == 'sym' and str(t.args[0]).startswith('acct:')

def roundup(outs):
    """if x % n == 0 then x else x + n - x % n: the next multiple of n"""
    if len(outs) != 2 or any(o.kind != 'ret' or o.val.op not in ('lin', 'int', 'sym', 'phi', 'rd', 'len', 'align') for o in outs): return outs
    a, b = outs
    if a.st.events != b.st.events: return outs
    for x, y in ((a, b), (b, a)):
        d = subt(y.val, x.val); c, p = lin_parts(d)
        if len(p) == 1 and p[0][1] == -1 and p[0][0].op == 'rem' and p[0][0].args[1] is I(c) and p[0][0].args[0] is x.val:
            r = p[0][0]
            if x.st.decide(eqz(r)) is True and y.st.decide(eqz(r)) is False:
                z = aligned_down(add(x.val, I(c - 1)), c)
                m = merge_outs([Out('ret', z, a.st), Out('ret', z, b.st)])
                return m
    return outs
def aligned_down(x, n):
    c, p = lin_parts(x)
    if all(k % n == 0 for _, k in p):
        return mklin(c - c % n, p)
    r = c % n
    return add(mk('align', mklin(r, p), n), I(c - r))

def parse_desc(s):
    s = s.strip()
    if s in SIZES: return s
    m = re.match(r'^\[(.*); (\d+)(?:_usize)?\]$', s)
    if m:
        d = parse_desc(m.group(1))
        return ('array', d, int(m.group(2)))
    if s in TDESC: return TDESC[s]
    return s

def norm_proj(p):
    """collapse (bytes t)(view t) pairs and nested sub-slices"""
    out = []
    for e in p:
        if out and e[0] == 'view' and out[-1][0] == 'bytes' and out[-1][1] == e[1]: out.pop(); continue
        if out and e[0] == 'bytes' and out[-1][0] == 'view' and out[-1][1] == e[1]:
            out.pop()
            sz = tysize(e[1])
            continue
        if out and e[0] == 'ss' and out[-1][0] == 'ss':
            _, s, _e = out.pop()
            out.append(('ss', add(s, e[1]), add(s, e[2]))); continue
        if out and e[0] == 'i' and out[-1][0] == 'ss':
            _, s, _e = out.pop()
            out.append(('i', add(s, e[1]))); continue
        out.append(e)
    return tuple(out)

DISJ = 4
def facts_meet(a, b):
    """a := facts common to a and b, plus their small disjunction"""
    fa, fb = a.facts, b.facts
    f = {x: v for x, v in fa.items() if fb.get(x) == v}
    for x, v in fa.items():
        if x not in f and b.decide(x) == v: f[x] = v
    for x, v in fb.items():
        if x not in f and a.decide(x) == v: f[x] = v
    da = [(x if v else not_(x)) for x, v in fa.items() if x not in f]
    db = [(x if v else not_(x)) for x, v in fb.items() if x not in f]
    if da and db and len(da) <= DISJ and len(db) <= DISJ:
        d = orsimp([and_(*da), and_(*db)])
        if d is not TRUE:
            v = True
            while d.op == 'not': d = d.args[0]; v = not v
            if d.op == 'and' and v:
                for x in d.args:
                    y, w = x, True
                    while y.op == 'not': y = y.args[0]; w = not w
                    f[y] = w
            else:
                f[d] = v
                if d.op == 'and':
                    for x in d.args: ANDPARTS.setdefault(x, {})[d] = 1
    iv = {}
    for key, (l, h) in a.ivl.items():
        o = b.ivl.get(key)
        if o is None: continue
        l2 = None if l is None or o[0] is None else min(l, o[0])
        h2 = None if h is None or o[1] is None else max(h, o[1])
        if l2 is not None or h2 is not None: iv[key] = (l2, h2)
    a.facts = f; a.ivl = iv; a.bc = {}; a.dc = {}

NOMERGE = [False]
def merge_states(sts):
    if len(sts) < 2 or NOMERGE[0]: return sts
    groups = {}; order = []
    for s in sts:
        key = (s.events, frozenset(s.store.items()))
        g = groups.get(key)
        if g is None: groups[key] = s; order.append(key)
        else: facts_meet(g, s); g.n = max(g.n, s.n)
    return [groups[k] for k in order]

def merge_outs(outs):
    if NOMERGE[0]: return outs
    groups = {}; order = []
    for o in outs:
        s = o.st
        key = (o.kind, o.val, s.events, frozenset(s.store.items()))
        g = groups.get(key)
        if g is None: groups[key] = o; order.append(key)
        else: facts_meet(g.st, s); g.st.n = max(g.st.n, s.n)
    return [groups[k] for k in order]

LGG_OPS = {'agg', 'it', 'arr', 'upd', 'guard'}
def lgg(a, b, lid, path):
    if a is b: return a
    if a.op == 'phi' and a.args[0] == lid and a.args[1] == path: return a
    if a.op == 'uninit' or b.op == 'uninit': return mk('uninit', ('merged',) + path[:1])
    if a.op == b.op and a.op in LGG_OPS and len(a.args) == len(b.args) and len(a.args) <= 24:
        head = {'agg': 2, 'it': 1, 'arr': 0, 'upd': 0, 'guard': 0}[a.op]
        if a.args[:head] == b.args[:head]:
            new = list(a.args[:head]); okk = True
            for j in range(head, len(a.args)):
                x, y = a.args[j], b.args[j]
                if x is y or x == y: new.append(x)
                elif isinstance(x, T) and isinstance(y, T): new.append(lgg(x, y, lid, path + (j,)))
                else: okk = False; break
            if okk: return mk(a.op, *new)
    ph = mk('phi', lid, path)
    h = HINT.get(a) or HINT.get(b)
    if h is None and (a.op in ('int', 'lin')):
        # integer phi: unsigned unless negative constants are involved
        if all(nonneg_or(x) for x in (a, b)): h = (False, 64)
    if h: HINT[ph] = h
    if is_bool(a) and is_bool(b) and a.op != 'int' or is_bool(b) and b.op != 'int': BOOLTERMS.add(ph)
    elif a.op == 'int' and b.op == 'int' and a.args[0] in (0, 1) and b.args[0] in (0, 1) and a in (TRUE, FALSE): PHI01.add(ph)
    return ph
PHI01 = set()
def nonneg_or(x):
    if x.op == 'int': return x.args[0] >= 0
    return True

def collect_phis(h, init, lid, out, seen=None):
    if not isinstance(h, T): return
    if h.op == 'phi' and h.args[0] == lid:
        if not any(x[0] is h for x in out): out.append((h, init))
        return
    if h.op in LGG_OPS and isinstance(init, T) and init.op == h.op and len(init.args) == len(h.args):
        for x, y in zip(h.args, init.args): collect_phis(x, y, lid, out)
def match_phis(h, v, lid, m):
    if not isinstance(h, T) or v is None: return
    if h.op == 'phi' and h.args[0] == lid: m[h] = v; return
    if h.op in LGG_OPS and isinstance(v, T) and v.op == h.op and len(v.args) == len(h.args):
        for x, y in zip(h.args, v.args): match_phis(x, y, lid, m)

def maxbv(t):
    m = 0
    for u in walk(t):
        if u.op == 'bv' and isinstance(u.args[0], int): m = max(m, u.args[0])
    return m
def binder(*ts):
    """canonical bound variable for a body (alpha-normal: depth numbered from the inside)"""
    K = mk('bv', 1 + max([maxbv(t) for t in ts] + [0]))
    HINT[K] = (False, 64)
    return K
def rngcoll(bound): return bound.args[0] if bound.op == 'len' else mk('range', bound)
def anyterm(coll, ph, cond):
    while coll.op == 'map': coll = coll.args[0]          # same positions
    if coll.op == 'filt':
        src, body, b, c = coll.args; sel = mk('sel', coll, ph)
        K = binder(cond, c); d = subst(cond, sel, K)
        if not occurs(ph, d): return mk('any', src, K, and_(subst(c, b, K), d))
    K = binder(cond)
    return mk('any', coll, K, subst(cond, ph, K))
def memberterm(v, x):
    import prims
    k = prims.fresh()
    return anyterm(v, k, eqv(idx(v, k), x))
TT.MEMBER[0] = memberterm
def mapterm(coll, ph, body):
    if body is idx(coll, ph): return coll
    if body.op == 'idx' and not occurs(ph, body.args[0]):      # a run of consecutive elements of a list
        c = subt(body.args[1], ph)
        if not occurs(ph, c): return sub(body.args[0], c, add(c, coll.args[0] if coll.op == 'range' else ln(coll)))
    K = binder(body)
    return mk('map', coll, subst(body, ph, K), K)

def loop_bound(ph, binfo):
    """o such that every continuing iteration knows ph < o"""
    cand = None
    for b in binfo:
        c2 = set()
        for f, v in b.args[0]:
            if f.op != 'pos': continue
            d = f.args[0] if v else add(mul(f.args[0], I(-1)), ONE)     # d > 0 holds
            c, p = lin_parts(d)
            if dict(p).get(ph) == -1:
                c2.add(add(d, ph))            # ph < d + ph
        cand = c2 if cand is None else cand & c2
    return sorted(cand or ())

def coalesce(phis, binfo):
    """loop-carried integers that advance by the same constant on every back edge from inits a constant apart are one variable"""
    if not binfo: return {}
    def steps(p):
        r = []
        for b in binfo:
            u = dict(b.args[1]).get(p)
            if u is None: return None
            d = subt(u, p)
            if not isint(d): return None
            r.append(d.args[0])
        return tuple(r) if any(r) else None
    seen = {}; m = {}
    for p, i in phis:
        if i is None or i.op in ('agg', 'arr', 'bytes', 'cat', 'w', 'ref', 'sub'): continue
        k = steps(p)
        if k is None: continue
        for q, j in seen.get(k, []):
            d = subt(i, j)
            if isint(d): m[p] = add(q, d); break
        else: seen.setdefault(k, []).append((p, i))
    return m
def subst_state(s, m):
    for c in list(s.store):
        v = s.store[c]
        if v.op != 'int':
            n = substm(v, m)
            if n is not v: s.store[c] = n
    fs = [(substm(f, m), v) for f, v in s.facts.items()]
    if any(a is not b for (a, _), b in zip(fs, s.facts)):
        s.facts = {}; s.ivl = {}; s.bc = {}; s.dc = {}
        for f, v in fs: s.assume(f, v)
    s.events = tuple(substm(e, m) if isinstance(e, T) else e for e in s.events)
def close_loops(eng, phis, binfo):
    """closed forms for a position variable running 0,1,2,.. below a bound:
      * v' = v ++ [f(k)] on the only back edge  => after a full traversal v = v0 ++ map(coll, f)
      * every continuing iteration knows not c(k) => after a full traversal  not any(coll, c)
      * leaving in the middle knowing c(k)        => any(coll, c)
    Returns a function applied to every state leaving the loop; it gives the substitution made."""
    pos_ = []
    allphi = [p for p, _ in phis]
    for ph, init in phis:
        if init is ZERO and binfo and all(dict(b.args[1]).get(ph) is add(ph, ONE) for b in binfo):
            for bound in loop_bound(ph, binfo):
                if any(occurs(p, bound) for p in allphi): continue
                pos_.append((ph, bound, rngcoll(bound)))
    strided = stride_lists(phis, binfo, allphi) if len(binfo) == 1 else []
    thin = thinned(phis, binfo, allphi)
    if not pos_ and not strided and not thin: return lambda s: {}
    pos_.sort(key=lambda x: (x[1].op != 'len', x[1].id))
    clos = []
    if len(binfo) == 1:
        upd = dict(binfo[0].args[1])
        for ph, bound, coll in pos_:
            for p2, i2 in phis:
                if p2 is ph: continue
                u = upd.get(p2)
                if u is None or u.op != 'cat' or u.args[0] is not p2: continue
                rest = cat(*u.args[1:])
                if any(occurs(q, rest) for q in allphi if q is not ph): continue
                if rest.op == 'arr' and len(rest.args) == 1:
                    clos.append((ph, bound, p2, cat(i2, mapterm(coll, ph, rest.args[0]))))
                elif rest.op not in ('arr',):
                    clos.append((ph, bound, p2, cat(i2, mk('flat', mapterm(coll, ph, rest)))))
    elif len(binfo) <= 8:
        for ph, bound, coll in pos_:
            for p2, i2 in phis:
                if p2 is ph: continue
                r = filtered(ph, p2, binfo, allphi)
                if r: clos.append((ph, bound, p2, cat(i2, filtterm(coll, ph, *r))))
    for ph, bound, coll in pos_[:1]:
        for p2, i2 in phis:
            if p2 is ph or i2 is not ZERO and i2 is not TRUE or any(x[2] is p2 for x in clos): continue
            us = {dict(b.args[1]).get(p2) for b in binfo}
            if i2 is ZERO and len(us) == 1 and None not in us:
                u = next(iter(us))
                if u.op == 'bitor' and p2 in u.args:
                    x = u.args[1] if u.args[0] is p2 else u.args[0]
                    if any(occurs(q, x) for q in allphi if q is not ph) or p2 is x: continue
                    a = mk('orall', anyterm(coll, ph, pos(x)), mapterm(coll, ph, x)); HINT[a] = (False, 64)
                    clos.append((ph, bound, p2, a)); continue
            c = flagged(ph, p2, binfo, allphi, i2 is TRUE)
            if c is not None:
                a = anyterm(coll, ph, c[1])
                if c[0]: a = mk('cnt', a); HINT[a] = (False, 64)
                clos.append((ph, bound, p2, a if i2 is ZERO else not_(a)))
    for ph, bound, coll in pos_[:1]:
        for p2, i2 in phis:               # a map receiving one entry per element
            if p2 is ph or any(x[2] is p2 for x in clos): continue
            us = {dict(b.args[1]).get(p2) for b in binfo}
            u = us.pop()
            if us or u is None or u.op != 'mapset' or u.args[0] is not p2: continue
            if any(occurs(q, x) for x in u.args[1:] for q in allphi if q is not ph): continue
            clos.append((ph, bound, p2, mk('mapof', i2, mapterm(coll, ph, u.args[1]), mapterm(coll, ph, u.args[2]))))
    quant = []
    for ph, bound, coll in pos_:
        # the condition of continuing: disjunction over the back edges of their new guards on ph
        alts = []
        for b in binfo:
            lits = [(f if v else not_(f)) for f, v in b.args[0] if occurs(ph, f) and not isbound(f, ph) and not any(occurs(p, f) for p in allphi if p is not ph)]
            alts.append(and_(*lits))
        cont = orsimp(alts)
        if cont is not TRUE: quant.append((ph, bound, coll, not_(cont)))
    def apply(s):
        m = {}
        for left, p2, cf in strided:
            if s.decide(left) is False: m[p2] = cf
        for left, p2, cf in thin:
            if p2 not in m and s.decide(left) is False: m[p2] = cf
        for ph, bound, p2, cf in clos:
            if s.decide(pos(subt(bound, ph))) is False: m[p2] = cf
        if m:
            for c in list(s.store):
                v = s.store[c]
                if v.op not in ('int',):
                    n = substm(v, m)
                    if n is not v: s.store[c] = n
        for ph, bound, coll, brk in quant:
            if s.decide(pos(subt(bound, ph))) is False:
                s.assume(anyterm(coll, ph, brk), False)
            else:
                lits = [(f if v else not_(f)) for f, v in s.facts.items() if occurs(ph, f) and not isbound(f, ph) and f.op != 'any'
                        and not any(occurs(p, f) for p in allphi if p is not ph)]
                if lits: s.assume(anyterm(coll, ph, and_(*lits)), True)
        return m
    return apply
def thinned(phis, binfo, allphi):
    """lists (or records with one list) from which every iteration removes one element: (condition of continuing, variable, closed form)
      * a cursor from 0 that stays put after removing its element under c, and otherwise, under not c, advances by one
      * removing some element satisfying c, until no element satisfies c
    In both cases what is left is the list filtered by not c."""
    res = []
    for V, V0 in phis:
        rem = []; name = None; keep = []
        for b in binfo:
            u = dict(b.args[1]).get(V, V)
            if u is V: keep.append(b); continue
            nm, R = (u.args[1], u.args[2]) if u.op == 'upd' and u.args[0] is V else (None, u)
            L = fld(V, nm) if nm else V
            if R.op != 'cat' or len(R.args) != 2 or rem and nm != name: break
            j = ln(R.args[0])
            if R.args[0] is not sub(L, ZERO, j) or R.args[1] is not sub(L, add(j, ONE), ln(L)): break
            name = nm; rem.append((b, j))
        else:
            if not rem: continue
            L = fld(V, name) if name else V; L0 = fld(V0, name) if name else V0
            EL = mk('elem?', V)
            def lits(b, j):
                x = idx(L, j); r = []
                for f, v in b.args[0]:
                    if not occurs(x, f) or f.op == 'any': continue
                    g = substm(f, {x: EL})
                    if occurs(V, substm(g, {EL: ZERO})) or any(occurs(p, g) for p in allphi if p is not V): return None
                    r.append(g if v else not_(g))
                return and_(*r)
            def fill(c):
                K = binder(c, L0)
                return K, substm(c, {EL: idx(L0, K)})
            done = lambda c: (lambda K, d: upd_(V0, name, mk('filt', L0, idx(L0, K), K, d)))(*fill(c))
            for k, k0 in phis:
                if k is V or k0 is not ZERO: continue
                if not all(j is k and dict(b.args[1]).get(k, k) is k for b, j in rem) or not all(dict(b.args[1]).get(k) is add(k, ONE) for b in keep): continue
                cr = [lits(b, k) for b, _ in rem]; ck = [lits(b, k) for b in keep]
                if None in cr or None in ck or not ck: continue
                c, d = orsimp(ck), orsimp(cr)
                if orsimp([c, d]) is not TRUE or and_(c, d) is not FALSE and not_(c) is not d: continue
                res.append((pos(subt(ln(L), k)), V, done(c)))
            if not keep and len(rem) == 1:
                c = lits(*rem[0])
                if c is not None and c is not TRUE:
                    K = binder(c, L)
                    res.append((mk('any', L, K, substm(c, {EL: idx(L, K)})), V, done(not_(c))))
    return res
def upd_(v, name, x): return mk('upd', v, name, x) if name else x
def stride_lists(phis, binfo, allphi):
    """lists receiving one element per iteration of a counter that goes from 0 up to, or from its start down to, a bound in
    steps of a constant: (condition of continuing, list variable, closed form)"""
    upd = dict(binfo[0].args[1]); res = []
    for ph, init in phis:
        u = upd.get(ph)
        if u is None: continue
        holds = [f.args[0] for f, v in binfo[0].args[0] if v and f.op == 'pos']
        c = None
        if u.op == 'satsub' and u.args[0] is ph and isint(u.args[1]): c = -u.args[1].args[0]
        elif u.op == 'lin' and isint(subt(u, ph)): c = subt(u, ph).args[0]
        if c is None or c in (0, 1): continue
        if c < 0:
            if not any(h is ph for h in holds) and not any(f is eqz(ph) and not v for f, v in binfo[0].args[0]): continue
            if u.op == 'lin' and c != -1: continue
            count, left = init, pos(ph)
        else:
            bs = [h for h in holds if dict(lin_parts(h)[1]).get(ph) == -1 and not any(occurs(q, add(h, ph)) for q in allphi)]
            if len(bs) != 1 or init is not ZERO: continue
            count, left = add(bs[0], ph), pos(bs[0])
        n = abs(c); count = count if n == 1 else mk('div', add(count, I(n - 1)), I(n))
        for p2, i2 in phis:
            u2 = upd.get(p2)
            if p2 is ph or u2 is None or u2.op != 'cat' or u2.args[0] is not p2: continue
            rest = cat(*u2.args[1:])
            if rest.op != 'arr' or len(rest.args) != 1 or any(occurs(q, rest) for q in allphi if q is not ph): continue
            K = mk('tmpk', 'stride'); HINT[K] = (False, 64)
            res.append((left, p2, cat(i2, mapterm(mk('range', count), K, subst(rest.args[0], ph, add(init, mul(K, I(c))))))))
    return res
def flagged(ph, p2, binfo, allphi, neg=False):
    """(counts, condition) when p2, starting at 0, is set (or goes up by one) exactly on the iterations satisfying a condition on ph (neg: starting at 1, cleared)"""
    SET, was = (FALSE, not_(p2)) if neg else (TRUE, p2)
    kept = []; setc = []; kinds = set()
    for b in binfo:
        u = dict(b.args[1]).get(p2)
        if u is None: return None
        lits = [f if v else not_(f) for f, v in b.args[0] if occurs(ph, f) and not isbound(f, ph)]
        oth = [f if v else not_(f) for f, v in b.args[0] if any(occurs(p, f) for p in allphi if p is not ph)]
        flag = [f for f in oth if f is p2 or f is not_(p2)]
        if any(occurs(p, f) for f in lits for p in allphi if p is not ph): return None
        if any(f not in flag for f in oth): return None
        if was in flag:                   # already set: it must stay set
            if u is p2 or u is SET: continue
            return None
        if not neg and u is add(p2, ONE) and u.op == 'lin': kinds.add('n'); setc.append(and_(*lits)); continue
        if u is SET: kinds.add('b'); setc.append(and_(*lits)); continue
        if u is p2 or u is not_(SET) and not_(was) in flag:
            kept.append(and_(*lits)); continue
        if neg and u.op == 'and' and p2 in u.args:
            c = not_(and_(*[x for x in u.args if x is not p2]))
            if any(occurs(p, c) for p in allphi if p is not ph): return None
            kinds.add('b'); setc.append(and_(c, *lits)); kept.append(and_(not_(c), *lits)); continue
        if not neg and u.op == 'not' and u.args[0].op == 'and':
            ds = [not_(x) for x in u.args[0].args]
            if p2 in ds:
                c = orsimp([x for x in ds if x is not p2])
                if any(occurs(p, c) for p in allphi if p is not ph): return None
                kinds.add('b'); setc.append(and_(c, *lits)); kept.append(and_(not_(c), *lits)); continue
        return None
    if len(kinds) != 1 or not setc or not kept: return None
    c, k = orsimp(setc), orsimp(kept)
    if orsimp([c, k]) is not TRUE or and_(c, k) is not FALSE and not_(c) is not k: return None
    return kinds == {'n'}, c
def filtered(ph, p2, binfo, allphi):
    """(element, condition) when p2 collects one element f(ph) exactly on the iterations satisfying a condition on ph"""
    el = None; kept = []; skipped = []
    for b in binfo:
        u = dict(b.args[1]).get(p2)
        if u is None: return None
        lits = []
        for f, v in b.args[0]:
            if not occurs(ph, f) or isbound(f, ph): continue
            lits.append(f if v else not_(f))
        if any(occurs(p, f) for f in lits for p in allphi if p is not ph): return None
        if u is p2: skipped.append(and_(*lits)); continue
        if u.op != 'cat' or u.args[0] is not p2 or len(u.args) != 2: return None
        x = u.args[1]
        if x.op != 'arr' or len(x.args) != 1 or el is not None and el is not x.args[0]: return None
        el = x.args[0]; kept.append(and_(*lits))
    if el is None or not skipped or any(occurs(p, el) for p in allphi if p is not ph): return None
    c, d = orsimp(kept), orsimp(skipped)
    if orsimp([c, d]) is not TRUE or and_(c, d) is not FALSE and not_(c) is not d: return None
    return el, c
def filtterm(coll, ph, el, cond):
    K = binder(el, cond)
    return mk('filt', coll, subst(el, ph, K), K, subst(cond, ph, K))
def isbound(f, ph):
    return f.op == 'pos' and any(x is ph for x, _ in lin_parts(f.args[0])[1])

def orsimp(alts):
    """disjunction of conjunctions, with A or (not A and B) = A or B applied to a fixpoint"""
    cs = []
    for a in alts:
        if a is TRUE: return TRUE
        if a is FALSE: continue
        cs.append(set(a.args) if a.op == 'and' else {a})
    ch = True
    while ch:
        ch = False
        for i, c in enumerate(cs):
            for j, d in enumerate(cs):
                if i == j or d is None or c is None: continue
                # c = {lits}, d contains negation of one literal and otherwise superset of the rest of c
                for l in list(c):
                    n = not_(l)
                    if n in d and (c - {l}) <= d:
                        d.discard(n); ch = True
                        break
                if c <= d and i != j and c is not d:
                    cs[j] = None; ch = True
        cs = [c for c in cs if c is not None]
        if any(not c for c in cs): return TRUE
    return or_(*[and_(*c) for c in cs]) if cs else FALSE
