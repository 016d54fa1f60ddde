"""Obligations, violations, evidence."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import core as C, extract
from terms import *
RULES = {}     # property id -> [(function, description)]
def rule(*pids, doc=''):
    def d(f):
        for p in pids: RULES.setdefault(p, []).append((f, doc or ' '.join((f.__doc__ or '').split())))
        return f
    return d
class Ctx:
    def __init__(s, pid):
        s.pid = pid; s.obl = 0; s.ok = 0; s.viol = {}; s.scope = set(); s.paths = 0; s.kinds = {}; s.seen = set(); s.samples = []; s.assumptions = []
    def ob(s, key, cond, where='', detail=''):
        """one obligation; key identifies the construct (no line numbers)"""
        s.obl += 1
        k = key.split('@')[0]; s.kinds[k] = s.kinds.get(k, 0) + 1
        if cond:
            s.ok += 1
            if s.kinds[k] == 1: s.samples.append('%s holds at %s' % (key, where))
            return True
        s.viol.setdefault(key, (where, detail() if callable(detail) else detail)); return False
    def fail(s, key, where='', detail=''): return s.ob(key, False, where, detail)
    def saw(s, eng, outs=()):
        """record what an engine run analysed"""
        if id(eng) in s.seen: return
        s.seen.add(id(eng)); s.scope |= eng.analysed; s.paths += len(outs)

def where_fn(eng, sub):
    for k, i in enumerate(eng.insts):
        if sub in i['path'] and str(k) in eng.fns and eng.fns[str(k)].get('span'):
            sp = eng.fns[str(k)]['span']
            return '%s (%s)' % (i['path'], ':'.join(map(str, sp)) if isinstance(sp, list) else sp)
    return sub

class Tr:
    """one path summary (guards, events, final memory)"""
    def __init__(s, eng, o, label):
        s.eng, s.o, s.st, s.label = eng, o, o.st, label
    def holds(s, t): return s.st.decide(t) is True
    def fails(s, t): return s.st.decide(t) is False
    def evs(s, *kinds): return [e for e in s.st.events if e.args[0] in kinds]
    def index(s, ev): return s.st.events.index(ev)
    def facts(s, op=None, val=True):
        return [f for f, v in s.st.facts.items() if v == val and (op is None or f.op == op)]
    def cell(s, kind, acct):
        return s.st.store.get((kind, acct), mk(kind, acct))
    def ge(s, a, b): return s.holds(pos(add(subt(a, b), ONE)))
    def simp(s, t):
        """resolve saturating subtractions decided by the guards of this path"""
        for _ in range(6):
            m = {}
            for u in walk(t):
                if u.op == 'satsub':
                    a, b = u.args
                    if s.ge(a, b): m[u] = subt(a, b)
                    elif s.ge(b, a): m[u] = ZERO
            if not m: return t
            t = substm(t, m)
        return t
    def text(s):
        L = ['path: ' + s.label]
        for f, v in s.st.facts.items(): L.append('  guard %s %s' % ('holds' if v else 'fails', show(f, 9)))
        for e in s.st.events:
            if e.args[0] != 'loop': L.append('  effect ' + show(e, 10))
        for c, v in s.st.store.items():
            if c[0] not in ('l', 'h', 'k', 'arg'): L.append('  final %s = %s' % (show(tuple(x if isinstance(x, T) else str(x) for x in c)), show(v, 9)))
        return '\n'.join(L)
def subterms(t, op): return [u for u in walk(t) if u.op == op]
def strip(t):
    while t.op == '&': t = t.args[0]
    return t
def catparts(t): return list(t.args) if t.op == 'cat' else [t]
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def b58(s):
    n = 0
    for c in s: n = n * 58 + B58.index(c)
    pad = len(s) - len(s.lstrip('1'))
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes(pad) + b
def pk(s): return B(b58(s).rjust(32, b'\0'))
