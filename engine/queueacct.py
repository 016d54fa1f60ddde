"""Analysis of the QueueAccount methods themselves, over an arbitrary account region."""
import extract, core as C, queuesum
from terms import *
Q = 'state::queue::'; QA = Q + 'QueueAccount'; HDR = Q + 'Queue'; ITEM = Q + 'QueueItem'
ACC = mk('sym', 'acc')        # arbitrary region
WACC = mk('sym', 'qacc')      # region satisfying the inductive invariant 16 <= cursor <= length (<= 10 MiB, the platform's account limit)
MAXLEN = 10 << 20
for a in (ACC, WACC): RANGE[ln(a)] = (0, MAXLEN)
RANGE[rd(WACC, I(4), 'u32')] = (16, MAXLEN)
CELL = ('arg', 'acc')
_eng = []
def engine():
    if not _eng:
        e = C.Engine(extract.load('ephemeral_vrf_api-lib'))
        _eng.append(e)
    return _eng[0]
DISC = mk('sym', 'disc'); RANGE[ln(DISC)] = (0, 8)        # bounded by the request handler (R05)
def inst(e, name):
    k = [i for i in range(len(e.insts)) if str(i) in e.fns and e.insts[i]['path'].replace("::<'a>", '').endswith('state::queue::' + name)]
    if len(k) != 1: raise C.AnalysisError('queue method %s not found' % name)
    return k[0]
def state(wf=False):
    st = C.State()
    A = WACC if wf else ACC
    st.store[CELL] = A
    st.assume(pos(subt(ln(A), I(15 if wf else 11))), True)
    if wf: st.assume(pos(subt(add(ln(A), ONE), rd(A, I(4), 'u32'))), True)
    return st
def selfval(e, st):
    acc = ref(CELL)
    h = e.subref(acc, ('ss', ZERO, I(12)), ('view', HDR))
    fs = {'header': h, 'acc': acc}
    st.store[('arg', 'self')] = agg(QA, '', *[fs[f] for f in FIELDS[(QA, '')]])
    return ref(('arg', 'self'))
def run(name, args=(), view=True, wf=False):
    e = engine(); st = state(wf)
    k = inst(e, name)
    av = [selfval(e, st)] if view else []
    for n, v in enumerate(args):
        if v.op == 'val': av.append(v.args[0]); continue
        st.store[('arg', str(n))] = v; av.append(ref(('arg', str(n))))
    return e, e.run(k, av, st, 0)
