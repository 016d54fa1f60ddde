"""Summaries of the QueueAccount view used when the instruction handlers are analysed.  The methods
themselves are verified separately (rules_queue)."""
from terms import *
import core as C
from prims import ret, content, it, strip

Q = 'ephemeral_vrf_api::state::queue::'
QA = Q + 'QueueAccount'
HDR = Q + 'Queue'

def parts(eng, st, selfref):
    v = content(eng, st, selfref)
    acc = fld(v, 'acc', None)
    return acc, content(eng, st, acc)
def fail(eng, s, c):
    s.ev('fail', c)
    return ret(err(mk('errof', c)), s)
def load(eng, st, a, i, d, t):
    acc = a[0]; A = content(eng, st, acc); out = []
    for r, s in eng.fork(st, pos(subt(ln(A), I(11)))):
        if not r: out += ret(err(mk('const', 'InvalidAccountData')), s); continue
        if A.op not in ('q_load', 'q_rm', 'q_add'): eng.storeref(s, acc, mk('q_load', A))
        h = eng.subref(acc, ('ss', ZERO, I(12)), ('view', HDR))
        fs = {'header': h, 'acc': acc}
        out += ret(ok(agg(QA, '', *[fs[f] for f in FIELDS[(QA, '')]])), s)
    return out
def add_item(eng, st, a, i, d, t):
    acc, A = parts(eng, st, a[0])
    item, disc, metas, args = [strip(eng.val(st, content(eng, st, x))) for x in a[1:5]]
    n = mk('q_add', A, item, disc, metas, args)
    c = mk('call', 'q_add', A, item, disc, metas, args); out = []
    for r, s in eng.fork(st, isvar(c, 'Ok')):
        if not r: out += fail(eng, s, c); continue
        eng.storeref(s, acc, n)
        s.ev('q_add', A, item, disc, metas, args)
        out += ret(ok(rd(A, ZERO, 'u32')), s)
    return out
def q_item(A, i): return mk('q_item', A, i)
def remove_item(eng, st, a, i, d, t):
    acc, A = parts(eng, st, a[0])
    c = mk('q_in', A, a[1]); out = []
    for r, s in eng.fork(st, c_bool(c)):
        if not r: out += fail(eng, s, c); continue
        eng.storeref(s, acc, mk('q_rm', A, a[1]))
        s.ev('q_rm', A, a[1])
        out += ret(ok(setfld(q_item(A, a[1]), 'used', None, ZERO)), s)
    return out
def c_bool(c):
    BOOLTERMS.add(c); return c
def find_item(eng, st, a, i, d, t):
    acc, A = parts(eng, st, a[0]); key = strip(eng.val(st, content(eng, st, a[1])))
    c = c_bool(mk('q_has', A, key)); out = []
    for r, s in eng.fork(st, c):
        if not r: out += ret(NONE, s); continue
        k = mk('q_idx', A, key); HINT[k] = (False, 64)
        s.assume(c_bool(mk('q_in', A, k)), True)
        out += ret(some(tup(k, q_item(A, k))), s)
    return out
def get_item(eng, st, a, i, d, t):
    acc, A = parts(eng, st, a[0]); out = []
    for r, s in eng.fork(st, c_bool(mk('q_in', A, a[1]))):
        out += ret(some(q_item(A, a[1])) if r else NONE, s)
    return out
def iter_items(eng, st, a, i, d, t):
    acc, A = parts(eng, st, a[0])
    v = mk('q_items', A)
    return ret(it('val', v, ZERO, ln(v)), st)
def region(kind):
    def f(eng, st, a, i, d, t):
        item = content(eng, st, a[0]); acc = content(eng, st, a[1])
        b = base_item(item)
        if b is not None and same_queue(b.args[0], acc):
            v = mk(kind, b)
        else: v = mk(kind, item, acc)
        if v not in st.store: pass
        return ret(ref(('k', v)), st)
    return f
def base_item(t):
    """q_item behind field updates that do not touch the offsets"""
    while t.op == 'upd':
        if t.args[1] not in ('used', 'slot', '_padding'): return None
        t = t.args[0]
    return t if t.op == 'q_item' else None
def same_queue(A, acc):
    """acc is the queue region A, possibly after removals (which leave the other bytes in place)"""
    while acc.op == 'q_rm' or acc.op == 'q_load':
        if acc is A: return True
        acc = acc.args[0]
    while A.op == 'q_load': A = A.args[0]
    return acc is A

SUMMARIES = {
    QA + '::load': load, QA + '::add_item': add_item, QA + '::remove_item': remove_item, QA + '::find_item_by_id': find_item,
    QA + '::get_item_by_index': get_item, QA + '::iter_items': iter_items,
    Q + 'QueueItem::callback_discriminator': region('q_disc'), Q + 'QueueItem::account_metas': region('q_metas'), Q + 'QueueItem::callback_args': region('q_args'),
}
def verify(eng, st, a, i, d, t):
    v = strip(mk('&', mk('x', *[strip(eng.argval(st, x, i, j)) for j, x in enumerate(a)])))
    c = mk('vrf_ok', *v.args); BOOLTERMS.add(c)
    return ret(c, st)
