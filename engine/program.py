"""Analysis of the on-chain program, one instruction code at a time, from process_instruction."""
import extract, core as C, queuesum
from terms import *
ENTRY = 'process_instruction'
_cache = {}
def engine(summ=True):
    d = extract.load('ephemeral_vrf_program-lib')
    S = dict(queuesum.SUMMARIES) if summ else {}
    if summ: S['ephemeral_vrf_api::verify::verify_vrf'] = queuesum.verify
    e = C.Engine(d, summaries=S); e.track_err = True
    return e
def entry(e):
    k = [i for i in e.find(ENTRY) if e.insts[i]['crate'] == 'ephemeral_vrf_program']
    if len(k) != 1: raise C.AnalysisError('program entry point process_instruction not found')
    return k[0]
PAYLOAD = mk('sym', 'payload')
TAGREST = mk('sym', 'tag[1..8]'); HINT[TAGREST] = ('len', 7)
PROGRAM_ID = mk('sym', 'program_id')
DATA = mk('sym', 'data')
ACCS = mk('sym', 'accounts')
def acct(i): return idx(ACCS, I(i))
def run(code=None, summ=True, data=None):
    """(engine, outs) of process_instruction with instruction discriminator `code` (None: any data)"""
    key = (code, summ, data)
    if key in _cache: return _cache[key]
    e = engine(summ)
    st = C.State()
    k = entry(e)
    if data is None: data = DATA if code is None else cat(B(bytes([code])), TAGREST, PAYLOAD)
    st.store[('arg', 'data')] = data
    st.store[('arg', 'accounts')] = ACCS
    st.store[('arg', 'program_id')] = PROGRAM_ID
    args = [ref(('arg', 'program_id')), ref(('arg', 'accounts')), ref(('arg', 'data'))]
    outs = e.run(k, args, st, 0)
    _cache[key] = (e, outs)
    return e, outs
def is_ok(o): return o.kind == 'ret' and o.val.op == 'agg' and o.val.args[1] == 'Ok'
def is_err(o): return o.kind == 'ret' and o.val.op == 'agg' and o.val.args[1] == 'Err'
def dump(outs, errs=False):
    for o in outs:
        if not is_ok(o) and not errs: continue
        print('-----', o.kind, o.val)
        for f, v in o.st.facts.items(): print('   ', '+' if v else '-', show(f, 9))
        for ev in o.st.events: print('   E', show(ev, 9))
        for c, v in o.st.store.items():
            if c[0] not in ('l', 'h', 'k'): print('   S', c, '=', show(v, 8))
if __name__ == '__main__':
    import sys, time
    for c in map(int, sys.argv[1].split(',')):
        t = time.time(); e, outs = run(c)
        print('=== code', c, 'time %.1f' % (time.time() - t), 'outs', len(outs), 'ok', sum(map(is_ok, outs)), 'err', sum(map(is_err, outs)), 'panic', sum(o.kind == 'panic' for o in outs))
        dump(outs, '-e' in sys.argv)
        for n, k in sorted(e.opaque.items()): print('   opaque', k, n)
