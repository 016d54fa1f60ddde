#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source by static analysis.
exit 0 held / 1 violated (VIOLATION line) / 2 no answer (the tree does not compile)."""
import sys, os, json, time, re, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 << 20)

def known():
    """(property, construct) -> description of recorded findings"""
    out = {}
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        m = re.match(r'finding: property=(\S+) construct=(\S+) (.*)', l.strip())
        if m: out[m[1], m[2]] = m[3]
    return out

def main(pid):
    t0 = time.time()
    import extract
    tier = os.environ.get('VERIF_TIER', 'quick')
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other')
    import core as C
    from rules import run as R, base
    ctx = base.Ctx(pid)
    crash = None
    try:
        R.run(pid, ctx)
    except extract.BuildFailed as x:
        print('NO ANSWER: the current tree could not be compiled for analysis\n%s' % x); return 2
    except Exception as x:
        crash = traceback.format_exc()
        if isinstance(x, C.AnalysisError): ctx.fail('not-analysable@%s' % re.sub(r'[^A-Za-z0-9_:.]+', '-', str(x))[:80], '', crash)
        else: ctx.fail('rule-not-applicable@%s' % type(x).__name__, '', crash)
    if not ctx.obl: ctx.fail('nothing-analysed@%s' % pid, '', 'no construct matched the rule')
    kf = known(); bad = 0
    rep = os.path.join(HERE, '.build', 'replay'); os.makedirs(rep, exist_ok=True)
    for n, (k, (where, detail)) in enumerate(sorted(ctx.viol.items())):
        if (pid, k) in kf:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, kf[pid, k])); continue
        p = os.path.join(rep, '%s-%d.txt' % (pid, n))
        with open(p, 'w') as f:
            f.write('property: %s\nrule and construct: %s\nwhere: %s\n\nrule text:\n%s\n\nfacts of the violating construct:\n%s\n' % (
                pid, k, where, '\n'.join('- ' + d for _, d in base.RULES.get(pid, [])), detail))
            f.write('\nrecompute: cd /verif && python3 check.py %s\n' % pid)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('  %s  %s' % (k, where)); bad += 1
    ev['coverage'] = dict(
        explanation='Obligations are instances of the rules below on the path summaries / call sites / constants of the current tree; each is decided by dataflow over the type-checked MIR, nothing is executed.',
        rules=[d for _, d in base.RULES.get(pid, [])], obligations=ctx.obl, discharged=ctx.ok, by_rule=ctx.kinds,
        functions_analysed=sorted(ctx.scope)[:400], functions=len(ctx.scope), paths=ctx.paths, samples=ctx.samples[:5])
    ev['assumptions'] = ctx.assumptions
    ev['violations'] = bad
    ev['wall_s'] = round(time.time() - t0, 3)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged, %d functions, %d paths, %.1fs' % (pid, ctx.ok, ctx.obl, len(ctx.scope), ctx.paths, ev['wall_s']))
    if crash and bad: print(crash)
    return 1 if bad else 0

if __name__ == '__main__':
    rc = []
    def go():
        try: rc.append(main(sys.argv[1]))
        except SystemExit as x: rc.append(x.code)
        except BaseException:
            traceback.print_exc(); rc.append(2)
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush(); os._exit(rc[0] if rc else 2)
