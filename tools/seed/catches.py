"""Which checks report each planted bug (applied to the scratch copy /tmp/mr) -> tools/catches.json"""
import sys, os, subprocess, json, glob
import os; MR = os.environ.get('MR', '/tmp/mr'); V = '/verif'
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True, cwd=MR)
IGN = set(l.split()[2].split('=')[1] for l in open(V + '/known-findings.txt') if l.startswith('finding:'))
F = V + '/tools/catches.json'
C = json.load(open(F)) if os.path.exists(F) else {}
ids = sys.argv[1:] or [os.path.basename(os.path.dirname(p)) for p in sorted(glob.glob(V + '/seeded/*/patch.diff'))]
for i in ids:
    sh('git checkout -q -- .')
    r = sh('git apply %s/seeded/%s/patch.diff' % (V, i))
    if r.returncode: print(i, 'does not apply', r.stderr[:200]); continue
    out = subprocess.run('VERIF_REPO=%s python3 %s/tools/rr.py' % (MR, V), shell=True, capture_output=True, text=True).stdout
    cur = None; hits = []
    for l in out.splitlines():
        w = l.split()
        if w and len(w[0]) == 3 and w[0][0].isupper() and '/' in l[:12]: cur = w[0]
        if l.startswith('   VIOL') and w[1] not in IGN and cur not in hits: hits.append(cur)
    C[i] = ', '.join(hits) or 'none'
    print(i, C[i], flush=True)
    json.dump(C, open(F, 'w'), indent=1, sort_keys=True)
sh('git checkout -q -- .')
