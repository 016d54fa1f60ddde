"""Assemble DESIGN.md"""
import sys, json, os, glob
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, V + '/engine'); sys.path.insert(0, H)
import rules.run, rules.base
from manifest_data import NA
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
o = open(H + '/design_head.md').read()
grp = {'V': 'VRF cryptography', 'F': 'Fulfilment', 'R': 'Requests', 'M': 'Lamports', 'Q': 'Queue account', 'P': 'Purge',
       'A': 'Administration', 'D': 'Delegation and validation', 'S': 'SDK, macro and client API', 'O': 'Oracle service', 'K': 'CLI', 'N': 'Not applicable'}
g = None
for p in P:
    i = p['id']
    if i[0] != g:
        g = i[0]; o += '\n### %s\n\n' % grp[g]
    if i in NA:
        o += '* **%s %s.** Not applicable: %s.\n' % (i, p['title'], NA[i]); continue
    ds = [x[1] for x in rules.base.RULES[i]]
    o += '* **%s %s.** %s.\n' % (i, p['title'], '; '.join(d.rstrip('.') for d in ds))
t = open(H + '/design_tail.md').read()
rows = ''
C = json.load(open(H + '/catches.json'))
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = d.split('/')[-2]; m = json.load(open(d))
    rows += '| %s | %s | %s | %s |\n' % (n, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '), C.get(n, '?'))
names = {'queue': 'queue account', 'vrf': 'cryptography', 'prog': 'instruction handlers', 'api': 'validation, payouts, client builders', 'sdk': 'SDK and macro', 'cli': 'CLI', 'ora': 'oracle service', 'ora2': 'oracle service, second set', 'ora3': 'oracle service, third set', 'queue2': 'queue account, second set', 'prog2': 'instruction handlers, second set', 'misc2': 'SDK, CLI and client builders, second set', 'red': 'restructurings across the repository, with look-alike bugs', 'red2': 'the same, second set', 'red3': 'functional-style and control-flow restructurings', 'sec': 'secrecy of keys'}
su = ''
for f in sorted(glob.glob(V + '/tools/muts/*.py')):
    ns = {}; exec(open(f).read(), ns); n = os.path.basename(f)[:-3]
    k = [m[1] for m in ns['M']]
    su += '| `%s.py` (%s) | %d | %d |\n' % (n, names.get(n, n), k.count('same'), k.count('bug'))
o += '\n' + t.replace('@@SEEDED@@', rows.rstrip('\n')).replace('@@SUITES@@', su.rstrip('\n'))
open(V + '/DESIGN.md', 'w').write(o)
