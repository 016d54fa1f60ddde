import sys; sys.path.insert(0,'/verif/engine'); sys.setrecursionlimit(100000)
import queueacct as Q
from terms import *
import re
V = lambda x: mk('val', x)
N = mk('sym', 'n'); HINT[N] = (False, 64)
A = {'find_item_by_id': [mk('sym', 'id')], 'get_item_by_index': [V(N)], 'remove_item': [V(N)], 'iter_items': [], 'trim_trailing_holes': [], 'is_empty': [], 'len': [],
     'add_item': [mk('sym', 'item'), mk('sym', 'disc'), mk('sym', 'metas'), mk('sym', 'args')]}
def sh(x):
    s=show(x,30); s=re.sub(r"phi\(\([^()]*,(\d+),\d+\), \(\(([^()]*)\)\)\)",lambda m:'phi'+m[1]+'_'+m[2].replace(',','_'),s)
    return s.replace('state::queue::','')
WF='-w' in sys.argv
for n in [a for a in sys.argv[1:] if a!='-w']:
    e, outs = Q.run('QueueAccount::' + n, A[n], wf=WF)
    for o in outs:
        print('-----', n, o.kind, sh(o.val))
        for f, v in o.st.facts.items(): print('   ', '+' if v else '-', sh(f))
        for ev in o.st.events:
            if ev.args[0]=='loop':
                print('   LOOP',ev.args[1], sh(ev.args[2]))
                for b in ev.args[3]:
                    print('      back'); 
                    for a in b.args[0]: print('         ',a[1],sh(a[0]))
                    for a in b.args[1]: print('         ',sh(a[0]),':=',sh(a[1]))
                    print('         ',sh(b.args[2]))
            else: print('   E', sh(ev))
        for c, v in o.st.store.items():
            if c[0] not in ('l', 'h', 'k'): print('   S', c, '=', sh(v))
