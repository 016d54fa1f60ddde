import sys; sys.path.insert(0,'/verif/engine')
from rules.run import run
from rules.base import RULES
import time
for p in ([a for a in sys.argv[1:] if a[0]!="-"] or sorted(RULES)):
    t=time.time(); c=run(p); print(p, c.ok,'/',c.obl, '%.1fs'%(time.time()-t), c.paths)
    for k,(w,d) in c.viol.items():
        print('   VIOL',k,w); 
        if '-v' in sys.argv: print(str(d)[:3000])
