import json,sys
def load(p): return json.load(open(p))
class PP:
    def __init__(s,d): s.d=d
    def ty(s,i): return s.d['types'][i]['s'] if i is not None else '?'
    def place(s,p):
        o='_%d'%p[0]
        for e in p[1]:
            k=e[0]
            if k=='*': o='(*%s)'%o
            elif k=='f': o+='.'+e[2]
            elif k=='v': o+=' as '+e[2]
            elif k=='i': o+='[_%d]'%e[1]
            else: o+='['+','.join(map(str,e))+']'
        return o
    def op(s,o):
        if o[0] in('cp','mv'): return ('' if o[0]=='cp' else 'move ')+s.place(o[1])
        return s.k(o[1])
    def k(s,k):
        x=k.get('k')
        if x in('int','str'): return repr(k['v'])
        if x=='bytes': return 'b'+repr(bytes(k['v']))
        if x=='ref': return '&'+s.k(k['v'])
        if x=='agg': return '%s%s{%s}'%(s.ty(k['t']),('::%s'%k['var']) if 'var' in k else '',','.join(s.k(f) for f in k['f'])[:200])
        return '<%s %s>'%(x,s.ty(k['t']))
    def rv(s,r):
        k=r[0]
        if k=='use': return s.op(r[1])
        if k=='ref': return ('&mut ' if r[2] else '&')+s.place(r[1])
        if k=='bin': return '%s(%s, %s)'%(r[1],s.op(r[2]),s.op(r[3]))
        if k=='un': return '%s(%s)'%(r[1],s.op(r[2]))
        if k=='cast': return '%s as %s [%s]'%(s.op(r[2]),s.ty(r[3]),r[1])
        if k=='disc': return 'disc(%s)'%s.place(r[1])
        if k=='agg': return '%s %s#%d(%s)'%(r[1],s.ty(r[2]),r[3],', '.join(map(s.op,r[4])))
        if k=='rep': return '[%s;%s]'%(s.op(r[1]),r[2])
        return str(r)
    def fn(s,i,locs=False):
        f=s.d['fns'][str(i)]; inf=s.d['insts'][i]
        print('fn #%d %s  kind=%s pre=%s argc=%d'%(i,inf['full'],inf['kind'],f.get('pre'),f['argc']))
        if locs:
            for j,l in enumerate(f['locals']): print('   let _%d: %s %s'%(j,s.ty(l['t']),l.get('n','')))
        for b,bl in enumerate(f['blocks']):
            if bl['c']: continue
            print(' bb%d: %s'%(b,bl['sp'] and bl['sp'][1]))
            for st in bl['s']:
                if st[0]=='=': print('    %s = %s'%(s.place(st[1]),s.rv(st[2])))
                elif st[0] in('live','dead'): pass
                else: print('    ',st)
            t=bl['t']
            if t[0]=='call':
                ft=s.d['types'][t[1]]; c=ft['s']
                ii=ft.get('inst'); 
                if ii is not None: c='#%d %s %s'%(ii,s.d['insts'][ii]['path'],'BODY' if s.d['insts'][ii]['body'] else s.d['insts'][ii]['kind'])
                print('    %s = CALL %s(%s) -> %s'%(s.place(t[4]),c,', '.join(map(s.op,t[3])),t[5]))
            elif t[0]=='sw': print('    switch %s %s else %s'%(s.op(t[1]),t[2],t[3]))
            elif t[0]=='drop': print('    drop %s -> %s'%(s.place(t[1]),t[2]))
            elif t[0]=='assert': print('    assert %s==%s %s -> %s'%(s.op(t[1]),t[2],t[3][0],t[4]))
            else: print('    ',t)
if __name__=='__main__':
    d=load(sys.argv[1]); p=PP(d)
    if len(sys.argv)==2:
        for i,inf in enumerate(d['insts']): print(i,inf['full'],inf['kind'],inf['body'])
    else:
        for i,inf in enumerate(d['insts']):
            if inf['body'] and sys.argv[2] in inf['full'] and str(i) in d['fns']: p.fn(i,len(sys.argv)>3)
