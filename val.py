import sys,time; sys.path.insert(0,'/verif')
from engine import replay, verify
import dev; dev.load()
t=time.time(); exe=replay.build(); print('build',time.time()-t)
for cid,c in verify.REG.items():
    if not any(p in cid or p in c.props for p in sys.argv[1:]): continue
    t=time.time()
    ks=replay.cases_random(c,c.search,1)
    t1=time.time()
    k,d,n,x=replay.find(exe,c,ks)
    exc={}
    for q in ks: 
        e=q.exp[0] if q.exp[0]=='ret' else q.exp[1]
        exc[e]=exc.get(e,0)+1
    print(cid,len(ks),n,exc,'gen %.2f run %.2f'%(t1-t,time.time()-t1), 'DIFF %s on %s'%(d,replay.describe(k)) if k else 'ok')
    if k and '-v' in sys.argv and x and x.dead: print(x.log[:1500])
