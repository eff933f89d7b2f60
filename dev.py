import sys, time, importlib, glob, os
import multiprocessing as mp
sys.setrecursionlimit(20000)
from engine import extract, ir, verify
def load():
    for f in sorted(glob.glob('/verif/contracts/p*.py')):
        importlib.import_module('contracts.'+os.path.basename(f)[:-3])
def text(r, verbose=False):
    out=['%-40s %-7s %6.2fs obls=%d cases=%d paths=%d cov=%s inl=%d used=%s %s' % (r.c.id, r.status, r.wall, len(r.obls), r.cases, r.paths, sorted(r.covered), len(r.inlined), sorted(x[-30:] for x in r.used), r.stats if verbose else '')]
    if r.error: out.append('   ERROR '+ r.error)
    seen=set()
    for o in r.obls:
        if o.status!='proved':
            k=(o.name,o.where,o.case)
            if k in seen: continue
            seen.add(k)
            out.append('   FAIL %s %s %s %s [%s] %.1fs'%(o.status, o.kind, o.name, o.where, o.case, o.time))
            if verbose and o.model is not None: out.append('      model '+ str(o.model)[:1500])
    return '\n'.join(out)
def one(a):
    k,v=a
    return text(verify.verify(verify.REG[k],m),v)
if __name__=='__main__':
    load()
    m=ir.parse(extract.extract())
    pats=sys.argv[1:]
    v='-v' in pats
    pats=[p for p in pats if p!='-v']
    ks=[(k,v) for k,c in verify.REG.items() if any(p in k or p in c.props for p in pats)]
    if len(ks)==1: print(one(ks[0]))
    else:
        with mp.Pool(7, maxtasksperchild=4) as p:
            for t in p.imap_unordered(one, ks, chunksize=1):
                print(t); sys.stdout.flush()
