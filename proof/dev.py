import sys, time, traceback
import z3
sys.setrecursionlimit(20000)
from fparse import parse
import fexec, prover, importlib
from terms import *
import fspec
import os
SRC=open(os.environ.get('VERIF_REPO','/repo')+'/igakit/igalib.f90').read()
def run(key, config=None, verbose=1, only=None):
    mods=parse(SRC)
    e=fexec.Engine(mods, fspec.C)
    t=time.time()
    obs=e.verify(key, config)
    print('==', key, (config or {}).get('name',''), len(obs),'obligations gen %.2f s'%(time.time()-t), 'used',sorted(e.used),'inl',sorted(e.inlined))
    bad=0
    tt=time.time()
    for ob in obs:
        if only and only not in ob.name: continue
        t=time.time()
        r=prover.prove(ob)
        dt=time.time()-t
        if r[0]!='proved':
            bad+=1
            print('  OPEN',ob.name,r[1],'%.2f'%dt)
            if verbose>1:
                for h in ob.hyps: print('     H', h.z3() if isinstance(h,Forall) else h)
                print('     G', ob.goal.z3() if isinstance(ob.goal,Forall) else ob.goal)
        elif dt>1 or verbose>2: print('  ',ob.name,r[1],'%.2f'%dt)
    print('   total %.2f s, open %d'%(time.time()-tt,bad))
    return bad
if __name__=='__main__':
    v=1
    for a in sys.argv[1:]:
        if a=='-v': v=2; continue
        try:
            cfgs=fspec.C[a].get('configs') or [None]
            for c in cfgs: run(a,c,v)
        except Exception:
            traceback.print_exc()
