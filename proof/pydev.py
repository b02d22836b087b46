import sys, time, traceback
sys.setrecursionlimit(60000)
import sym, pycore, pyload, pyspec, pyspec2, pyspec3
from terms import Forall
def run(name, only=None, verbose=1, cfgsel=None):
    f, cfgs = pyspec.UNITS[name]
    tot = bad = 0
    T = time.time()
    for i, cfg in enumerate(cfgs):
        if cfgsel is not None and i not in cfgsel: continue
        t0 = time.time()
        L = pyload.Loader()
        n = nob = nb = 0
        try:
            for c, out in sym.explore(lambda c: f(L, c, cfg)):
                n += 1
                for ob in c.obs:
                    if only and only not in ob.name: continue
                    t = time.time()
                    r = pycore.discharge(ob)
                    nob += 1
                    if r[0] != 'proved':
                        nb += 1
                        print('   OPEN', cfg, 'path', n, ob.name, r[1], '%.1f' % (time.time()-t))
                        if verbose > 1:
                            for h in ob.hyps: print('     H', h.z3() if isinstance(h,Forall) else h)
                            print('     G', ob.goal.z3() if isinstance(ob.goal,Forall) else ob.goal)
                            if verbose > 2: return
                    elif time.time()-t > 2: print('   slow', ob.name, r[1], '%.1f' % (time.time()-t))
        except sym.Unsupported as e:
            print('   UNSUPPORTED', cfg, type(e).__name__, e); 
            if verbose > 1: traceback.print_exc()
            nb += 1
        except Exception:
            traceback.print_exc(); nb += 1
        tot += nob; bad += nb
        print('==', name, cfg, 'paths', n, 'obligations', nob, 'open', nb, '%.1f s' % (time.time()-t0), flush=True)
    print('TOTAL', name, tot, 'open', bad, '%.1f s' % (time.time()-T))
v = 1; sel = None; only = None
for a in sys.argv[1:]:
    if a == '-v': v = 2
    elif a == '-vv': v = 3
    elif a.startswith('-c'): sel = [int(x) for x in a[2:].split(',')]
    elif a.startswith('-o'): only = a[2:]

for a in sys.argv[1:]:
    if not a.startswith('-'): run(a, only, v, sel)
