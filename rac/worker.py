"""Runs executable contracts against one build of igakit.

usage: worker.py PKGDIR OUT PID SEED SECONDS [MAXCASES]
       worker.py PKGDIR OUT --replay FILE
Writes JSON lines to OUT; the case under execution is kept in OUT.cur so that a crash or a
hang is attributable.
"""
import json, os, sys, time, traceback, warnings, zlib, signal
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
pkg = sys.argv[1]
sys.path.insert(0, pkg)
# the venv's editable-install hook would shadow the package under test
sys.meta_path[:] = [f for f in sys.meta_path if 'editable' not in (type(f).__module__ + type(f).__name__).lower()]
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')


class IG:
    pass


def load():
    ig = IG()
    import igakit
    assert os.path.realpath(igakit.__file__).startswith(os.path.realpath(pkg)), igakit.__file__
    from igakit import igalib, nurbs, cad, transform, io
    ig.bsp, ig.iga = igalib.bsp, igalib.iga
    ig.NURBS, ig.cad, ig.transform, ig.io = nurbs.NURBS, cad, transform.transform, io
    ig.igalib = igalib
    ig.igalib_error = [v for k, v in vars(igalib).items() if k.endswith('error')][0]
    return ig


import contracts_a
import contracts_b
REG = {}
for mod in (contracts_a, contracts_b):
    for k, v in mod.REG.items():
        for e in v:
            if e not in REG.setdefault(k, []):
                REG[k].append(e)
Fail = contracts_a.Fail


MINCASES = 40


class Timeout(Exception):
    pass


def run_case(cls, case, ig):
    """None if fine, 'skip', or a message"""
    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(20)
    try:
        return cls.check(case, ig)
    except Fail as e:
        return str(e)
    except Timeout:
        return 'no answer after 20 s (does not terminate?)'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inlib = [f for f in tb if 'igakit' in f.filename and '/rac/' not in f.filename]
        where = '%s:%d' % (os.path.basename((inlib or tb)[-1].filename), (inlib or tb)[-1].lineno)
        return 'raised %s: %s (at %s)' % (type(e).__name__, str(e)[:300], where)
    finally:
        signal.alarm(0)


def main():
    out = open(sys.argv[2], 'w')
    cur = sys.argv[2] + '.cur'

    def emit(d):
        out.write(json.dumps(d) + '\n'); out.flush()
    ig = load()
    if sys.argv[3] == '--replay':
        rec = json.load(open(sys.argv[4]))
        cls = [c for n, c, w in REG[rec['property']] if n == rec['contract']][0]
        if rec.get('stream'):      # the failure needs the cases run before it: run them all again
            from gen import Rng
            msg = None
            for i in range(rec['stream']['index']):
                s = zlib.crc32(('%s/%s/%d/%d' % (rec['property'], rec['contract'],
                                                 rec['stream']['seed'], i)).encode())
                try:
                    case = cls.gen(Rng(s))
                except Exception:
                    continue
                if case is not None:
                    msg = run_case(cls, case, ig)
                    if msg and msg != 'skip' and not msg.startswith('known:'):
                        break
        else:
            msg = run_case(cls, rec['case'], ig)
        emit({'done': True, 'msg': msg if msg and msg != 'skip' and not msg.startswith('known:') else None})
        return
    pid, seed, secs = sys.argv[3], int(sys.argv[4]), float(sys.argv[5])
    maxcases = int(sys.argv[6]) if len(sys.argv) > 6 else 10 ** 9
    entries = REG[pid]
    tot = sum(w for _, _, w in entries)
    stats = {}
    from gen import Rng
    t_start = time.time()
    for name, cls, w in entries:
        t_end = time.time() + secs * w / tot
        t_hard = t_end + 60
        n = sk = fails = gerr = 0
        sample, known, distinct = None, {}, set()
        for case in getattr(cls, 'fixed', lambda: [])():
            open(cur, 'w').write(json.dumps({'contract': name, 'case': case}))
            msg = run_case(cls, case, ig)
            n += 1
            if msg and msg.startswith('known:'):
                known[msg[6:]] = known.get(msg[6:], 0) + 1
                continue
            if msg and msg != 'skip':
                emit({'fail': True, 'property': pid, 'contract': name, 'seed': None,
                      'message': msg, 'case': case}); fails += 1
        i = 0
        while (time.time() < t_end or (n < MINCASES and time.time() < t_hard)) and i < maxcases and fails < 3:
            s = zlib.crc32(('%s/%s/%d/%d' % (pid, name, seed, i)).encode())
            i += 1
            try:
                case = cls.gen(Rng(s))
            except Exception:
                emit({'generr': traceback.format_exc()[-1500:], 'contract': name, 'seed': s})
                sk += 1
                gerr += 1
                if gerr > 3:
                    break
                continue
            if case is None:
                sk += 1
                continue
            open(cur, 'w').write(json.dumps({'contract': name, 'case': case}))
            msg = run_case(cls, case, ig)
            if msg == 'skip':
                sk += 1
                continue
            n += 1
            distinct.add(zlib.crc32(json.dumps(case, sort_keys=True, default=str).encode()))
            if sample is None:
                sample = case
            if msg and msg.startswith('known:'):
                known[msg[6:]] = known.get(msg[6:], 0) + 1
                msg = None
            if msg:
                fails += 1
                emit({'fail': True, 'property': pid, 'contract': name, 'seed': s, 'index': i,
                      'message': msg, 'case': case})
        stats[name] = {'cases': n, 'skipped': sk, 'fails': fails, 'sample': sample,
                       'distinct': len(distinct),
                       'known': known}
    if os.path.exists(cur):
        os.remove(cur)
    emit({'done': True, 'stats': stats, 'wall': time.time() - t_start})


main()
