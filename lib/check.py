"""Check driver: python3 lib/check.py PID   (tier from VERIF_TIER, seed from VERIF_SEED)
            or: python3 lib/check.py --replay FILE

1. builds the package from the current tree (lib/build.py)
2. deductive part: generates and discharges the obligations of the property from the current
   source text (proof/), one solver process per obligation group
3. bounded part: run-time-checked executable contracts on generated inputs (rac/)
Exit 0: held; 1: VIOLATION line; 2: the check itself failed (no verdict).
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
VT = '/opt/veriftools/pyvenv/bin/python'
WORKER = os.path.join(ROOT, 'rac', 'worker.py')
PROVE = os.path.join(ROOT, 'proof', 'prove.py')
REPLAYS = os.path.join(ROOT, 'evidence', 'replay')
STALL = 75           # seconds without progress of a worker = a call that does not return


def findings():
    """{(property, finding id): text} from the committed known-findings file"""
    out = {}
    for l in open(os.path.join(ROOT, 'KNOWN-FINDINGS.txt')):
        l = l.strip()
        if l.startswith('known: '):
            f = dict(x.split('=', 1) for x in l[7:].split(' ', 2)[:2])
            out[(f['property'], f['id'])] = l[7:].split(' ', 2)[2]
    return out


class Rac:
    """one worker process over one build"""
    def __init__(self, pkg, flavour, tmp, pid, seed, secs, tag):
        self.pkg, self.flavour, self.seed, self.pid = pkg, flavour, seed, pid
        self.out = os.path.join(tmp, 'rac-%s-%s' % (flavour, tag))
        self.log = open(self.out + '.log', 'w')
        env = dict(os.environ, TMPDIR=tmp)
        self.p = subprocess.Popen([B.VENV, '-B', WORKER, pkg, self.out, pid, str(seed), str(secs)],
                                  stdout=self.log, stderr=self.log, cwd=tmp, env=env,
                                  start_new_session=True)
        self.t0 = time.time()
        self.stalled = False

    def poll(self):
        if self.p.poll() is not None:
            return True
        try:
            t = os.path.getmtime(self.out + '.cur')
        except OSError:
            t = self.t0
        if time.time() - max(t, self.t0) > STALL:
            self.stalled = True
            kill(self.p)
            return True
        return False

    def records(self):
        if not os.path.exists(self.out):
            return []
        r = []
        for l in open(self.out):
            try:
                r.append(json.loads(l))
            except ValueError:
                pass
        return r


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def replay(pkg, rec, tmp, n=0):
    """message if the recorded case fails on this build, else None"""
    f = os.path.join(tmp, 'rp-%d.json' % n)
    o = f + '.out'
    json.dump(rec, open(f, 'w'))
    if os.path.exists(o):
        os.remove(o)
    p = subprocess.Popen([B.VENV, '-B', WORKER, pkg, o, '--replay', f], stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, cwd=tmp,
                         env=dict(os.environ, TMPDIR=tmp), start_new_session=True)
    limit = 60 if not rec.get('stream') else 200
    try:
        log, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        kill(p)
        return 'no answer after %d s (does not terminate)' % limit
    done = None
    if os.path.exists(o):
        for l in open(o):
            try:
                done = json.loads(l)
            except ValueError:
                pass
    if not done or not done.get('done'):
        return 'the process was terminated during the call (exit status %s): %s' % (
            p.returncode, ' | '.join(log.strip().splitlines()[-3:])[:400])
    return done['msg']


def run_rac(dirs, pid, seed, secs, tmp, per_flavour):
    ws = []
    for k in range(per_flavour):
        for fl, d in dirs.items():
            ws.append(Rac(d, fl, tmp, pid, seed * 1000 + k, secs, str(k)))
    return ws


def collect(ws, pid, tmp):
    """(stats, violations, notes): every violation reproduced in a fresh process"""
    stats, viol, notes, known = {}, [], [], {}
    for w in ws:
        recs = w.records()
        done = any(r.get('done') for r in recs)
        for r in recs:
            if r.get('generr'):
                notes.append('generator error in %s: %s' % (r['contract'], r['generr'][-300:]))
            for name, s in (r.get('stats') or {}).items():
                t = stats.setdefault(name, {'cases': 0, 'skipped': 0, 'distinct': 0, 'sample': None})
                for k in ('cases', 'skipped', 'distinct'):
                    t[k] += s.get(k, 0)
                t['sample'] = t['sample'] or s['sample']
                for k, v in s['known'].items():
                    known[k] = known.get(k, 0) + v
        cand = [r for r in recs if r.get('fail')]
        if not done:
            cur = None
            if os.path.exists(w.out + '.cur'):
                try:
                    cur = json.load(open(w.out + '.cur'))
                except ValueError:
                    pass
            if cur:
                cand.append(dict(cur, property=pid, seed=None,
                                 message='does not return' if w.stalled else 'process terminated'))
            else:
                log = open(w.out + '.log').read()[-1500:]
                notes.append('WORKER %s: %s' % (w.flavour, log))
        for c in cand[:4]:
            if len(viol) >= 3:
                break
            c['flavour'] = w.flavour
            msg = replay(w.pkg, c, tmp)
            if msg is None and c.get('index'):
                c['stream'] = {'seed': w.seed, 'index': c['index']}
                msg = replay(w.pkg, c, tmp)
            if msg is None:
                notes.append('not reproduced: %s %s' % (c['contract'], c['message'][:300]))
                continue
            c['message'] = msg
            viol.append(c)
    return stats, viol, notes, known


def main():
    if sys.argv[1] == '--replay':
        rec = json.load(open(sys.argv[2]))
        if 'case' not in rec:
            print(json.dumps(rec, indent=1))
            return 0
        tmp = tempfile.mkdtemp(prefix='igakit-verif-')
        try:
            d = B.build(tmp, (rec.get('flavour', 'fast'),))
            msg = replay(list(d.values())[0], rec, tmp)
            print(msg or 'the contract holds on this input')
            return 1 if msg else 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='igakit-verif-')
    os.chmod(tmp, 0o755)
    try:
        return check(pid, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid, tier, seed, tmp, t0):
    prover = None
    pout = os.path.join(tmp, 'proof.json')
    if os.path.exists(PROVE):
        prover = subprocess.Popen([VT, '-B', PROVE, pid, tier, pout, tmp], cwd=tmp,
                                  stdout=open(pout + '.log', 'w'), stderr=subprocess.STDOUT,
                                  start_new_session=True)
    try:
        dirs = B.build(tmp)
    except B.BuildError as e:
        print('BUILD FAILED\n%s' % e)
        if prover:
            kill(prover)
        return 2
    secs, per = (14, 2) if tier == 'quick' else (240, 3)
    ws = run_rac(dirs, pid, seed, secs, tmp, per)
    deadline = time.time() + (400 if tier == 'quick' else 3000)
    while not all([w.poll() for w in ws]):
        if time.time() > deadline:
            for w in ws:
                kill(w.p)
        time.sleep(0.1)
    proof = {'obligations': [], 'notes': []}
    stats, viol, notes, known = collect(ws, pid, tmp)
    if prover:
        # with a failing input at hand the verdict is known: the open obligations are only named
        wait = 60 if viol else max(1, deadline + 200 - time.time())
        try:
            prover.wait(timeout=wait)
        except subprocess.TimeoutExpired:
            kill(prover)
            if viol:
                notes.append('deductive part stopped after a failing input had been found')
        try:
            proof = json.load(open(pout))
        except (OSError, ValueError):
            if not viol:
                print('PROVER FAILED\n%s' % open(pout + '.log').read()[-3000:])
                return 2
    failed = [o for o in proof['obligations'] if o['status'] != 'proved' and not o.get('known')]
    if failed and not viol:
        # an obligation is open: look much harder for an input that shows it on the real code
        ws2 = run_rac(dirs, pid, seed + 7777, 45 if tier == 'quick' else 400, tmp, 4)
        while not all([w.poll() for w in ws2]):
            time.sleep(0.1)
        s2, v2, n2, k2 = collect(ws2, pid, tmp)
        viol += v2
        notes += n2
        for k, v in s2.items():
            for x in ('cases', 'skipped', 'distinct'):
                stats.setdefault(k, {'cases': 0, 'skipped': 0, 'distinct': 0, 'sample': None})[x] += v[x]
    rc = 0
    if any(n.startswith('WORKER') for n in notes) and not viol:
        print('\n'.join(notes))
        rc = 2
    total = sum(s['cases'] for s in stats.values())
    if total == 0 and not viol:
        print('no contract evaluated\n' + '\n'.join(notes))
        rc = 2
    kf = findings()
    seen = set(known) | {o['known'] for o in proof['obligations']
                         if o.get('known') and o['status'] != 'proved'}
    for k in sorted(seen):
        if (pid, k) in kf:
            print('KNOWN-FINDING: property=%s %s %s' % (pid, k, kf[(pid, k)]))
        else:
            viol.append({'contract': 'finding ' + k, 'message': 'finding %s is not listed' % k,
                         'property': pid})
    os.makedirs(REPLAYS, exist_ok=True)
    nv = 0
    for v in viol:
        nv += 1
        f = os.path.join(REPLAYS, '%s-%d.json' % (pid, nv))
        v['failed_obligations'] = [o['name'] for o in failed][:20]
        json.dump(v, open(f, 'w'), indent=1)
        print('%s: %s' % (v['contract'], v['message'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(f, ROOT)))
    if failed and not viol:
        nv = 1
        f = os.path.join(REPLAYS, '%s-obligation.json' % pid)
        json.dump({'property': pid, 'failed_obligations': failed}, open(f, 'w'), indent=1)
        for o in failed[:10]:
            print('open obligation: %s (%s) %s' % (o['name'], o['status'], o.get('detail', '')[:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, os.path.relpath(f, ROOT)))
    if nv:
        rc = 1
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    level = [c['level'] for c in man['checks'] if c['property'] == pid]
    level = level[0] if level else 'exploration'
    obs = proof['obligations']
    by = {}
    for o in obs:
        if o['status'] == 'proved':
            by[o.get('by', '?')] = by.get(o.get('by', '?'), 0) + 1
    cov = {
        'evaluations': total,
        'distinct_nontrivial': sum(s['distinct'] for s in stats.values()),
        'rule': 'bounded part: seeded generators (rac/gen.py, rac/contracts_*.py) make inputs over random '
                'valid objects/arguments; a case counts when its precondition held and its postcondition '
                'was evaluated on the rebuilt package; distinct by content',
        'samples': [json.loads(json.dumps({k: s['sample']}, default=str)) for k, s in stats.items()][:3],
        'bounded_contracts': {k: {x: s[x] for x in ('cases', 'skipped', 'distinct')}
                              for k, s in stats.items()},
        'builds': list(dirs),
        'known_finding_hits': known,
    }
    if prover:
        cov.update({
            'obligations': len(obs),
            'discharged': sum(o['status'] == 'proved' for o in obs),
            'checker_cmd': 'python3 lib/check.py %s  (proof/prove.py %s)' % (pid, pid),
            'trusted_base': proof.get('trusted_base', []),
            'discharged_by': by,
            'solver_seconds': round(sum(o.get('time', 0) for o in obs), 2),
            'functions_under_contract': proof.get('functions', []),
            'bounded_functions': proof.get('bounded', []),
            'vacuity_checks': proof.get('vacuity', 0),
            'obligation_list': [[o['name'], o['status'], o.get('by', ''), round(o.get('time', 0), 3)]
                                for o in obs][:600],
            'front_end_crosschecks': proof.get('crosschecks', 0),
        })
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': proof.get('assumptions', []) + notes[:10],
          'wall_s': round(time.time() - t0, 2), 'violations': nv}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d contract evaluations, %d/%d obligations, %.1f s, exit %d' % (
        pid, tier, total, cov.get('discharged', 0), cov.get('obligations', 0),
        time.time() - t0, rc))
    return rc


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
