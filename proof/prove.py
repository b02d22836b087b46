"""Deductive part of a check: python prove.py PID TIER OUT.json TMP

Parses the kernels from /repo's current source, generates the obligations of the functions listed for
the property in ptable.py and discharges them on all cores.  Task = (engine, unit, config, shard).
A construct the front end does not cover, or a contract that no longer fits the shape of the code, makes
the unit `undecided`: it is reported as such, never counted as proved, and left to the bounded part.
"""
import json, os, sys, time, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
REPO = os.environ.get('VERIF_REPO', '/repo')


def run_task(task):
    import ptable
    t0 = time.time()
    try:
        r = ptable.run(task)
    except BaseException:
        r = {'crash': traceback.format_exc()}
    r['task'] = task
    r['wall'] = time.time() - t0
    return r


def child(task, conn):
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(run_task(task)))
    t.start()
    t.join()
    conn.send(res[0] if res else {'task': task, 'crash': 'no result'})
    conn.close()


def schedule(tasks, njobs, deadline):
    """one process per task, at most njobs at a time"""
    todo, live, out = list(tasks), [], []
    while todo or live:
        while todo and len(live) < njobs:
            t = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(t, b))
            p.start()
            b.close()
            live.append((p, a, t, time.time()))
        nxt = []
        for p, a, t, s in live:
            if a.poll():
                try:
                    out.append(a.recv())
                    if any(o['status'] != 'proved' and not o.get('known') for o in out[-1].get('obligations', [])):
                        deadline = min(deadline, time.time() + 40)     # the verdict is known
                except EOFError:
                    out.append({'task': t, 'crash': 'prover process ended'})
                p.join()
            elif not p.is_alive():
                out.append({'task': t, 'crash': 'prover process ended (%s)' % p.exitcode})
            elif time.time() > deadline:
                p.kill()
                out.append({'task': t, 'timeout': True})
            else:
                nxt.append((p, a, t, s))
        live = nxt
        time.sleep(0.01)
    return out


def main():
    pid, tier, outf, tmp = sys.argv[1:5]
    import ptable
    t0 = time.time()
    tasks = ptable.tasks(pid, tier)
    deadline = time.time() + (500 if tier == 'quick' else 2500)
    res = schedule(tasks, int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4)), deadline)
    obs, notes, funcs, bounded = [], [], set(), set(ptable.bounded(pid))
    vac = cross = 0
    for r in res:
        name = '%s' % (r['task'],)
        if r.get('crash'):
            notes.append('UNDECIDED %s: prover failure: %s' % (name, r['crash'].strip().splitlines()[-1]))
            print(name, r['crash'])
            bounded.add(name)
            continue
        if r.get('timeout'):
            notes.append('UNDECIDED %s: time' % name)
            bounded.add(name)
            continue
        if r.get('undecided'):
            notes.append('UNDECIDED %s: %s' % (r['unit'], r['undecided']))
            bounded.add(r['unit'] + ' (undecided on this tree: %s)' % r['undecided'])
            continue
        obs += r['obligations']
        funcs |= set(r.get('functions', []))
        vac += r.get('vacuity', 0)
        cross += r.get('crosschecks', 0)
        notes += r.get('notes', [])
    notes = sorted(set(notes))
    undecided = [n for n in notes if n.startswith('UNDECIDED')]
    if tasks and not obs and not undecided:
        print('no obligations generated for %s' % pid)
        sys.exit(3)
    json.dump({'obligations': obs, 'notes': notes, 'functions': sorted(funcs), 'bounded': sorted(bounded),
               'trusted_base': ptable.TRUSTED, 'assumptions': ptable.assumptions(pid) + notes,
               'vacuity': vac, 'crosschecks': cross, 'wall': time.time() - t0}, open(outf, 'w'))
    print('%s: %d obligations, %d open, %d undecided units, %.1f s' % (
        pid, len(obs), sum(o['status'] != 'proved' for o in obs), len(undecided), time.time() - t0))


if __name__ == '__main__':
    main()
