"""Which units (functions under contract, lemmas) decide which property, and how a unit is run."""
import os, sys, time
REPO = os.environ.get('VERIF_REPO', '/repo')
TRUSTED = [
    'front end proof/fparse.py (Fortran subset) and VC generator proof/fexec.py; cross-checked by running '
    'the generator on concrete inputs against the compiled kernels (crosschecks)',
    'z3 4.x (python bindings), cvc5 1.1.2, and proof/ratfun.py (polynomial identity after clearing '
    'denominators shown non-zero by z3)',
    'integers and reals are mathematical: overflow and rounding are outside the proof (bounded part)',
    'gfortran, f2py and numpy implement the language semantics assumed by the front end',
]

# unit -> number of shards
F = {}
PROPS = {}


def use(pid, *units):
    PROPS.setdefault(pid, [])
    for u in units:
        if u not in PROPS[pid]:
            PROPS[pid].append(u)


use('C01', 'bspline.findspan', 'bspline.findmult', 'bspline.findspanmult', 'bsp.findspan', 'bsp.findmult',
    'bsp.findspanmult')
use('C02', 'bspline.findspan', 'bspline.basisfuns', 'bsp.evalbasisfuns')
use('C03', 'bspline.findspan', 'bspline.dersbasisfuns')
use('C04', 'bspline.curvepoint', 'bspline.surfacepoint', 'bsp.evaluate0', 'bsp.evaluate1', 'bsp.evaluate2',
    'bsp.evaluate3')
use('C05', 'bspline.dersbasisfuns', 'bspeval.tensorprod1', 'bspeval.tensorprod2', 'bspeval.tensorprod3', 'bspeval.rationalize')
use('C27', 'bsp.greville')
# absence of out-of-bounds accesses, undefined values and divisions by zero in every kernel under contract
use('C28', 'bspline.findspan', 'bspline.findmult', 'bspline.findspanmult', 'bspline.basisfuns', 'bspline.dersbasisfuns',
    'bspline.curvepoint', 'bspline.surfacepoint', 'bsp.findspan', 'bsp.findmult', 'bsp.findspanmult', 'bsp.evalbasisfuns',
    'bsp.greville', 'bsp.evaluate0', 'bsp.evaluate1', 'bsp.evaluate2', 'bsp.evaluate3', 'bspeval.tensorprod1',
    'bspeval.tensorprod2', 'bspeval.tensorprod3', 'bspeval.rationalize')
INSERT = ['bspline.findspanmult', 'bspline.insertknot', 'bsp.insertknot']
use('C01', 'lemma.count_run', 'lemma.first_not_below')
use('C02', 'lemma.basis_window', 'lemma.basis_positive', 'lemma.basis_unity')
use('C03', 'lemma.basis_derivative', 'lemma.derivative_closed')
use('C07', 'nurbs.insert', *INSERT, 'lemma.count_run', 'lemma.first_not_below', 'lemma.boehm_stable', 'lemma.boehm_basis',
    'lemma.boehm_curve', 'lemma.boehm_repeat')
use('C28', 'bspline.insertknot', 'bsp.insertknot')
DERS = ['bsp.%s%d' % (k, d) for k in ('gradient', 'hessian', 'thirdder', 'fourthder') for d in (1, 2, 3)]
use('C05', 'bspeval.interpolate', *DERS)
use('C06', 'bspeval.determinant', 'bspeval.inverse', 'bspeval.interpolate', 'bspeval.geometrymap', *DERS[:3], 'lemma.inverse')
use('C28', 'bspeval.determinant', 'bspeval.inverse', 'bspeval.interpolate', 'bspeval.geometrymap', *DERS)
CLAMPS = ['bspline.clampknot.kntins', 'bspline.clampknot', 'bsp.clamp', 'bspline.unclampknot', 'bsp.unclamp']
CUTS = ['bspline.curvepntbycornercut', 'bsp.extract']
TABLES = ['iga.gausslegendrerule', 'iga.gausslobattorule', 'bsp.evalbasisfunsders', 'iga.basisdata', 'iga.basisdatacol']
BOEHM = ['lemma.boehm_stable', 'lemma.boehm_basis', 'lemma.boehm_curve', 'lemma.boehm_repeat']
use('C01', 'bsp.spanindex', 'lemma.span_count')
use('C03', 'bsp.evalbasisfunsders')
use('C11', *CLAMPS, *BOEHM, 'lemma.count_run', 'lemma.first_not_below', 'lemma.first_above', 'lemma.basis_local', 'lemma.unclamp_inverse')
use('C12', 'lemma.basis_local')
use('C13', *CUTS, *BOEHM, 'lemma.count_run', 'lemma.first_not_below', 'lemma.first_above', 'lemma.basis_at_knot')
use('C22', 'iga.knotvector', 'lemma.blocks')
use('C26', *TABLES, 'lemma.span_count')
use('C27', 'iga.greville', 'iga.gausslobattorule')
use('C28', *CLAMPS, *CUTS, *TABLES, 'bsp.spanindex', 'iga.knotvector', 'iga.greville')
use('C09', 'nurbs.remove')
use('C10', 'nurbs.elevate')
use('C11', 'nurbs.clamp', 'nurbs.unclamp')
use('C08', 'nurbs.refine')
use('C12', 'nurbs.slice')
use('C13', 'nurbs.extract', 'nurbs.boundary')
use('C14', 'nurbs.transpose', 'nurbs.swap', 'nurbs.reverse', 'nurbs.remap')
MODIFIERS = ['nurbs.insert', 'nurbs.remove', 'nurbs.elevate', 'nurbs.clamp', 'nurbs.unclamp', 'nurbs.extract', 'nurbs.boundary',
             'nurbs.transpose', 'nurbs.swap', 'nurbs.reverse', 'nurbs.remap']
CTORS = ['nurbs.__init__', 'nurbs.__init__:default']
MOVES = ['nurbs.transform', 'nurbs.move']
TRANSFORM = ['transform.__init__', 'transform.__call__', 'transform.copy', 'transform.inverse', 'transform.compose',
             'transform.translate', 'transform.scale', 'transform.rotate']
use('C15', *CTORS, 'nurbs.accessors', 'nurbs.copy', 'nurbs.clone', 'nurbs.rebuild')
use('C16', *MODIFIERS, *CTORS, *MOVES)
use('C17', *MODIFIERS, *CTORS, *MOVES)
use('C18', *TRANSFORM, *MOVES)
use('C19', 'cad.line', 'cad.linear', 'cad.circle', 'lemma.bezier_piece', 'lemma.arc')
use('C20', 'cad.extrude', 'cad.sweep', 'cad.ruled', 'lemma.bezier_piece')
use('C22', 'cad.grid', 'lemma.linear_precision')
use('C15', 'lemma.linear_precision')
use('C16', 'cad.line', 'cad.linear', 'cad.circle', 'cad.extrude', 'cad.sweep', 'cad.ruled', 'cad.grid')
use('C04', 'nurbs.__call__', 'nurbs.evaluate')
use('C05', 'nurbs.gradient', 'nurbs.hessian', 'nurbs.derivative')
use('C06', 'nurbs.gradient', 'nurbs.hessian', 'nurbs.derivative')
# configurations of a unit which concern a property (all if not listed)
ONLY = {('C05', u): (lambda g: not g['mapped']) for u in ('nurbs.gradient', 'nurbs.hessian', 'nurbs.derivative')}
ONLY.update({('C06', u): (lambda g: g['mapped']) for u in ('nurbs.gradient', 'nurbs.hessian', 'nurbs.derivative')})
ONLY.update({('C05', u): (lambda g: g['name'] == 'parametric') for u in DERS})
ONLY.update({('C06', u): (lambda g: g['name'] == 'mapped') for u in DERS})
# obligations of these kinds decide the property (all kinds if not listed)
KINDS = {'C16': ('frame', 'invariant'), 'C17': ('error', 'frame', 'call')}
SHARDS = {'bspeval.rationalize:dim 3, order 4': 6, 'bspeval.rationalize:dim 3, order 3': 2,
          'bspeval.rationalize:dim 2, order 4': 2, 'bspeval.tensorprod3:order 4': 4, 'bspline.dersbasisfuns': 6,
          'bsp.insertknot': 3, 'bspline.curvepntbycornercut': 6, 'bspline.clampknot:l=True r=True': 3, 'bsp.extract': 2, 'lemma.boehm_basis': 4}
# configurations checked on every change; the thorough tier checks all of them
QUICK = {'nurbs.refine': lambda g: g['dim'] == 1 or g.get('values', 1) is None or (g['dim'], g['axis']) == (2, -1),
         'nurbs.slice': lambda g: g['dim'] == 1 or (g['dim'], g['axis']) in ((2, -1), (3, 1))}
PYSHARDS = {'nurbs.refine': 6, 'nurbs.slice': 2, 'nurbs.derivative': 2}
SAFETY_ONLY = {'C28'}
sys.path.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import plan


def bounded(pid):
    return plan.P[pid]['bounded']


def assumptions(pid):
    return ['assumed: ' + x for x in plan.P[pid]['assume']]


def tasks(pid, tier):
    import fspec
    import pyspec, pyspec2, pyspec3
    out = []
    for u in PROPS.get(pid, []):
        if u.startswith('lemma.'):
            out += [(pid, u, 0, sh, SHARDS.get(u, 1)) for sh in range(SHARDS.get(u, 1))]
            continue
        if u in pyspec.UNITS:
            sel = ONLY.get((pid, u), lambda g: True)
            quick = QUICK.get(u, lambda g: True) if tier == 'quick' else lambda g: True
            n = PYSHARDS.get(u, 1)
            out += [(pid, u, k, sh, n) for k, g in enumerate(pyspec.UNITS[u][1]) if sel(g) and quick(g) for sh in range(n)]
            continue
        cfgs = (fspec.C[u].get('configs') or [None]) if u in fspec.C else [None]
        for k in range(len(cfgs)):
            if cfgs[k] and not ONLY.get((pid, u), lambda g: True)(cfgs[k]):
                continue
            n = SHARDS.get(u + (':' + cfgs[k]['name'] if cfgs[k] else ''), 1)
            for sh in range(n):
                out.append((pid, u, k, sh, n))
    out.sort(key=lambda t: -t[4])        # the largest first
    return out


class Enough(Exception):
    pass



def source():
    p = os.path.join(REPO, 'igakit', 'igalib.f90')
    return open(p).read()


def run(task):
    pid, u, k, sh, n = task
    import fspec
    if u in fspec.C:
        return run_fortran(u, k, sh, n, pid in SAFETY_ONLY)
    import pyspec, pyspec2, pyspec3
    if u in pyspec.UNITS:
        return run_python(pid, u, k, sh, n)
    if u.startswith('lemma.'):
        return run_lemma(u, sh, n)
    raise KeyError(u)


def run_lemma(u, sh, n):
    """a mathematical lemma the contracts rest on (no code of the tree occurs in it)"""
    import flemmas, prover
    out, vac = [], 0
    for i, ob in enumerate(flemmas.L[u][0]()):
        if i % n != sh:
            continue
        t = time.time()
        if ob.kind == 'vacuity':
            vac += 1
            if prover.vacuous(ob.hyps):
                out.append({'name': u + '/vacuity', 'status': 'open', 'time': time.time() - t, 'kind': 'vacuity',
                            'detail': 'the assumptions are contradictory'})
            continue
        r = prover.prove(ob)
        out.append({'name': '%s/%s' % (u, ob.name), 'status': 'proved' if r[0] == 'proved' else 'open', 'kind': 'lemma',
                    'by': r[1] if r[0] == 'proved' else '', 'time': time.time() - t})
    return {'unit': u, 'obligations': out, 'functions': [u], 'vacuity': vac}


def run_python(pid, u, k, sh=0, n=1):
    import pyspec, pyspec2, pycore, pyload, sym, prover, z3
    f, cfgs = pyspec.UNITS[u]
    cfg = cfgs[k]
    unit = '%s(%s)' % (u, pyspec.cname(cfg))
    kinds = KINDS.get(pid)
    out, vac, live, names, cnt = [], 0, 0, {}, 0
    try:
        L = pyload.Loader()
        for c, r in sym.explore(lambda c: f(L, c, cfg)):
            path = names.setdefault(tuple(c.taken), 'path %d' % (len(names) + 1))
            if not live or vac < 3:
                vac += 1
                live += not prover.vacuous(c.facts)
            for ob in c.obs:
                if kinds and ob.kind not in kinds:
                    continue
                cnt += 1
                if cnt % n != sh:
                    continue
                t = time.time()
                r = pycore.discharge(ob)
                o = {'name': '%s/%s/%s' % (unit, path, ob.name), 'status': 'proved' if r[0] == 'proved' else 'open',
                     'by': r[1] if r[0] == 'proved' else '', 'time': time.time() - t, 'kind': ob.kind}
                if r[0] != 'proved':
                    o['detail'] = '%s %s' % (r[1], model_text(r[2]) if len(r) > 2 else '')
                out.append(o)
                if o['status'] == 'open' and sum(x['status'] == 'open' for x in out) >= 3:
                    raise Enough
    except Enough:
        pass                                   # the unit fails: no need to attempt the rest of it
    except sym.Unsupported as x:
        return {'unit': unit, 'undecided': '%s: %s' % (type(x).__name__, str(x)[:200])}
    except (AttributeError, TypeError, KeyError, IndexError, ValueError, NotImplementedError, AssertionError, SyntaxError,
            RecursionError, z3.Z3Exception) as x:
        return {'unit': unit, 'undecided': 'front end: %s: %s' % (type(x).__name__, str(x)[:200])}
    if not live:
        out.append({'name': unit + '/vacuity', 'status': 'open', 'time': 0, 'kind': 'vacuity',
                    'detail': 'no feasible path'})
    return {'unit': unit, 'obligations': out, 'functions': ['igakit.' + u], 'vacuity': vac}


def dead(hyps):
    """do the branch decisions alone (relations between integer scalars) exclude the path?"""
    import z3
    from terms import Forall

    def scalar(t):
        return (t.num_args() or not z3.is_app(t) or t.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT)) and \
            not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args()) and \
            all(scalar(x) for x in t.children())
    s = z3.Solver()
    s.set('timeout', 500)
    for h in hyps:
        if z3.is_expr(h) and not z3.is_quantifier(h) and scalar(h):
            s.add(h)
    return s.check() == z3.unsat


def run_fortran(key, k, sh, n, safety=False):
    import fspec, fexec, prover
    from fparse import parse, FrontendError
    from terms import Forall
    import z3
    cfg = (fspec.C[key].get('configs') or [None])[k]
    unit = key + (':' + cfg['name'] if cfg else '')
    try:
        mods = parse(source())
        e = fexec.Engine(mods, fspec.C)
        obs = e.verify(key, cfg)
    except (FrontendError, fexec.Unsupported, KeyError, NotImplementedError, IndexError, AttributeError, TypeError, z3.Z3Exception) as x:
        return {'unit': unit, 'undecided': '%s: %s' % (type(x).__name__, str(x)[:200])}
    known = fspec.C[key].get('known', {})
    out, nopen = [], 0
    for i, ob in enumerate(obs):
        if i % n != sh:
            continue
        if safety and ob.kind in ('post', 'recorded') and 'post-defined' not in ob.name and '/side:' not in ob.name:
            continue                  # values: the properties named after them; nothing else depends on them
        t = time.time()
        r = prover.prove(ob)
        o = {'name': ob.name, 'status': 'proved' if r[0] == 'proved' else 'open',
             'by': r[1] if r[0] == 'proved' else '', 'time': time.time() - t, 'kind': ob.kind}
        if r[0] != 'proved':
            o['detail'] = '%s %s' % (r[1], model_text(r[2]))
        out.append(o)
        if r[0] != 'proved' and not any(pat in o['name'] for pat in known):
            nopen += 1
            if nopen >= 3:
                break                          # the unit fails: no need to attempt the rest of it
    # a recorded finding: the obligation stays open and the recorded deviation is proved in its place
    for pat, (f, rec) in known.items():
        main = [o for o in out if pat in o['name']]
        recd = [o for o in out if rec in o['name']]
        if main and all(o['status'] == 'proved' for o in main):
            out = [o for o in out if o not in recd]
        elif recd and all(o['status'] == 'proved' for o in recd):
            for o in main:
                o['known'] = f
    vac = 0
    if sh == 0:
        for what, hyps in [('precondition', e.pre_hyps)] + [('return path', y.hyps) for s, y in e.final_states]:
            r = prover.vacuous(hyps)
            vac += 1
            if r and what == 'return path' and dead(hyps):
                continue              # branches that exclude one another: no such path
            if r:
                out.append({'name': unit + '/vacuity:' + what, 'status': 'open', 'time': 0,
                            'detail': 'the assumptions are contradictory', 'kind': 'vacuity'})
    return {'unit': unit, 'obligations': out, 'functions': [unit] + ['%s (inlined in %s)' % (x, unit) for x in sorted(e.inlined)],
            'vacuity': vac}


def model_text(m):
    if m is None:
        return ''
    try:
        s = ', '.join('%s=%s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)
        return ('counterexample candidate: ' + s)[:400]
    except Exception:
        return ''
