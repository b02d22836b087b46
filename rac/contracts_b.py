"""Executable contracts, part B: representation, frames, argument checks, transformations,
primitives and constructions, file formats, quadrature, plotting."""
import os, struct, shutil, tempfile
import numpy as np
import oracle as O
import gen as G
import contracts_a as A_
from contracts_a import Fail, need, close, same_geometry, EPS, geom_pts, nrb_arr, boehm, grev

REG = {}


def contract(pid, weight=1.0):
    def deco(cls):
        REG.setdefault(pid, []).append((cls.__name__, cls, weight))
        return cls
    return deco


def ev(K, A, pts):
    return O.eval_points(K, A, pts)


def well_formed(nrb, msg):
    K, A = nrb_arr(nrb)
    need(A.ndim == len(K) + 1, '%s: array has %d axes for %d knot vectors', msg, A.ndim, len(K))
    need(A.shape[-1] >= 4, '%s: fewer than 4 components', msg)
    need(A.dtype == np.dtype('d'), '%s: array dtype %s', msg, A.dtype)
    need(nrb.array.flags.c_contiguous, '%s: array not contiguous', msg)
    need(np.all(np.isfinite(A)), '%s: array not finite', msg)
    for i, U in enumerate(K):
        p = len(U) - A.shape[i] - 1
        need(p >= 1, '%s: degree %d on axis %d', msg, p, i)
        need(U.ndim == 1 and U.dtype == np.dtype('d'), '%s: knots dtype', msg)
        need(np.all(np.diff(U) >= 0), '%s: knots of axis %d not sorted: %s', msg, i, U.tolist())
        need(U[p] < U[-p - 1], '%s: empty domain on axis %d', msg, i)
        n = A.shape[i] - 1
        need(U[p] < U[p + 1] and U[n] < U[n + 1], '%s: empty end span on axis %d: p=%d U=%s', msg, i,
             p, U.tolist())
        for x in set(U[p + 1:n + 1].tolist()):
            need(np.sum(U == x) <= p, '%s: interior knot %r of axis %d more than p=%d times', msg,
                 x, i, p)
        need(nrb.degree[i] == p and nrb.shape[i] == A.shape[i], '%s: degree/shape inconsistent', msg)
    need(nrb.dim == len(K), '%s: dim', msg)


# ---------------------------------------------------------------- C15 representation
@contract('C15')
class Construct:
    @staticmethod
    def gen(rng):
        o = G.obj(rng)
        K, A = G.arr(o)
        shape = A.shape[:-1]
        sdim = rng.choice([2, 3, 4])
        wmode = rng.choice(['none', 'kw', 'tuple']) if sdim < 4 else 'none'
        fm = rng.choice(['none', 'scalar', 'vector'])
        C = rng.array(shape + (sdim,))
        if sdim == 4:
            C[..., 3] = rng.array(shape, 0.5, 2)
        return {'knots': o['knots'], 'C': C.tolist(), 'w': rng.array(shape, 0.5, 2).tolist(),
                'wmode': wmode, 'fm': fm, 'lists': rng.chance(0.3),
                'F': rng.array(shape + ((rng.randint(1, 3),) if fm == 'vector' else ())).tolist()}

    @staticmethod
    def check(c, ig):
        arr = (lambda x: x) if c['lists'] else (lambda x: np.array(x))
        C, w, F = np.array(c['C']), np.array(c['w']), np.array(c['F'])
        knots = [arr(k) for k in c['knots']]
        kw = {}
        args = [knots]
        if c['wmode'] == 'tuple':
            args.append((arr(c['C']), arr(c['w'])))
        else:
            args.append(arr(c['C']))
            if c['wmode'] == 'kw':
                kw['weights'] = arr(c['w'])
        if c['fm'] != 'none':
            kw['fields'] = arr(c['F'])
        nrb = ig.NURBS(*args, **kw)
        well_formed(nrb, 'constructor')
        sd = C.shape[-1]
        if sd == 4:
            W = C[..., 3]
            P = C[..., :3] / W[..., None]
        else:
            W = w if c['wmode'] != 'none' else np.ones(C.shape[:-1])
            P = np.zeros(C.shape[:-1] + (3,))
            P[..., :sd] = C
        close(nrb.weights, W, 'weights', 1e-14)
        close(nrb.points, P, 'points', 1e-13)
        close(nrb.control, np.concatenate([P * W[..., None], W[..., None]], -1), 'control', 1e-13)
        close(nrb.control, nrb.array[..., :4], 'control is the first four components', 0)
        for U, V in zip(nrb.knots, c['knots']):
            need(np.array_equal(U, V), 'knots')
        need(nrb.dim == len(c['knots']) and nrb.shape == C.shape[:-1], 'dim/shape')
        need(nrb.degree == tuple(len(k) - n - 1 for k, n in zip(c['knots'], nrb.shape)), 'degree')
        if c['fm'] == 'none':
            need(nrb.fields is None, 'fields without fields')
            need(nrb.array.shape[-1] == 4, 'components without fields')
        else:
            Fe = F if c['fm'] == 'vector' else F[..., None]
            close(nrb.fields, Fe, 'fields', 1e-13)
            close(nrb.array[..., 4:], Fe * W[..., None], 'stored fields are weighted', 1e-13)
        # accessors write-through: control/weights are views of the container
        if not c['lists']:
            need(np.shares_memory(nrb.control, nrb.array) and
                 np.shares_memory(nrb.weights, nrb.array), 'control/weights are not views')
        # reconstruct from the accessors
        n2 = ig.NURBS(nrb.knots, (nrb.points, nrb.weights), fields=nrb.fields)
        close(n2.array, nrb.array, 'rebuilt from points, weights, fields', 1e-12)
        n3 = ig.NURBS(nrb.knots, nrb.control, fields=nrb.fields)
        close(n3.array, nrb.array, 'rebuilt from control, fields', 1e-12)


@contract('C15', 0.3)
class Copies:
    """copies share no data with the original, clones equal it"""
    @staticmethod
    def gen(rng):
        return {'o': G.obj(rng, pmax=3, nspan=2), 'twice': rng.chance(0.3)}

    @staticmethod
    def check(c, ig):
        nrb = G.build(ig, c['o'])
        s = snap(nrb)
        copy, clone = nrb.copy(), nrb.clone()
        if c['twice']:
            copy, clone = copy.copy(), clone.clone()
        unchanged(copy, s, 'copy'); unchanged(clone, s, 'clone')
        need(type(copy) is type(nrb) and type(clone) is type(nrb), 'class of a copy')
        need(copy is not nrb and clone is not nrb, 'copy is the object')
        for x in [copy.array] + list(copy.knots):
            for y in [nrb.array] + list(nrb.knots):
                need(not np.shares_memory(x, y), 'copy shares memory with the original')
        for k in copy.knots:
            k[...] = 5.0
        copy.array[...] = 7.0
        unchanged(nrb, s, 'writing into the copy: original')
        unchanged(clone, s, 'writing into the copy: clone')


@contract('C15', 0.3)
class DefaultControl:
    """without control points the object is the identity map on its domain"""
    @staticmethod
    def gen(rng):
        dim = rng.randint(1, 3)
        K = [G.knots(rng, rng.randint(1, 4), rng.randint(1, 4), ['c', 'c']) for _ in range(dim)]
        F = rng.chance(0.3)
        return {'knots': K, 'seed': rng.randint(0, 10 ** 6)}

    @staticmethod
    def check(c, ig):
        K = c['knots']
        nrb = ig.NURBS(K)
        well_formed(nrb, 'default control')
        rng = G.Rng(c['seed'])
        for i, U in enumerate(K):
            p = 1
            while U[p] == U[p + 1]:
                p += 1
            need(nrb.degree[i] == p, 'degree guessed %d expected %d', nrb.degree[i], p)
        pts = [O.sample_params(p, U, rng, 2) for p, U in zip(nrb.degree, K)]
        C = nrb(*pts)
        E = np.zeros(C.shape)
        for i, x in enumerate(pts):
            sh = [1] * len(K)
            sh[i] = -1
            E[..., i] = np.array(x).reshape(sh)
        close(C, E, 'identity map', 1e-10)
        close(nrb.weights, np.ones(nrb.shape), 'weights', 0)


# ---------------------------------------------------------------- C16 frames
def random_op(rng, o):
    """an operation with valid arguments on object o, as [name, args, kwargs]"""
    K, A = G.arr(o)
    dim = len(K)
    ax = G.axis_of(rng, dim)
    p, U = G.degs(o)[ax], K[ax]
    a, b = O.domain(p, U)
    br = G.inner_breaks(p, U.tolist())
    op = rng.choice(['insert', 'refine', 'remove', 'elevate', 'clamp', 'unclamp', 'reverse', 'remap',
                     'transpose', 'swap', 'slice', 'extract', 'boundary', 'transform', 'translate',
                     'scale', 'rotate', 'call', 'evaluate', 'gradient', 'hessian', 'derivative',
                     'breaks', 'copy', 'clone', 'move'])
    if op == 'insert':
        return [op, [ax, G.new_knot(rng, p, U.tolist()), rng.randint(1, p)]]
    if op == 'refine':
        v = [G.new_knot(rng, p, U.tolist())] * rng.randint(1, p)
        x = G.new_knot(rng, p, U.tolist())
        if abs(x - v[0]) > 1e-3:
            v = v + [x]
        return [op, [ax, {'array': v}]]
    if op == 'remove':
        return [op, [ax, rng.choice(br) if br else G.new_knot(rng, p, U.tolist())]]
    if op == 'elevate':
        return [op, [ax, rng.randint(1, 2)]]
    if op in ('clamp', 'unclamp'):
        return [op, [ax, rng.choice([None, 0, 1])]]
    if op == 'reverse':
        return [op, rng.choice([[], [ax]])]
    if op == 'remap':
        return [op, [ax, rng.choice([None, a - 1.0]), rng.choice([None, b + 2.0])]]
    if op == 'transpose':
        return [op, rng.choice([[], [[int(t) for t in rng.shuffle(range(dim))]]])]
    if op == 'swap':
        return [op, [ax, G.axis_of(rng, dim)]]
    if op == 'slice':
        x, y = sorted([G.param(rng, p, U.tolist()), G.param(rng, p, U.tolist())])
        if y - x < 0.1 * (b - a) or any(1e-9 < abs(t - z) < 1e-3 for t in U for z in (x, y)):
            x, y = a, b
        return [op, [ax, x, y]]
    if op == 'extract':
        return [op, [ax, G.param(rng, p, U.tolist())]]
    if op == 'boundary':
        return [op, [ax, rng.randint(0, 1)]]
    if op == 'transform':
        return [op, [{'array': (np.eye(4) + np.vstack([rng.array((3, 4), -.5, .5),
                                                       np.zeros((1, 4))])).tolist()}]]
    if op in ('translate', 'move', 'scale'):
        return [op, [{'array': rng.array(3, 0.5, 2).tolist()}]]
    if op == 'rotate':
        return [op, [rng.uniform(-3, 3), rng.choice([0, 1, 2, {'array': rng.array(3, .1, 1).tolist()}])]]
    pts = [{'array': [G.param(rng, q, V.tolist()) for _ in range(2)]} for q, V in zip(G.degs(o), K)]
    if op == 'call':
        return [op, pts]
    if op in ('evaluate', 'gradient', 'hessian'):
        return [op, [None if rng.chance(0.5) else {'array': rng.array(A.shape[:-1]).tolist()}] + pts]
    if op == 'derivative':
        return [op, [rng.randint(1, 3), {'array': rng.array(A.shape[:-1]).tolist()}] + pts]
    if op == 'breaks':
        return [op, [ax, True]]
    return [op, []]


INPLACE = {'insert', 'refine', 'remove', 'elevate', 'clamp', 'unclamp', 'reverse', 'remap', 'transpose',
           'swap', 'transform', 'translate', 'scale', 'rotate', 'move'}


def mat_args(args):
    out = []
    for x in args:
        if isinstance(x, dict) and 'array' in x:
            out.append(np.array(x['array']))
        elif isinstance(x, list):
            out.append(list(x))
        else:
            out.append(x)
    return out


def snap(nrb):
    return [k.copy() for k in nrb.knots], nrb.array.copy()


def unchanged(nrb, s, msg):
    need(len(nrb.knots) == len(s[0]) and all(np.array_equal(x, y) for x, y in zip(nrb.knots, s[0])),
         '%s: knots changed', msg)
    need(nrb.array.shape == s[1].shape and np.array_equal(nrb.array, s[1]),
         '%s: control points changed', msg)


def apply(nrb, op, args):
    if op == 'call':
        return nrb(*args)
    return getattr(nrb, op)(*args)


@contract('C16')
class Frame:
    @staticmethod
    def gen(rng):
        o = G.obj(rng, pmax=3, nspan=2)
        return {'o': o, 'op': random_op(rng, o), 'extra': rng.chance(0.5)}

    @staticmethod
    def check(c, ig):
        o = c['o']
        op, args = c['op']
        K, A = G.arr(o)
        nrb = G.build(ig, o)
        copy, clone = nrb.copy(), nrb.clone()
        need(not any(np.shares_memory(x, y) for x in [copy.array] + list(copy.knots)
                     for y in [nrb.array] + list(nrb.knots)), 'copy shares memory')
        s = snap(nrb)
        unchanged(copy, s, 'copy'); unchanged(clone, s, 'clone')
        a = mat_args(args)
        keep = [x.copy() if isinstance(x, (np.ndarray, list)) else x for x in a]
        r = apply(nrb, op, a)
        for x, y in zip(a, keep):
            need(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y,
                 '%s modified its argument', op)
        unchanged(copy, s, '%s on the original: copy' % op)
        unchanged(clone, s, '%s on the original: clone' % op)
        if op in INPLACE:
            need(r is nrb, '%s does not return the object', op)
            if op not in ('remove',):
                pass
        else:
            unchanged(nrb, s, '%s' % op)
        if op in ('slice', 'extract', 'boundary', 'copy'):
            need(r is not nrb, '%s returns the same object', op)
            if op != 'slice':
                need(not np.shares_memory(r.array, clone.array), '%s shares control points', op)
            sr = snap(r)
            for x in (nrb, clone):
                pass
            # in-place edits of the result stay there
            r.array[...] = 7.0
            unchanged(clone, s, 'writing into the result of %s' % op)
        elif op in ('call', 'evaluate', 'gradient', 'hessian', 'derivative'):
            need(not np.shares_memory(r, clone.array), '%s result aliases the object', op)
        # the state of the modified object is independent of the clone
        if op in INPLACE and nrb.array is not clone.array and op not in ('remap',):
            if nrb.array.shape != clone.array.shape or not np.shares_memory(nrb.array, clone.array):
                nrb.array[...] += 1
                unchanged(clone, s, 'writing into the object after %s: clone' % op)
                unchanged(copy, s, 'writing into the object after %s: copy' % op)


@contract('C16', 0.7)
class Sequence:
    """a history of operations keeps the object well formed"""
    @staticmethod
    def gen(rng):
        o = G.obj(rng, pmax=3, nspan=2)
        return {'o': o, 'seed': rng.randint(0, 10 ** 9), 'n': rng.randint(2, 6)}

    @staticmethod
    def check(c, ig):
        o = c['o']
        nrb = G.build(ig, o)
        well_formed(nrb, 'constructor')
        rng = G.Rng(c['seed'])
        done = []
        for _ in range(c['n']):
            if nrb.dim == 0 or nrb.array.size > 6000:
                break
            cur = {'knots': [k.tolist() for k in nrb.knots], 'array': nrb.array.tolist()}
            op, args = random_op(rng, cur)
            a = mat_args(args)
            before = nrb.clone()
            s = snap(before)
            r = apply(nrb, op, a)
            done.append(op)
            unchanged(before, s, 'clone taken before %s' % '+'.join(done))
            if op in ('slice', 'extract', 'boundary', 'copy', 'clone'):
                unchanged(nrb, s, '+'.join(done))
                nrb = r
            if nrb.dim:
                well_formed(nrb, 'after ' + '+'.join(done))


@contract('C16', 0.4)
class FrameCad:
    @staticmethod
    def gen(rng):
        f = rng.choice(['extrude', 'revolve', 'ruled', 'sweep', 'coons', 'compat', 'join', 'refine'])
        kw = dict(nf=0, pmax=2, nspan=2)
        if f in ('extrude', 'revolve'):
            objs = [G.obj(rng, dim=rng.randint(1, 2), **kw)]
        elif f == 'ruled' or f == 'compat':
            d = rng.randint(1, 2)
            objs = [G.obj(rng, dim=d, **kw) for _ in range(2)]
        elif f == 'sweep':
            objs = [G.obj(rng, dim=rng.randint(1, 2), **kw), G.obj(rng, dim=1, **kw)]
        elif f == 'coons':
            objs = coons_objs(rng)
        elif f == 'join':
            d = rng.randint(1, 2)
            objs = [G.obj(rng, dim=d, **kw) for _ in range(2)]
        else:
            objs = [G.obj(rng, **kw)]
        return {'f': f, 'objs': objs, 'ax': 0}

    @staticmethod
    def check(c, ig):
        n = [G.build(ig, o) for o in c['objs']]
        s = [snap(x) for x in n]
        cl = [x.clone() for x in n]
        f = c['f']
        keep = None
        if f == 'extrude':
            v = np.array([1., 2., 3.]); keep = v
            r = ig.cad.extrude(n[0], v)
        elif f == 'revolve':
            v = np.array([1., 2., 3.]); keep = v
            r = ig.cad.revolve(n[0], v, np.array([0, 1., 1]), 1.0)
        elif f == 'ruled':
            r = ig.cad.ruled(*n)
        elif f == 'sweep':
            r = ig.cad.sweep(*n)
        elif f == 'coons':
            r = ig.cad.coons([n[:2], n[2:]])
        elif f == 'compat':
            r = ig.cad.compat(*n)
        elif f == 'join':
            r = ig.cad.join(n[0], n[1], c['ax'])
        else:
            r = ig.cad.refine(n[0], 2, 3)
        if keep is not None:
            need(keep.tolist() == [1., 2., 3.], '%s modified its argument', f)
        for x, y, t in zip(n, cl, s):
            unchanged(x, t, '%s: operand' % f)
            unchanged(y, t, '%s: clone of operand' % f)
            for z in (r if isinstance(r, list) else [r]):
                need(z is not x, '%s returned its operand', f)
        for z in (r if isinstance(r, list) else [r]):
            well_formed(z, f)


# ---------------------------------------------------------------- C17 bad arguments
@contract('C17')
class BadArgs:
    @staticmethod
    def gen(rng):
        o = G.obj(rng, pmax=3, nspan=3)
        K, A = G.arr(o)
        dim = len(K)
        ax = G.axis_of(rng, dim)
        p, U = G.degs(o)[ax], K[ax]
        a, b = O.domain(p, U)
        h = b - a
        out = rng.choice([a - 0.1 * h, b + 0.1 * h, float(np.nextafter(a, -9e9)),
                          float(np.nextafter(b, 9e9)), b + 100.0, a - 100.0])
        pts = [[G.param(rng, q, V.tolist()) for _ in range(2)] for q, V in zip(G.degs(o), K)]
        bad = [list(x) for x in pts]
        bad[ax if ax >= 0 else ax + dim][rng.randint(0, 1)] = out
        br = G.inner_breaks(p, U.tolist())
        x = rng.choice(br) if br else 0.5 * (a + b)
        s = O.mult_of(U, x)
        far = dim + rng.randint(0, 2) if rng.chance(0.5) else -dim - 1 - rng.randint(0, 2)
        kind = rng.choice(['insert-out', 'insert-many', 'insert-end', 'remove-out', 'refine-out',
                           'refine-many', 'elevate-neg', 'slice-out', 'slice-empty', 'extract-out',
                           'boundary-side', 'clamp-side', 'unclamp-side', 'unclamp-cont', 'remap-rev',
                           'axis', 'call-out', 'evaluate-out', 'gradient-out', 'hessian-out',
                           'derivative-out', 'order', 'fields-shape', 'transpose-len', 'ctor',
                           'matrix', 'mapped-high', 'remove-neg'])
        c = {'o': o, 'axis': ax, 'kind': kind, 'out': out, 'pts': bad}
        if kind in ('insert-many', 'refine-many'):
            c['val'], c['times'] = x, p - min(s, p) + rng.randint(1, 3)
        elif kind == 'axis':
            c['op'] = rng.choice(['insert', 'remove', 'refine', 'elevate', 'clamp', 'unclamp', 'slice',
                                  'extract', 'boundary', 'remap', 'reverse', 'swap', 'breaks',
                                  'spans', 'greville', 'lagrange', 'lobatto'])
            c['axis'], c['val'] = far, x
        elif kind == 'ctor':
            c['how'] = rng.choice(['short', 'four', 'dim', 'degree0', 'rank', 'weights', 'both',
                                   'sdim1', 'sdim5', 'fields', 'none', 'wonly'])
        elif kind == 'order':
            c['order'] = rng.choice([0, -1, 5, 6])
        elif kind == 'mapped-high':
            c['order'] = rng.choice([2, 3, 4])
        elif kind in ('boundary-side', 'clamp-side', 'unclamp-side'):
            c['side'] = rng.choice([2, -1, 3])
        elif kind == 'unclamp-cont':
            c['cont'] = rng.choice([p, p + 1, -1])
        elif kind == 'insert-end':
            c['side'] = rng.randint(0, 1)
        elif kind == 'fields-shape':
            c['api'] = rng.choice(['call', 'evaluate', 'gradient', 'hessian', 'derivative'])
        return c

    @staticmethod
    def check(c, ig):
        o, ax, kind = c['o'], c['axis'], c['kind']
        K, A = G.arr(o)
        dim = len(K)
        nrb = G.build(ig, o)
        s = snap(nrb)
        arr0, kn0 = nrb.array, nrb.knots
        try:
            BadArgs.run(c, ig, nrb, K, A, dim, ax)
        except (AssertionError, ValueError, IndexError, TypeError, KeyError, ig.igalib_error):
            pass
        else:
            if kind == 'insert-end':
                return 'skip'
            raise Fail('%s accepted: %s' % (kind, {k: v for k, v in c.items() if k not in ('o', 'pts')}))
        unchanged(nrb, s, 'rejected call (%s)' % kind)

    @staticmethod
    def run(c, ig, nrb, K, A, dim, ax):
        kind, out = c['kind'], c['out']
        p, U = (G.degs(c['o'])[ax], K[ax]) if kind != 'axis' else (None, None)
        if kind == 'insert-out':
            nrb.insert(ax, out)
        elif kind == 'insert-many':
            nrb.insert(ax, c['val'], c['times'])
        elif kind == 'insert-end':
            x = O.domain(p, U)[c['side']]
            if O.mult_of(U, x) < p:
                return
            nrb.insert(ax, x, 1)
        elif kind == 'remove-out':
            nrb.remove(ax, out)
        elif kind == 'remove-neg':
            nrb.remove(ax, 0.5 * (U[p] + U[-p - 1]), -1)
        elif kind == 'refine-out':
            nrb.refine(ax, [0.5 * (U[p] + U[-p - 1]), out])
        elif kind == 'refine-many':
            nrb.refine(ax, [c['val']] * c['times'])
        elif kind == 'elevate-neg':
            nrb.elevate(ax, -1)
        elif kind == 'slice-out':
            a, b = O.domain(p, U)
            nrb.slice(ax, *((out, b) if out < a else (a, out)))
        elif kind == 'slice-empty':
            a, b = O.domain(p, U)
            nrb.slice(ax, b, a)
        elif kind == 'extract-out':
            nrb.extract(ax, out)
        elif kind == 'boundary-side':
            nrb.boundary(ax, c['side'])
        elif kind == 'clamp-side':
            nrb.clamp(ax, c['side'])
        elif kind == 'unclamp-side':
            nrb.unclamp(ax, c['side'])
        elif kind == 'unclamp-cont':
            nrb.unclamp(ax, None, c['cont'])
        elif kind == 'remap-rev':
            a, b = O.domain(p, U)
            nrb.remap(ax, b, a)
        elif kind == 'axis':
            f = getattr(nrb, c['op'])
            v = c['val']
            a = {'insert': (v,), 'remove': (v,), 'refine': ([v],), 'elevate': (1,), 'slice': (None, None),
                 'extract': (v,), 'boundary': (0,), 'remap': (0, 9), 'swap': (0,)}.get(c['op'], ())
            f(ax, *a)
        elif kind == 'call-out':
            nrb(*c['pts'])
        elif kind.endswith('-out'):
            api = kind[:-4]
            if api == 'derivative':
                nrb.derivative(1, None, *c['pts'])
            else:
                getattr(nrb, api)(None, *c['pts'])
        elif kind == 'order':
            nrb.derivative(c['order'])
        elif kind == 'mapped-high':
            if c['order'] == 2 and len(c['pts']) % 2:
                nrb.hessian(mapped=True)
            else:
                nrb.derivative(c['order'], mapped=True)
        elif kind == 'fields-shape':
            F = np.ones([n + 1 for n in nrb.shape] + [2])
            api = c['api']
            if api == 'call':
                nrb(fields=F)
            elif api == 'derivative':
                nrb.derivative(1, F)
            else:
                getattr(nrb, api)(F)
        elif kind == 'transpose-len':
            nrb.transpose(list(range(dim + 1)))
        elif kind == 'matrix':
            nrb.transform(np.eye(3)[:2])
        elif kind == 'ctor':
            how = c['how']
            C = A[..., :3]
            N = ig.NURBS
            if how == 'short':
                N([[0, 0, 1]] * dim, C)
            elif how == 'four':
                N([[0, 0, 1, 1]] * 4, np.zeros((2, 2, 2, 2, 3)))
            elif how == 'dim':
                N([[0, 0, 1, 1]] * (dim + 1), C)
            elif how == 'degree0':
                N([np.arange(n + 1.) if n >= 3 else np.arange(n + 0.) for n in C.shape[:-1]], C)
            elif how == 'rank':
                N([K[0]], np.zeros(3))
            elif how == 'weights':
                N(K, C, weights=np.ones([n + 1 for n in C.shape[:-1]]))
            elif how == 'both':
                N(K, (C, np.ones(C.shape[:-1])), weights=np.ones(C.shape[:-1]))
            elif how == 'sdim1':
                N(K, C[..., :1])
            elif how == 'sdim5':
                N(K, np.zeros(C.shape[:-1] + (5,)))
            elif how == 'fields':
                N(K, C, fields=np.ones([n + 1 for n in C.shape[:-1]] + [2]))
            elif how == 'none':
                N([], np.zeros((3, 3)))
            elif how == 'wonly':
                N(K, A[..., :4], weights=np.ones(C.shape[:-1]))


# ---------------------------------------------------------------- C18 transformations
def rot(u, a):
    """Rodrigues, from the definition R v = v cos + (u x v) sin + u (u.v)(1-cos)"""
    u = np.asarray(u, float)
    u = u / np.sqrt(u @ u)
    R = np.zeros((3, 3))
    for j in range(3):
        v = np.eye(3)[j]
        R[:, j] = v * np.cos(a) + np.cross(u, v) * np.sin(a) + u * (u @ v) * (1 - np.cos(a))
    return R


def random_affine(rng, n):
    seq = []
    for _ in range(n):
        k = rng.choice(['translate', 'move', 'scale', 'rotate', 'rotate', 'compose3', 'compose4'])
        if k in ('translate', 'move'):
            seq.append([k, rng.choice([[rng.uniform(-3, 3)], [rng.uniform(-3, 3), rng.randint(0, 2)],
                                       [rng.array(rng.randint(1, 3)).tolist()]])])
        elif k == 'scale':
            seq.append([k, rng.choice([[rng.uniform(0.3, 3)], [rng.uniform(-3, -0.3), rng.randint(0, 2)],
                                       [rng.array(rng.randint(1, 3), 0.3, 2).tolist()]])])
        elif k == 'rotate':
            a = rng.choice([rng.uniform(-7, 7), np.pi / 2, -np.pi, 0.0, 1e-9])
            seq.append([k, rng.choice([[a], [a, rng.randint(0, 2)],
                                       [a, rng.array(rng.randint(1, 3), 0.1, 2).tolist()],
                                       [a, rng.array(3).tolist()]])])
        elif k == 'compose3':
            seq.append([k, [rng.array((3, 3)).tolist()]])
        else:
            M = np.eye(4)
            M[:3] = rng.array((3, 4))
            seq.append([k, [M.tolist()]])
    return seq


def affine_matrix(step):
    k, a = step
    M = np.eye(4)
    if k in ('translate', 'move'):
        if len(a) == 2:
            M[a[1], 3] = a[0]
        elif np.ndim(a[0]) == 0:
            M[0, 3] = a[0]
        else:
            M[:len(a[0]), 3] = a[0]
    elif k == 'scale':
        if len(a) == 2:
            M[a[1], a[1]] = a[0]
        elif np.ndim(a[0]) == 0:
            for i in range(3):
                M[i, i] = a[0]
        else:
            for i, x in enumerate(a[0]):
                M[i, i] = x
    elif k == 'rotate':
        ax = a[1] if len(a) > 1 else 2
        u = np.zeros(3)
        if np.ndim(ax) == 0:
            u[ax] = 1
        else:
            u[:len(ax)] = ax
        M[:3, :3] = rot(u, a[0])
    elif k == 'compose3':
        M[:3, :3] = a[0]
    else:
        M = np.array(a[0])
    return M


@contract('C18')
class TransformAlgebra:
    @staticmethod
    def gen(rng):
        return {'seq': random_affine(rng, rng.randint(1, 5)), 'pts': rng.array((4, 4)).tolist()}

    @staticmethod
    def check(c, ig):
        T = ig.transform()
        M = np.eye(4)
        for k, a in c['seq']:
            S = T.copy()
            before = S.matrix.copy()
            f = {'compose3': 'compose', 'compose4': 'compose'}.get(k, k)
            r = getattr(T, f)(*[np.array(x) if isinstance(x, list) else x for x in a])
            need(r is T, '%s does not return the transformation', k)
            need(np.array_equal(S.matrix, before), '%s changed a copy', k)
            M = affine_matrix([k, a]) @ M
        sc = max(1.0, np.abs(M).max())
        close(T.matrix, M, 'composite matrix', 1e-10, sc)
        P = np.array(c['pts'])
        close(T(P), P @ M.T, 'transformed points', 1e-10, sc * 10)
        close(T(P[0]), M @ P[0], 'transformed point', 1e-10, sc * 10)
        close(np.asarray(T), M, 'as array', 1e-10, sc)
        if abs(np.linalg.det(M)) > 1e-3:
            I = T.inverse()
            close(T.matrix, M, 'inverse() changed the transformation', 1e-10, sc)
            si = np.abs(np.linalg.inv(M)).max() * sc
            close(ig.transform(T).compose(I).matrix, np.eye(4), 'inverse', 1e-9, si)
            close(ig.transform(I).compose(T).matrix, np.eye(4), 'inverse', 1e-9, si)
            C = T.copy().invert()
            close(C.matrix, I.matrix, 'invert', 1e-9, si)
        Q = ig.transform(T)
        Q.matrix[0, 0] += 1
        close(T.matrix, M, 'transform(T) shares its matrix', 1e-10, sc)
        need(ig.transform(M).matrix is not M, 'transform(M) aliases its argument')


@contract('C18')
class TransformNurbs:
    @staticmethod
    def gen(rng):
        o = G.obj(rng)
        return {'o': o, 'seq': random_affine(rng, rng.randint(1, 3)),
                'how': rng.choice(['transform', 'methods', 'matrix', 'projective']),
                'seed': rng.randint(0, 10 ** 6), 'row': rng.array(4, -0.05, 0.05).tolist()}

    @staticmethod
    def check(c, ig):
        o = c['o']
        K, A = G.arr(o)
        nrb = G.build(ig, o)
        M = np.eye(4)
        for s in c['seq']:
            M = affine_matrix(s) @ M
        if c['how'] == 'methods':
            for k, a in c['seq']:
                if k.startswith('compose'):
                    r = nrb.transform(affine_matrix([k, a]))
                else:
                    r = getattr(nrb, k)(*a)
                need(r is nrb, '%s does not return the object', k)
        else:
            if c['how'] == 'projective':
                M = M.copy()
                M[3] = [0, 0, 0, 1] + np.array(c['row'])
            r = nrb.transform(M if c['how'] != 'transform' else ig.transform(M))
            need(r is nrb, 'transform does not return the object')
        for x, y in zip(nrb.knots, K):
            need(np.array_equal(x, y), 'transform changed the knots')
        need(nrb.array.shape == A.shape, 'transform changed the shape')
        rng = G.Rng(c['seed'])
        pts = geom_pts(o, rng, 1)
        H = O.eval_homog(K, A, pts)
        E = H[..., :4] @ M.T
        if np.abs(E[..., 3]).min() < 0.1:
            return 'skip'
        sc = max(1.0, np.abs(E[..., :3] / E[..., 3:]).max())
        C = nrb(*pts)
        close(C, E[..., :3] / E[..., 3:], 'transformed geometry', 1e-9, sc)
        if A.shape[-1] > 4:
            close(nrb.array[..., 4:], A[..., 4:], 'transform changed the fields', 1e-13)
            if c['how'] != 'projective':
                D = nrb(*pts, fields=True)[1]
                close(D, H[..., 4:] / H[..., 3:4], 'fields after an affine map', 1e-9)


# ---------------------------------------------------------------- C19 primitives
@contract('C19')
class Circle:
    @staticmethod
    def gen(rng):
        a = rng.choice([None, 'single', 'pair', 'pair', 'list'])
        ang = None
        if a == 'single':
            ang = rng.choice([rng.uniform(0.05, 6.28), -rng.uniform(0.05, 6.28), np.pi / 2, np.pi, -np.pi / 2,
                              3 * np.pi / 2, 2 * np.pi, -2 * np.pi, -np.pi])
        elif a in ('pair', 'list'):
            s = rng.uniform(-6, 6)
            ang = [s, s + rng.choice([-1, 1]) * rng.choice([rng.uniform(0.05, 6.28), np.pi / 2, np.pi])]
            if rng.chance(0.15):
                ang = [None, rng.uniform(0.1, 6)]
            elif rng.chance(0.1):
                ang = [rng.uniform(0.1, 6), None]
        cen = rng.choice([None, 2.5, rng.array(2).tolist(), rng.array(3).tolist(), rng.array(1).tolist()])
        return {'r': rng.choice([1, rng.uniform(0.1, 5), 0.001, 100.0]), 'c': cen, 'a': ang,
                'form': a, 'u': [rng.uniform() for _ in range(5)]}

    @staticmethod
    def check(c, ig):
        a = c['a']
        if c['form'] == 'pair':
            a = tuple(a)
        kw = {'radius': c['r']}
        if c['c'] is not None:
            kw['center'] = c['c']
        if c['form'] is not None:
            kw['angle'] = a
        crv = ig.cad.circle(**kw)
        well_formed(crv, 'circle')
        need(crv.dim == 1 and crv.degree == (2,), 'circle: dim/degree')
        s, e = 0.0, 2 * np.pi
        if c['form'] == 'single':
            e = c['a']
        elif c['form'] in ('pair', 'list'):
            s, e = c['a']
            s = 0.0 if s is None else s
            e = 2 * np.pi if e is None else e
        need(np.all(crv.weights > 0), 'circle: weights not positive')
        cen = np.zeros(3)
        if c['c'] is not None:
            x = np.atleast_1d(c['c'])
            cen[:x.size] = x
        u = [0.0, 1.0] + list(np.linspace(0, 1, 17)) + c['u']
        P = (crv(u) - cen) / c['r']
        close(np.hypot(P[:, 0], P[:, 1]), np.ones(len(u)), 'distance to the centre / radius', 1e-9,
              1 + np.abs(cen).max() / c['r'])
        sc = 1 + np.abs(cen).max() / c['r']
        close(P[:, 2], np.zeros(len(u)), 'circle leaves its plane', 1e-9, sc)
        close(P[0, :2], [np.cos(s), np.sin(s)], 'start point', 1e-9, sc)
        close(P[1, :2], [np.cos(e), np.sin(e)], 'end point', 1e-9, sc)
        spans = len(crv.breaks(0)) - 1
        br = crv.breaks(0)
        Q = (crv(br) - cen) / c['r']
        for i, x in enumerate(br):                      # equal sweep per span
            t = s + (e - s) * i / spans
            close(Q[i, :2], [np.cos(t), np.sin(t)], 'break point %d' % i, 1e-8, sc)
        # travelled monotonically in the right direction
        v = np.linspace(0, 1, 200)
        R = (crv(v) - cen) / c['r']
        ph = np.unwrap(np.arctan2(R[:, 1], R[:, 0]))
        need(np.all(np.diff(ph) * np.sign(e - s) > -1e-7 * sc), 'arc is not travelled monotonically')
        close(ph[-1] - ph[0], e - s, 'swept angle', 1e-6 * sc)


@contract('C19', 0.6)
class Primitives:
    @staticmethod
    def gen(rng):
        k = rng.choice(['line', 'linear', 'bilinear', 'trilinear'])
        d = rng.choice([2, 3, 4]) if k != 'line' else rng.choice([1, 2, 3])
        n = {'line': 1, 'linear': 1, 'bilinear': 2, 'trilinear': 3}[k]
        P = rng.array((2,) * n + (d,))
        if d == 4:
            P[..., 3] = rng.array((2,) * n, 0.5, 2)
        return {'k': k, 'P': P.tolist(), 'dflt': rng.chance(0.2), 'scalar': rng.chance(0.2),
                'u': [[0.0, 1.0] + [rng.uniform() for _ in range(2)] for _ in range(n)]}

    @staticmethod
    def check(c, ig):
        k = c['k']
        f = getattr(ig.cad, k)
        P = np.array(c['P'])
        n = len(c['u'])
        if c['dflt']:
            nrb = f()
            X = np.zeros((2,) * n + (3,))
            for i in range(n):
                sh = [1] * n
                sh[i] = 2
                X[..., i] = np.array([0, 1.] if k == 'line' else [-.5, .5]).reshape(sh)
            W = np.ones((2,) * n)
        else:
            if k == 'line':
                if c['scalar']:
                    P = P[:, :1]
                    nrb = f(float(P[0, 0]), float(P[1, 0]))
                else:
                    nrb = f(P[0].tolist(), P[1])
            else:
                nrb = f(P.copy())
            X = np.zeros((2,) * n + (3,))
            W = np.ones((2,) * n)
            if P.shape[-1] == 4:
                W = P[..., 3]
                X = P[..., :3] / W[..., None]
            else:
                X[..., :P.shape[-1]] = P
        well_formed(nrb, k)
        need(nrb.degree == (1,) * n, '%s: degree', k)
        H = np.concatenate([X * W[..., None], W[..., None]], -1)
        for u in c['u']:
            B = np.array([[1 - t, t] for t in u])
            H = np.moveaxis(np.tensordot(B, H, axes=(1, 0)), 0, n - 1)
        close(nrb(*c['u']), H[..., :3] / H[..., 3:], k, 1e-10)


# ---------------------------------------------------------------- C20 constructions
def lib_obj(rng, dim, **kw):
    kw.setdefault('nf', 0)
    kw.setdefault('pmax', 3)
    kw.setdefault('nspan', 2 if dim > 1 else 3)
    return G.obj(rng, dim=dim, **kw)


@contract('C20')
class ExtrudeSweep:
    @staticmethod
    def gen(rng):
        k = rng.choice(['extrude', 'sweep', 'ruled', 'revolve', 'revolve'])
        dim = rng.randint(1, 2)
        c = {'k': k, 'o': lib_obj(rng, dim, nf=rng.choice([0, 0, 1])), 'seed': rng.randint(0, 10 ** 6)}
        if k == 'extrude':
            c['args'] = rng.choice([[rng.array(rng.randint(1, 3)).tolist()], [rng.uniform(-2, 2)],
                                    [rng.uniform(-2, 2), rng.randint(0, 2)]])
        elif k == 'sweep':
            c['t'] = lib_obj(rng, 1)
        elif k == 'ruled':
            c['t'] = lib_obj(rng, dim)
        else:
            ax = rng.choice([0, 1, 2, rng.array(3).tolist(), rng.array(2).tolist(), [0, 0, -1], [0, 0, 2.5],
                             [0, -1, 0], [-1, 0, 0], rng.array(1, 0.5, 2).tolist(), -1])
            if np.ndim(ax) and np.linalg.norm(ax) < 0.1:
                ax = [1.0, 1.0, 0.0]
            c['args'] = [rng.choice([0, rng.uniform(-2, 2), rng.array(rng.randint(1, 3)).tolist()]), ax,
                         rng.choice([None, rng.uniform(0.1, 6), -rng.uniform(0.1, 6),
                                     [rng.uniform(-1, 0.5), rng.uniform(1, 4)]])]
        return c

    @staticmethod
    def check(c, ig):
        o, k = c['o'], c['k']
        K, A = G.arr(o)
        nrb = G.build(ig, o)
        rng = G.Rng(c['seed'])
        pts = [O.sample_params(p, U, rng, 1) for p, U in zip(G.degs(o), K)]
        E = ev(K, A, pts)[..., :3]
        w = [0.0, 1.0, rng.uniform(), 0.5]
        if k == 'extrude':
            srf = ig.cad.extrude(nrb, *c['args'])
            T = affine_matrix(['translate', c['args']])[:3, 3]
            X = E[..., None, :] + np.array(w)[:, None] * T
            need(all(np.array_equal(x, y) for x, y in zip(srf.knots, K)), 'extrude changed the knots')
            need(srf.degree[-1] == 1, 'extrude degree')
        elif k == 'sweep':
            t = c['t']
            Kt, At = G.arr(t)
            a, b = O.domain(G.degs(t)[0], Kt[0])
            w = O.sample_params(G.degs(t)[0], Kt[0], rng, 1)
            srf = ig.cad.sweep(nrb, G.build(ig, t))
            X = E[..., None, :] + ev(Kt, At, [w])[..., :3]
            need(all(np.array_equal(x, y) for x, y in zip(srf.knots, K + Kt)), 'sweep knots')
        elif k == 'ruled':
            t = c['t']
            Kt, At = G.arr(t)
            srf = ig.cad.ruled(nrb, G.build(ig, t))
            # both objects are first remapped to the common bounding parameter box
            pts, p1, p2 = [], [], []
            for U, V, p, q in zip(K, Kt, G.degs(o), G.degs(t)):
                d1, d2 = O.domain(p, U), O.domain(q, V)
                lo, hi = min(d1[0], d2[0]), max(d1[1], d2[1])
                x = [0.0, 1.0, 0.5, rng.uniform(), rng.uniform()]
                pts.append([lo + (hi - lo) * s if s < 1 else hi for s in x])
                p1.append([d1[0] + (d1[1] - d1[0]) * s for s in x])
                p2.append([d2[0] + (d2[1] - d2[0]) * s for s in x])
            for i, (p, U) in enumerate(zip(srf.degree, srf.knots[:-1])):
                a, b = O.domain(p, U)
                close([a, b], [pts[i][0], pts[i][1]], 'ruled: parameter domain', 1e-12)
                pts[i] = [min(max(s, a), b) for s in pts[i]]
            H1 = O.eval_homog(K, A[..., :4], p1)
            H2 = O.eval_homog(Kt, At[..., :4], p2)
            ww = np.array(w)[:, None]
            H = (1 - ww) * H1[..., None, :] + ww * H2[..., None, :]
            X = H[..., :3] / H[..., 3:]
        else:
            point, ax, ang = c['args']
            srf = ig.cad.revolve(nrb, np.array(point) if np.ndim(point) else point, ax, ang)
            P = np.zeros(3)
            P[:np.size(point)] = point
            if np.ndim(point) == 0:
                P = np.array([point, 0, 0], float) if True else P
            v = np.zeros(3)
            if np.ndim(ax) == 0:
                v[ax] = 1
            else:
                v[:len(ax)] = ax
            v /= np.linalg.norm(v)
            s, e = (0.0, 2 * np.pi) if ang is None else (ang if np.ndim(ang) else (0.0, ang))
            arc = ig.cad.circle(angle=ang)
            need(np.array_equal(srf.knots[-1], arc.knots[0]), 'revolve: knots of the circular direction')
            need(all(np.array_equal(x, y) for x, y in zip(srf.knots, K)), 'revolve changed the knots')
            w = arc.breaks(0).tolist()
            ns = len(w) - 1
            X = np.stack([(E - P) @ rot(v, s + (e - s) * i / ns).T + P for i in range(ns + 1)], -2)
            # between the breaks: distances to the axis and heights are preserved
            wm = [rng.uniform() for _ in range(3)]
            C = srf(*(pts + [wm])) - P
            h = C @ v
            close(h, np.repeat(((E - P) @ v)[..., None], 3, -1), 'revolve: height along the axis', 1e-7)
            r = np.linalg.norm(C - h[..., None] * v, axis=-1)
            e0 = E - P
            r0 = np.linalg.norm(e0 - (e0 @ v)[..., None] * v, axis=-1)
            close(r, np.repeat(r0[..., None], 3, -1), 'revolve: distance to the axis', 1e-6)
        well_formed(srf, k)
        need(srf.dim == nrb.dim + 1, '%s: parametric dimension', k)
        close(srf(*(pts + [w])), X, k, 1e-7)


def coons_objs(rng):
    """four boundary curves (C00,C01,C10,C11), unit weights at the corners"""
    cor = rng.array((2, 2, 3))        # cor[i][j] at u=i, v=j
    out = []
    du, dv = [rng.choice([(0.0, 1.0), (-1.0, 2.0), (0.25, 2.5)]) for _ in range(2)]
    for k, dom in ((0, dv), (1, dv), (2, du), (3, du)):
        o = G.obj(rng, dim=1, nf=0, pmax=3, nspan=3, ends=['c', 'c'], dom=dom)
        A = np.array(o['array'])
        if k < 2:
            ends = cor[k, 0], cor[k, 1]
        else:
            ends = cor[0, k - 2], cor[1, k - 2]
        for i, x in ((0, ends[0]), (-1, ends[1])):
            A[i, :3] = x
            A[i, 3] = 1
        U = o['knots'][0]
        p = len(U) - len(A) - 1
        U[0:p] = [U[p]] * p
        U[-p:] = [U[-p - 1]] * p
        out.append({'knots': [U], 'array': A.tolist()})
    return out


@contract('C20', 0.4)
class Coons:
    @staticmethod
    def gen(rng):
        return {'objs': coons_objs(rng), 's': [0.0, 1.0] + [rng.uniform() for _ in range(4)],
                'poly': rng.chance(0.3)}

    @staticmethod
    def check(c, ig):
        if c['poly']:
            for o in c['objs']:
                A = np.array(o['array'])
                A[:, :3] /= A[:, 3:]
                A[:, 3] = 1
                o['array'] = A.tolist()
        n = [G.build(ig, o) for o in c['objs']]
        S = ig.cad.coons([n[:2], n[2:]])
        well_formed(S, 'coons')
        need(S.dim == 2, 'coons: dim')
        d = [O.domain(p, U) for p, U in zip(S.degree, S.knots)]
        s = c['s']
        at = lambda dm, s: [min(max(dm[0] + (dm[1] - dm[0]) * x, dm[0]), dm[1]) for x in s]
        H = [O.eval_homog([np.array(o['knots'][0])], np.array(o['array']),
                          [at(O.domain(len(o['knots'][0]) - len(o['array']) - 1, o['knots'][0]), s)])
             for o in c['objs']]
        E = [h[..., :3] / h[..., 3:] for h in H]
        u, v = at(d[0], s), at(d[1], s)
        for i in (0, 1):
            close(S([d[0][i]], v)[0], E[i], 'coons: boundary u=%d' % i, 1e-8)
            close(S(u, [d[1][i]])[:, 0], E[2 + i], 'coons: boundary v=%d' % i, 1e-8)
        if c['poly']:                        # the bilinearly blended interior
            t = np.array(s)[:, None, None]
            r = np.array(s)[None, :, None]
            X = (1 - t) * E[0][None] + t * E[1][None] + (1 - r) * E[2][:, None] + r * E[3][:, None]
            P = lambda i, j: E[i][j]         # j indexes s: 0 -> start, 1 -> end
            X = X - ((1 - t) * (1 - r) * P(0, 0) + t * (1 - r) * P(1, 0) + (1 - t) * r * P(0, 1) + t * r * P(1, 1))
            close(S(u, v), X, 'coons: interior', 1e-8)


# ---------------------------------------------------------------- C21 compat / join
@contract('C21')
class Compat:
    @staticmethod
    def gen(rng):
        dim = rng.randint(1, 3)
        m = rng.randint(1, 3)
        kw = dict(dim=dim, pmax=3 if dim < 3 else 2, nspan=3 if dim < 3 else 2)
        if rng.chance(0.5):
            kw['dom'] = (0.0, 1.0)
        if rng.chance(0.4):
            kw['ends'] = ['c', 'c']
        objs = [G.obj(rng, **kw) for _ in range(m)]
        if rng.chance(0.2):                       # identical knot vectors
            o = objs[0]
            A = np.array(o['array'])
            objs = [o] + [{'knots': o['knots'], 'array': (A + 0.1 * i).tolist()} for i in range(1, m)]
        axes = rng.choice([None, None, [G.axis_of(rng, dim)], 0])
        return {'objs': objs, 'axes': axes, 'aslist': rng.chance(0.3)}

    @staticmethod
    def check(c, ig):
        objs = c['objs']
        n = [G.build(ig, o) for o in objs]
        kw = {} if c['axes'] is None else {'axes': c['axes']}
        r = ig.cad.compat(n, **kw) if c['aslist'] else ig.cad.compat(*n, **kw)
        need(len(r) == len(n), 'compat: number of results')
        dim = n[0].dim
        axes = range(dim) if c['axes'] is None else [range(dim)[a] for a in np.atleast_1d(c['axes'])]
        dom = {}
        for ax in axes:
            ds = [O.domain(G.degs(o)[ax], o['knots'][ax]) for o in objs]
            dom[ax] = (min(d[0] for d in ds), max(d[1] for d in ds))
        for o, x in zip(objs, r):
            well_formed(x, 'compat')
            K, A = G.arr(o)
            for ax in range(dim):
                if ax in axes:
                    if len(objs) > 1:
                        need(x.degree[ax] == max(G.degs(q)[ax] for q in objs), 'compat: degree')
                        close(x.knots[ax], r[0].knots[ax], 'compat: knots of axis %d differ' % ax, 1e-9)
                        close(O.domain(x.degree[ax], x.knots[ax]), dom[ax], 'compat: domain', 1e-10)
                else:
                    need(np.array_equal(x.knots[ax], K[ax]), 'compat touched axis %d', ax)
            # same geometry and fields up to the affine change of parameters
            rng = G.Rng(7)
            pts, new = [], []
            for ax, (p, U) in enumerate(zip(G.degs(o), K)):
                a, b = O.domain(p, U)
                s = [0.0, 1.0] + [rng.uniform() for _ in range(3)]
                pts.append([min(a + (b - a) * t, b) for t in s])
                lo, hi = O.domain(x.degree[ax], x.knots[ax])
                new.append([min(max(lo + (hi - lo) * t, lo), hi) for t in s])
            e = O.eval_homog(K, A, pts)
            K2, A2 = nrb_arr(x)
            close(O.eval_homog(K2, A2, new), e, 'compat changed the geometry', 1e-6)


@contract('C21', 0.7)
class Join:
    @staticmethod
    def gen(rng):
        dim = rng.choice([1, 1, 2, 2, 3])
        ax = rng.randint(0, dim - 1)
        kw = dict(pmax=3 if dim < 3 else 2, nspan=2)
        nf = rng.choice([0, 0, 1])
        objs = [G.obj(rng, dim=dim, nf=nf, ends=rng.choice([None, ['c', 'c']]), **kw) for _ in range(2)]
        kind = rng.choice(['touch', 'split', 'split'])
        if kind == 'split':           # two pieces of one object, rejoined
            p, U = G.degs(objs[0])[ax], objs[0]['knots'][ax]
            return {'kind': kind, 'o': objs[0], 'axis': ax, 'x': G.new_knot(rng, p, U),
                    'shift': rng.choice([None, 3.0, -1.5])}
        return {'kind': kind, 'objs': objs, 'axis': ax}

    @staticmethod
    def check(c, ig):
        ax = c['axis']
        if c['kind'] == 'split':
            o = c['o']
            K, A = G.arr(o)
            nrb = G.build(ig, o)
            n1, n2 = nrb.slice(ax, None, c['x']), nrb.slice(ax, c['x'], None)
            if c['shift'] is not None:
                a, b = O.domain(n2.degree[ax], n2.knots[ax])
                n2.remap(ax, a + c['shift'], b + c['shift'])
            J = ig.cad.join(n1, n2, ax)
            well_formed(J, 'join')
            need(J.degree == nrb.degree, 'join: degree')
            KJ, AJ = nrb_arr(J)
            need(AJ.shape[-1] == A.shape[-1], 'join: number of field components changed')
            pts, new = [], []
            rng = G.Rng(5)
            for i, U in enumerate(K):
                a, b = O.domain(len(U) - A.shape[i] - 1, U)
                lo, hi = O.domain(J.degree[i], KJ[i])
                close([lo, hi], [a, b], 'join of the two pieces: domain', 1e-10)
                s = [a, b] + [rng.uniform(a, b) for _ in range(4)]
                pts.append(s)
                new.append([min(max(t, lo), hi) for t in s])
            e = O.eval_homog(K, A, pts)
            close(O.eval_homog(KJ, AJ, new), e, 'join of the two pieces of an object', 1e-6)
            e = O.eval_points(K, A, pts)
            close(J(*new), e[..., :3], 'join of the two pieces of an object (evaluated)', 1e-6)
            return
        o1, o2 = c['objs']
        n1, n2 = [G.build(ig, o) for o in c['objs']]
        # make the end face of the first the start face of the second (C0 contact)
        m1, m2 = ig.cad.compat(n1, n2, axes=[i for i in range(n1.dim) if i != ax]) if n1.dim > 1 else (n1, n2)
        m1.clamp(ax); m2.clamp(ax)
        ix = [slice(None)] * (m1.dim + 1)
        i1, i2 = list(ix), list(ix)
        i1[ax], i2[ax] = -1, 0
        m2.array[tuple(i2)] = m1.array[tuple(i1)]
        K1, A1 = nrb_arr(m1)
        K2, A2 = nrb_arr(m2)
        J = ig.cad.join(m1, m2, ax)
        well_formed(J, 'join')
        need(J.degree[ax] == max(m1.degree[ax], m2.degree[ax]), 'join: degree')
        d1 = O.domain(m1.degree[ax], K1[ax])
        d2 = O.domain(m2.degree[ax], K2[ax])
        close(O.domain(J.degree[ax], J.knots[ax]), [d1[0], d1[1] + d2[1] - d2[0]], 'join: domain', 1e-10)
        rng = G.Rng(3)
        for K, A, d, off in ((K1, A1, d1, 0.0), (K2, A2, d2, d1[1] - d2[0])):
            pts, new = [], []
            for i, U in enumerate(K):
                p = len(U) - A.shape[i] - 1
                a, b = O.domain(p, U)
                s = [a, b] + [rng.uniform(a, b) for _ in range(3)]
                if i == ax:
                    lo, hi = O.domain(J.degree[ax], J.knots[ax])
                    new.append([min(max(t + off, lo), hi) for t in s])
                else:
                    a, b = O.domain(J.degree[i], J.knots[i])
                    new.append([min(max(t, a), b) for t in s])
                pts.append(s)
            e = O.eval_homog(K, A, pts)
            KJ, AJ = nrb_arr(J)
            close(O.eval_homog(KJ, AJ, new), e, 'join: geometry of a piece', 1e-6)


# ---------------------------------------------------------------- C22 grid
@contract('C22')
class GridKnots:
    @staticmethod
    def gen(rng):
        dim = rng.randint(1, 3)
        per = lambda f: rng.choice([f(), [f() for _ in range(dim)]])
        deg = per(lambda: rng.randint(1, 5 if dim < 3 else 3))
        dg = [deg] * dim if np.ndim(deg) == 0 else deg
        cont = rng.choice([None, -1, [rng.randint(0, p - 1) for p in dg], [rng.randint(-p, p - 1) for p in dg], 0])
        lim = rng.choice([None, [-1.5, 2.0], [[rng.uniform(-3, 0), rng.uniform(0.5, 2)] for _ in range(dim)]])
        return {'dim': dim, 'shape': [rng.randint(1, 5 if dim < 3 else 3) for _ in range(dim)],
                'scalar': dim == 1 and rng.chance(0.5), 'degree': deg, 'cont': cont, 'lim': lim,
                'wrap': rng.choice([None, True, False, [rng.chance(0.5) for _ in range(dim)]]),
                'seed': rng.randint(0, 10 ** 6)}

    @staticmethod
    def check(c, ig):
        dim = c['dim']
        kw = {}
        if c['cont'] is not None:
            kw['continuity'] = c['cont']
        if c['lim'] is not None:
            kw['limits'] = c['lim']
        if c['wrap'] is not None:
            kw['wrap'] = c['wrap']
        nrb = ig.cad.grid(c['shape'][0] if c['scalar'] else c['shape'], degree=c['degree'], **kw)
        well_formed(nrb, 'grid')
        deg = np.broadcast_to(c['degree'], (dim,))
        lim = np.broadcast_to([0., 1.] if c['lim'] is None else c['lim'], (dim, 2))
        wrap = np.broadcast_to(False if c['wrap'] is None else c['wrap'], (dim,))
        cont = np.broadcast_to(-1 if c['cont'] is None else c['cont'], (dim,))
        need(nrb.dim == dim, 'grid: dim')
        rng = G.Rng(c['seed'])
        pts = []
        for i in range(dim):
            p, E = int(deg[i]), c['shape'][i]
            C = int(cont[i]) + (p if cont[i] < 0 else 0)
            a, b = float(lim[i][0]), float(lim[i][1])
            U = nrb.knots[i]
            need(nrb.degree[i] == p, 'grid: degree')
            br = [a + (b - a) * k / E for k in range(E + 1)]
            V = [a] * (p + 1)
            for x in br[1:-1]:
                V += [x] * (p - C)
            V += [b] * (p + 1)
            if wrap[i]:
                n = len(V) - p - 2
                close(U[C + 1:len(U) - C - 1], V[C + 1:len(V) - C - 1], 'grid: inner knots', 1e-12)
                close(U[n - C:], U[:len(U) - (n - C)] + (b - a), 'grid: periodic knots', 1e-12)
                need(O.mult_of(U, a) == p - C and O.mult_of(U, b) == p - C, 'grid: end multiplicity')
            else:
                close(U, V, 'grid: knots', 1e-12)
            close(nrb.breaks(i), br, 'grid: equal elements', 1e-12)
            K = ig.iga.KnotVector(E, p, C, a, b, bool(wrap[i]))
            need(np.array_equal(K, U), 'KnotVector')
            pts.append(O.sample_params(p, U, rng, 2))
        X = nrb(*pts)
        Y = np.zeros(X.shape)
        for i, x in enumerate(pts):
            sh = [1] * dim
            sh[i] = -1
            Y[..., i] = np.array(x).reshape(sh)
        close(X, Y, 'grid: identity map', 1e-10)
        close(nrb.weights, np.ones(nrb.shape), 'grid: weights', 0)


# ---------------------------------------------------------------- C23 cad.refine
@contract('C23')
class CadRefine:
    @staticmethod
    def gen(rng):
        dim = rng.choice([1, 1, 2, 2, 3])
        o = G.obj(rng, dim=dim, pmax={1: 4, 2: 3, 3: 2}[dim], nspan=2)
        dg = G.degs(o)
        ns = [len(G.inner_breaks(p, U)) + 1 for p, U in zip(dg, o['knots'])]
        fac = rng.choice([None, rng.randint(1, 3), [rng.choice([None, rng.randint(1, 3),
                          [rng.randint(1, 3) for _ in range(m)]]) for m in ns]])
        if dim > 1 and isinstance(fac, list) and any(isinstance(f, list) for f in fac):
            # only uniformly shaped or plain factors form a proper object array
            fac = [f if not isinstance(f, list) else int(f[0]) for f in fac]
        if dim == 1 and isinstance(fac, list) and isinstance(fac[0], list):
            fac = [fac[0]]
            if rng.chance(1.0):
                fac = int(fac[0][0])
        deg = rng.choice([None, rng.randint(1, 4), [rng.choice([None, rng.randint(1, 4)]) for _ in range(dim)]])
        fd = [p if d is None else max(p, d) for p, d in
              zip(dg, [deg] * dim if not isinstance(deg, list) else deg)]
        con = rng.choice([None, -1, 0, [rng.choice([None, rng.randint(0, p - 1)]) for p in fd]])
        return {'o': o, 'factor': fac, 'degree': deg, 'cont': con}

    @staticmethod
    def check(c, ig):
        o = c['o']
        K, A = G.arr(o)
        dim = len(K)
        nrb = G.build(ig, o)
        s = snap(nrb)
        r = ig.cad.refine(nrb, c['factor'], c['degree'], c['cont'])
        unchanged(nrb, s, 'refine')
        well_formed(r, 'refine')
        lst = lambda x: x if isinstance(x, list) else [x] * dim
        for i, (f, d, k) in enumerate(zip(lst(c['factor']), lst(c['degree']), lst(c['cont']))):
            p = G.degs(o)[i]
            q = p if d is None else max(p, d)
            need(r.degree[i] == q, 'refine: degree %d expected %d', r.degree[i], q)
            C = q - 1 if k is None or k < 0 else k
            br = [O.domain(p, K[i])[0]] + G.inner_breaks(p, K[i].tolist()) + [O.domain(p, K[i])[1]]
            N = [1 if f is None else f] * (len(br) - 1) if not isinstance(f, list) else f
            exp = [br[0]] * (q + 1)
            for j, m in enumerate(N):
                a, b = br[j], br[j + 1]
                if j:
                    s0 = O.mult_of(K[i], a) + (q - p)
                    exp += [a] * max(s0, q - C)
                for t in range(1, m):
                    exp += [a + (b - a) * t / m] * (q - C)
            exp += [br[-1]] * (q + 1)
            close(r.knots[i], exp, 'refine: knots', 1e-11)
        same_geometry(o, r, 'refine', tol=1e-6)


@contract('C23', 0.2)
class CadRefineSpans:
    """different subdivision of every span"""
    @staticmethod
    def gen(rng):
        o = G.obj(rng, dim=2, pmax=3, nspan=3)
        ns = [len(G.inner_breaks(p, U)) + 1 for p, U in zip(G.degs(o), o['knots'])]
        f = [[rng.randint(1, 4) for _ in range(ns[0])], rng.randint(1, 3)]
        if ns[0] == 1:
            f[0] = f[0][0]
        if rng.chance(0.5):
            f = [f[1], f[0]]
            o = {'knots': o['knots'][::-1], 'array': np.array(o['array']).swapaxes(0, 1).tolist()}
        return {'o': o, 'factor': f, 'degree': None, 'cont': rng.choice([None, 0])}

    @staticmethod
    def check(c, ig):
        # a ragged per-axis factor has to be passed as an object array
        c = dict(c)
        f = np.empty(2, dtype=object)
        f[0], f[1] = c['factor']
        c2 = dict(c)
        o = c['o']

        class IG2:
            pass
        ig2 = IG2()
        ig2.__dict__.update(ig.__dict__)

        class Cad:
            @staticmethod
            def refine(n, a, b, k):
                return ig.cad.refine(n, f, b, k)
        ig2.cad = Cad
        CadRefine.check(c2, ig2)


# ---------------------------------------------------------------- C24 PetIGA
class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='igakit-rac-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class Rd:
    """independent big-endian reader"""
    def __init__(self, raw, ib, rb, cplx):
        self.raw, self.i, self.ib, self.rb, self.cplx = raw, 0, ib, rb, cplx

    def int(self):
        v = int.from_bytes(self.raw[self.i:self.i + self.ib], 'big', signed=True)
        need(self.i + self.ib <= len(self.raw), 'file too short')
        self.i += self.ib
        return v

    def real(self, n):
        f = '>%d%s' % (n, 'd' if self.rb == 8 else 'f')
        v = struct.unpack_from(f, self.raw, self.i)
        self.i += n * self.rb
        return np.array(v)

    def scalar(self, n):
        if self.cplx:
            v = self.real(2 * n)
            need(np.all(v[1::2] == 0), 'imaginary part not zero')
            return v[::2]
        return self.real(n)


@contract('C24')
class PetIgaRoundTrip:
    @staticmethod
    def gen(rng):
        o = G.obj(rng, pmax=3, nspan=3)
        dim = len(o['knots'])
        return {'o': o, 'prec': rng.choice(['double', 'double', 'single']),
                'scal': rng.choice(['real', 'real', 'complex']), 'idx': rng.choice(['32bit', '64bit']),
                'control': rng.chance(0.85), 'fields': rng.chance(0.8),
                'nsd': rng.choice([None, 3, 3, rng.randint(dim, 3)])}

    @staticmethod
    def check(c, ig):
        o = c['o']
        K, A = G.arr(o)
        dim = len(K)
        nrb = G.build(ig, o)
        s = snap(nrb)
        tol = 1e-13 if c['prec'] == 'double' else 1e-5
        io = ig.io.PetIGA(precision=c['prec'], scalar=c['scal'], indices=c['idx'])
        with Scratch() as d:
            f = os.path.join(d, 'geo.dat')
            io.write(f, nrb, control=c['control'], fields=c['fields'], nsd=c['nsd'])
            unchanged(nrb, s, 'write')
            raw = open(f, 'rb').read()
            new = io.read(f)
            need(open(f, 'rb').read() == raw, 'read changed the file')
        # the file format
        r = Rd(raw, 4 if c['idx'] == '32bit' else 8, 8 if c['prec'] == 'double' else 4, c['scal'] == 'complex')
        hasf = c['fields'] and A.shape[-1] > 4
        need(r.int() == 1211299, 'file id')
        need(r.int() == int(c['control']) + 2 * int(hasf), 'info flags')
        need(r.int() == dim, 'dimension')
        for i in range(dim):
            p = len(K[i]) - A.shape[i] - 1
            need(r.int() == p, 'degree')
            need(r.int() == len(K[i]), 'number of knots')
            close(r.real(len(K[i])), K[i], 'knots in the file', tol)
        N = int(np.prod(A.shape[:-1]))
        nsd = dim if c['nsd'] is None else c['nsd']
        order = [tuple(reversed(ix)) for ix in np.ndindex(*A.shape[:-1][::-1])]
        if c['control']:
            need(r.int() == nsd, 'space dimension')
            need(r.int() == 1211214 and r.int() == N * (nsd + 1), 'vector header')
            v = r.scalar(N * (nsd + 1)).reshape(N, nsd + 1)
            e = np.array([list(A[ix][:nsd]) + [A[ix][3]] for ix in order])
            close(v, e, 'control points in the file', tol)
        if hasf:
            nf = A.shape[-1] - 4
            need(r.int() == nf, 'number of fields')
            need(r.int() == 1211214 and r.int() == N * nf, 'vector header')
            v = r.scalar(N * nf).reshape(N, nf)
            close(v, np.array([A[ix][4:] / A[ix][3] for ix in order]), 'fields in the file', tol)
        need(r.i == len(raw), 'trailing bytes in the file')
        # the round trip
        well_formed(new, 'read')
        for x, y in zip(new.knots, K):
            close(x, y, 'knots read back', tol)
            if c['prec'] == 'double':
                need(np.array_equal(x, y), 'knots read back differ in the last bits')
        need(new.shape == A.shape[:-1], 'shape read back')
        if c['control']:
            E = np.zeros(A.shape[:-1] + (4,))
            E[..., :nsd] = A[..., :nsd]
            E[..., 3] = A[..., 3]
            close(new.control, E, 'control points read back', tol)
            if c['prec'] == 'double':
                need(np.array_equal(new.control, E), 'control points differ in the last bits')
        else:
            E = np.zeros(A.shape[:-1] + (4,))
            for i in range(dim):
                g = np.array(grev(len(K[i]) - A.shape[i] - 1, K[i]))
                sh = [1] * dim
                sh[i] = -1
                E[..., i] = g.reshape(sh)
            E[..., 3] = 1
            close(new.control, E, 'default control points', tol)
        if hasf:
            close(new.fields, A[..., 4:] / A[..., 3:4], 'fields read back', tol)
        else:
            need(new.fields is None, 'fields appeared')


@contract('C24', 0.5)
class PetIgaVec:
    @staticmethod
    def gen(rng):
        o = G.obj(rng, pmax=3, nspan=2)
        A = np.array(o['array'])
        nb = rng.randint(1, 4)
        return {'o': o, 'V': rng.array(A.shape[:-1] + (nb,)).tolist(), 'nb': nb,
                'mode': rng.choice(['nurbs', 'nurbs', 'flat', 'scalar']), 'idx': rng.choice(['32bit', '64bit']),
                'scal': rng.choice(['real', 'complex']), 'order': rng.choice('CF')}

    @staticmethod
    def check(c, ig):
        nrb = G.build(ig, c['o'])
        V = np.array(c['V'], order=c['order'])
        io = ig.io.PetIGA(indices=c['idx'], scalar=c['scal'])
        shape = V.shape[:-1]
        with Scratch() as d:
            f = os.path.join(d, 'vec.dat')
            if c['mode'] == 'flat':
                v = V.ravel()
                io.write_vec(f, v)
                got = io.read_vec(f)
                need(np.array_equal(got, v), 'vector round trip')
            elif c['mode'] == 'scalar':
                v = V[..., 0].copy()
                io.write_vec(f, v, nrb)
                got = io.read_vec(f, nrb)
                need(np.array_equal(got, v.squeeze()), 'scalar vector round trip')
            else:
                v = V.copy()
                io.write_vec(f, v, nrb)
                got = io.read_vec(f, nrb)
                need(np.array_equal(v, V), 'write_vec changed its argument')
                need(np.array_equal(got, V.squeeze()), 'vector round trip on a grid')
            raw = open(f, 'rb').read()
            r = Rd(raw, 4 if c['idx'] == '32bit' else 8, 8, c['scal'] == 'complex')
            X = V if c['mode'] in ('flat', 'nurbs') else V[..., :1]
            need(r.int() == 1211214 and r.int() == X.size, 'vector header')
            if c['mode'] == 'flat':
                e = V.ravel()
            else:          # components fastest, then first axis, ...
                e = np.concatenate([X[tuple(reversed(ix))] for ix in np.ndindex(*shape[::-1])])
            need(np.array_equal(r.scalar(X.size), e), 'vector entries in the file')
            need(r.i == len(raw), 'trailing bytes')


@contract('C24', 0.3)
class PetIgaMat:
    @staticmethod
    def gen(rng):
        M, N = rng.randint(1, 6), rng.randint(1, 6)
        rows = [sorted(rng.shuffle(range(N))[:rng.randint(0, N)]) for _ in range(M)]
        return {'M': M, 'N': N, 'rows': rows, 'vals': [rng.array(len(r)).tolist() for r in rows],
                'idx': rng.choice(['32bit', '64bit'])}

    @staticmethod
    def check(c, ig):
        t = '>i4' if c['idx'] == '32bit' else '>i8'
        nz = sum(len(r) for r in c['rows'])
        raw = (np.array([1211216, c['M'], c['N'], nz], t).tobytes() +
               np.array([len(r) for r in c['rows']], t).tobytes() +
               np.array([j for r in c['rows'] for j in r], t).tobytes() +
               np.array([x for r in c['vals'] for x in r], '>f8').tobytes())
        with Scratch() as d:
            f = os.path.join(d, 'mat.dat')
            open(f, 'wb').write(raw)
            shape, (I, J, V) = ig.io.PetIGA(indices=c['idx']).read_mat(f)
        need(tuple(int(x) for x in shape) == (c['M'], c['N']), 'matrix shape')
        need(len(I) == c['M'] + 1 and len(J) == len(V) == nz, 'matrix sizes')
        D = np.zeros((c['M'], c['N']))
        for i in range(c['M']):
            D[i, J[I[i]:I[i + 1]]] = V[I[i]:I[i + 1]]
        E = np.zeros((c['M'], c['N']))
        for i, (r, v) in enumerate(zip(c['rows'], c['vals'])):
            E[i, r] = v
        need(np.array_equal(D, E), 'matrix entries')


@contract('C24', 0.2)
class PetIgaCorrupt:
    """a damaged or truncated file is rejected, not misread"""
    @staticmethod
    def gen(rng):
        o = G.obj(rng, pmax=2, nspan=2)
        return {'o': o, 'how': rng.choice(['id', 'dim', 'cut', 'vecid', 'kind']), 'cut': rng.uniform(0.02, 0.98)}

    @staticmethod
    def check(c, ig):
        nrb = G.build(ig, c['o'])
        io = ig.io.PetIGA()
        with Scratch() as d:
            f = os.path.join(d, 'geo.dat')
            io.write(f, nrb)
            raw = bytearray(open(f, 'rb').read())
            how = c['how']
            if how == 'id':
                raw[3] ^= 1
            elif how == 'dim':
                raw[8:12] = (4).to_bytes(4, 'big')
            elif how == 'cut':
                raw = raw[:int(len(raw) * c['cut'])]
            elif how == 'vecid':
                i = raw.index((1211214).to_bytes(4, 'big'))
                raw[i + 3] ^= 1
            else:
                io.write_vec(f, np.zeros(3))
                raw = bytearray(open(f, 'rb').read())
            open(f, 'wb').write(bytes(raw))
            try:
                io.read(f)
            except Exception:
                return
            raise Fail('damaged file (%s) accepted' % how)


@contract('C24', 0.3)
class PetIgaShort:
    """vector and matrix files with a wrong kind, wrong counts or missing entries are rejected"""
    @staticmethod
    def gen(rng):
        M, N = rng.randint(1, 5), rng.randint(1, 5)
        rows = [sorted(rng.shuffle(range(N))[:rng.randint(0, N)]) for _ in range(M)]
        if not any(rows):
            rows[0] = [0]
        return {'n': rng.randint(1, 9), 'what': rng.choice(['vec', 'mat', 'geo']), 'M': M, 'N': N, 'rows': rows,
                'idx': rng.choice(['32bit', '64bit']), 'scal': rng.choice(['real', 'complex']),
                'how': rng.choice(['short', 'short', 'count', 'id', 'byte']), 'drop': rng.randint(1, 9),
                'o': G.obj(rng, pmax=2, nspan=2)}

    @staticmethod
    def check(c, ig):
        isz = 4 if c['idx'] == '32bit' else 8
        ssz = 16 if c['scal'] == 'complex' else 8
        t = '>i%d' % isz
        st = '>c16' if c['scal'] == 'complex' else '>f8'
        io = ig.io.PetIGA(indices=c['idx'], scalar=c['scal'])
        with Scratch() as d:
            f = os.path.join(d, 'x.dat')
            if c['what'] == 'vec':
                io.write_vec(f, np.arange(1.0, c['n'] + 1))
                raw = bytearray(open(f, 'rb').read())
                read, n = io.read_vec, c['n']
                cnt = isz                                     # offset of the number of entries
            elif c['what'] == 'mat':
                nz = sum(len(r) for r in c['rows'])
                raw = bytearray(np.array([1211216, c['M'], c['N'], nz], t).tobytes() +
                                np.array([len(r) for r in c['rows']], t).tobytes() +
                                np.array([j for r in c['rows'] for j in r], t).tobytes() +
                                np.arange(1.0, nz + 1).astype(st).tobytes())
                read, n = io.read_mat, nz
                cnt = 3 * isz
            else:
                nrb = G.build(ig, c['o'])
                io.write(f, nrb)
                raw = bytearray(open(f, 'rb').read())
                read, n = io.read, int(nrb.fields.size if nrb.fields is not None else nrb.array[..., 0].size * (nrb.dim + 1))
                cnt = len(raw) - n * ssz - isz
            open(f, 'wb').write(bytes(raw))
            read(f)                                           # the undamaged file is accepted
            how = c['how']
            if how == 'short':
                raw = raw[:len(raw) - min(c['drop'], n) * ssz]
            elif how == 'byte':
                raw = raw[:len(raw) - min(c['drop'], ssz - 1)]
            elif how == 'count':
                v = int.from_bytes(raw[cnt:cnt + isz], 'big') + c['drop']
                raw[cnt:cnt + isz] = v.to_bytes(isz, 'big')
            else:
                raw[isz - 1] ^= 1 << (c['drop'] % 8)
            open(f, 'wb').write(bytes(raw))
            try:
                read(f)
            except Exception:
                return
            raise Fail('damaged %s file (%s) accepted' % (c['what'], how))


# ---------------------------------------------------------------- C25 VTK
@contract('C25')
class Vtk:
    @staticmethod
    def gen(rng):
        o = G.obj(rng, pmax=3, nspan=3)
        nf = np.array(o['array']).shape[-1] - 4
        fld = rng.choice(['none', 'own', 'given']) if nf else rng.choice(['none', 'given'])
        n = {'none': 0, 'own': nf, 'given': rng.randint(1, 4)}[fld]
        sc, ve = [], []
        if n:
            for i in range(rng.randint(0, 2)):
                sc.append([rng.choice(['a b', 'temp', 'x%d' % i]), rng.randint(0, n - 1)])
            for i in range(rng.randint(0, 2)):
                ve.append(['vel%d' % i, [rng.randint(0, n - 1) for _ in range(rng.randint(1, 3))]])
            if not sc and not ve:
                sc = [['s', 0]]
            if len(set(k for k, _ in sc)) < len(sc):
                sc = sc[:1]
        A = np.array(o['array'])
        return {'o': o, 'fld': fld, 'F': rng.array(A.shape[:-1] + (max(n, 1),)).tolist(), 'sc': sc, 've': ve,
                'control': rng.chance(0.6), 'sampler': rng.choice([None, 3, 5]), 'dict': rng.chance(0.5),
                'title': rng.choice([None, 'some title'])}

    @staticmethod
    def check(c, ig):
        o = c['o']
        K, A = G.arr(o)
        dim = len(K)
        nrb = G.build(ig, o)
        s = snap(nrb)
        pts = []
        for p, U in zip(G.degs(o), K):
            a, b = O.domain(p, U)
            br = np.array([a] + G.inner_breaks(p, U.tolist()) + [b])
            pts.append(br if c['sampler'] is None else np.linspace(br[0], br[-1], c['sampler']))
        F = np.array(c['F'])
        w = A[..., 3:4]
        if c['fld'] == 'given':
            B = np.concatenate([A[..., :4], F * w], -1)
        else:
            B = A
        E = O.eval_points(K, B, pts)
        kw = {}
        if c['fld'] == 'given':
            kw['fields'] = F
        mk = dict if c['dict'] else (lambda x: [tuple(y) for y in x])
        if c['sc']:
            kw['scalars'] = mk(c['sc'])
        if c['ve']:
            kw['vectors'] = mk(c['ve'])
        if c['sampler'] is not None:
            kw['sampler'] = lambda u: np.linspace(u[0], u[-1], c['sampler'])
        vtk = ig.io.VTK()
        if c['title']:
            vtk.title = c['title']
        with Scratch() as d:
            f = os.path.join(d, 'x.vtk')
            vtk.write(f, nrb, control=c['control'], **kw)
            raw = open(f, 'rb').read()
        unchanged(nrb, s, 'VTK write')
        pos = [0]

        def line():
            j = raw.index(b'\n', pos[0])
            t = raw[pos[0]:j].decode('ascii')
            pos[0] = j + 1
            return t

        def dbl(n):
            v = np.array(struct.unpack_from('>%dd' % n, raw, pos[0]))
            pos[0] += 8 * n
            need(raw[pos[0]:pos[0] + 1] == b'\n', 'missing end of line after data')
            pos[0] += 1
            return v
        need(line() == '# vtk DataFile Version 2.0', 'header')
        need(line() == (c['title'] or 'VTK Data'), 'title')
        need(line() == 'BINARY', 'format')
        n = [len(x) for x in pts] + [1] * (3 - dim)
        N = int(np.prod(n))
        # VTK point order: first axis fastest
        E3 = E.reshape(n + [-1])
        flat = np.array([E3[i, j, k] for k in range(n[2]) for j in range(n[1]) for i in range(n[0])])
        if c['control']:
            need(line() == 'DATASET STRUCTURED_GRID', 'dataset type')
            need(line() == 'DIMENSIONS %d %d %d' % tuple(n), 'dimensions')
            need(line() == 'POINTS %d double' % N, 'points header')
            close(dbl(3 * N).reshape(N, 3), flat[:, :3], 'points in the file', 1e-9)
        else:
            need(line() == 'DATASET RECTILINEAR_GRID', 'dataset type')
            need(line() == 'DIMENSIONS %d %d %d' % tuple(n), 'dimensions')
            for i, X in enumerate('XYZ'):
                need(line() == '%s_COORDINATES %d double' % (X, n[i]), 'coordinates header')
                close(dbl(n[i]), pts[i] if i < dim else [0.0], 'coordinates', 1e-12)
        sc, ve = c['sc'], c['ve']
        if sc or ve:
            need(line() == 'POINT_DATA %d' % N, 'point data header')
        if c['dict']:
            sc, ve = sorted(sc), sorted(ve)
        for name, i in sc:
            need(line() == 'SCALARS %s double' % name.replace(' ', '_'), 'scalars header')
            need(line() == 'LOOKUP_TABLE default', 'lookup table')
            close(dbl(N), flat[:, 3 + i], 'scalar %s' % name, 1e-9)
        for name, ix in ve:
            need(line() == 'VECTORS %s double' % name.replace(' ', '_'), 'vectors header')
            e = np.zeros((N, 3))
            for k, i in enumerate(ix):
                e[:, k] = flat[:, 3 + i]
            close(dbl(3 * N).reshape(N, 3), e, 'vector %s' % name, 1e-9)
        need(pos[0] == len(raw), 'trailing bytes in the file')


# ---------------------------------------------------------------- C26 quadrature
@contract('C26', 0.3)
class GaussRules:
    @staticmethod
    def fixed():
        return [{'q': q, 'rule': r} for r in ('legendre', 'lobatto') for q in range(1, 11)
                if not (r == 'lobatto' and q == 1)]

    @staticmethod
    def gen(rng):
        return {'q': rng.randint(2, 10), 'rule': rng.choice(['legendre', 'lobatto'])}

    @staticmethod
    def check(c, ig):
        q = c['q']
        leg = c['rule'] == 'legendre'
        X, W = (ig.iga.GaussLegendreRule if leg else ig.iga.GaussLobattoRule)(q)
        need(X.shape == (q,) and W.shape == (q,), 'rule size')
        need(np.all(np.diff(X) > 0) if q > 1 else True, 'nodes not increasing')
        need(np.all(W > 0), 'weights not positive')
        if not leg:
            need(X[0] == -1 and X[-1] == 1, 'end nodes')
        else:
            need(X[0] > -1 and X[-1] < 1, 'nodes outside (-1,1)')
        for k in range(2 * q if leg else 2 * q - 2):
            e = 2.0 / (k + 1) if k % 2 == 0 else 0.0
            close(np.sum(W * X ** k), e, 'integral of x^%d with %d points' % (k, q), 2e-15 * 8)


@contract('C26')
class BasisTables:
    @staticmethod
    def gen(rng):
        p = rng.randint(1, 6)
        U = G.knots(rng, p, rng.randint(1, 5))
        return {'p': p, 'U': U, 'd': rng.choice([None, rng.randint(0, p)]), 'q': rng.choice([None, rng.randint(1, 10)]),
                'x': [G.param(rng, p, U) for _ in range(rng.randint(1, 4))]}

    @staticmethod
    def check(c, ig):
        p, U = c['p'], np.array(c['U'])
        kw = {}
        if c['d'] is not None:
            kw['d'] = c['d']
        if c['q'] is not None:
            kw['q'] = c['q']
        d = p if c['d'] is None else c['d']
        q = p + 1 if c['q'] is None else c['q']
        if q > 10:
            return 'skip'
        Of, J, W, X, N = ig.iga.BasisData(p, U, **kw)
        xg, wg = np.polynomial.legendre.leggauss(q)
        n = len(U) - p - 2
        sp = [k for k in range(p, n + 1) if U[k + 1] > U[k]]
        need(list(Of) == [k - p for k in sp], 'element offsets')
        need(X.shape == (len(sp), q) and N.shape == (len(sp), q, p + 1, d + 1), 'table shapes')
        close(W, wg, 'quadrature weights', 1e-13)
        close(J, [(U[k + 1] - U[k]) / 2 for k in sp], 'jacobians', 1e-13)
        # integrates exactly over the domain
        a, b = O.domain(p, U)
        for m in range(2 * q):
            e = (b ** (m + 1) - a ** (m + 1)) / (m + 1)
            close((J[:, None] * W * X ** m).sum(), e, 'composite integral of x^%d' % m, 1e-11, max(1, abs(e),
                  max(abs(a), abs(b)) ** (m + 1)))
        for i, k in enumerate(sp):
            close(X[i], U[k] + (U[k + 1] - U[k]) * (xg + 1) / 2, 'quadrature points', 1e-12)
            for j in range(q):
                e = O.basis_ders(p, U, X[i, j], d, k)[:, k - p:k + 1]
                close(N[i, j].T, e, 'basis table', 1e-8, max(1, np.abs(e).max()))
        O2, N2 = ig.iga.BasisDataCol(p, U, c['x'], **({'d': c['d']} if c['d'] is not None else {}))
        for i, x in enumerate(c['x']):
            k = O.find_span(p, U, x)
            need(O2[i] == k - p, 'collocation offset')
            e = O.basis_ders(p, U, x, d, k)[:, k - p:k + 1]
            close(N2[i].T, e, 'collocation basis', 1e-8, max(1, np.abs(e).max()))


# ---------------------------------------------------------------- C27 abscissae
@contract('C27')
class Abscissae:
    @staticmethod
    def gen(rng):
        o = G.obj(rng, pmax=7 if rng.chance(0.3) else 4)
        return {'o': o}

    @staticmethod
    def check(c, ig):
        o = c['o']
        K, A = G.arr(o)
        nrb = G.build(ig, o)
        s = snap(nrb)
        dim = len(K)
        for i, U in enumerate(K):
            p = G.degs(o)[i]
            n = len(U) - p - 2
            a, b = O.domain(p, U)
            br = sorted(set(U[p:n + 2].tolist()))
            for ax in (i, i - dim):
                close(nrb.breaks(ax), br, 'breaks', 0)
                u, m = nrb.breaks(ax, mults=True)
                close(u, br, 'breaks (with multiplicities)', 0)
                need(list(m) == [min(p, int(np.sum(U == x))) if x in (a, b) else int(np.sum(U == x)) for x in br],
                     'multiplicities %s of %s', list(m), U.tolist())
                g = nrb.greville(ax)
                close(g, grev(p, U), 'greville', 1e-13)
                need(len(g) == n + 1 and np.all(np.diff(g) >= -1e-14), 'greville order')
                for nm, rule in (('lagrange', np.linspace(-1, 1, p + 1)),
                                 ('lobatto', ig_lobatto(p + 1))):
                    x = getattr(nrb, nm)(ax)
                    e = []
                    for x0, x1 in zip(br[:-1], br[1:]):
                        e += [x0 + (x1 - x0) * (t + 1) / 2 for t in rule[:-1]]
                    e.append(br[-1])
                    close(x, e, nm, 1e-11)
                    need(np.all(np.diff(x) > 0), '%s not increasing', nm)
                    close([x[0], x[-1]], [a, b], nm + ' ends', 0)
        for nm in ('breaks', 'greville', 'lagrange', 'lobatto', 'spans'):
            al = getattr(nrb, nm)()
            need(len(al) == dim, '%s() length', nm)
            for i in range(dim):
                need(np.array_equal(al[i], getattr(nrb, nm)(i)), '%s()[%d]', nm, i)
        al = nrb.breaks(mults=True)
        need(len(al) == dim and all(len(x) == 2 for x in al), 'breaks(mults=True)')
        unchanged(nrb, s, 'queries')


def ig_lobatto(q):
    """Gauss-Lobatto nodes from the roots of P'_{q-1}"""
    if q == 2:
        return np.array([-1., 1.])
    c = np.zeros(q)
    c[-1] = 1
    r = np.polynomial.legendre.legroots(np.polynomial.legendre.legder(c))
    return np.concatenate([[-1.], np.sort(r), [1.]])


# ---------------------------------------------------------------- C28 kernels
@contract('C28')
class KernelSafety:
    """kernels on extreme but valid sizes: every output component is defined (finite) and,
    in the checked build, no array bound is exceeded"""
    @staticmethod
    def gen(rng):
        p = rng.choice([1, 2, 3, 5, 9, 12])
        U = G.knots(rng, p, rng.choice([1, 2, 7]))
        n = len(U) - p - 2
        d = rng.choice([1, 2, 4, 9])
        v = rng.choice([G.param(rng, p, U), G.new_knot(rng, p, U)])
        return {'p': p, 'U': U, 'P': rng.array((n + 1, d)).tolist(), 'v': v, 'C': rng.randint(0, p - 1),
                'k': rng.choice(['insert', 'remove', 'clamp', 'unclamp', 'refine', 'elevate', 'extract', 'eval',
                                 'basis', 'ders', 'data', 'col', 'span']),
                'l': rng.chance(0.7), 'r': rng.chance(0.7), 't': rng.randint(1, 3), 'seed': rng.randint(0, 10 ** 6)}

    @staticmethod
    def check(c, ig):
        p, U, P, v = c['p'], np.array(c['U']), np.array(c['P']), c['v']
        s = O.mult_of(U, v)
        a, b = O.domain(p, U)
        bsp = ig.bsp
        U0, P0 = U.copy(), P.copy()
        k = c['k']
        if k == 'insert':
            t = max(0, p - s)
            r = bsp.InsertKnot(p, U, P, v, min(t, c['t']))
        elif k == 'remove':
            if not a < v < b or s == 0 or s > p:
                return 'skip'
            r = bsp.RemoveKnot(p, U, P, v, 1e-9, s)[1:]
        elif k == 'clamp':
            r = bsp.Clamp(p, U, P, c['l'], c['r'])
        elif k == 'unclamp':
            V, Q = bsp.Clamp(p, U, P, True, True)
            r = bsp.Unclamp(p, V, Q, c['C'], c['l'], c['r'])
        elif k == 'refine':
            if not a < v < b:
                return 'skip'
            r = bsp.RefineKnotVector(p, U, P, [v] * max(0, p - s)) if p > s else ()
        elif k == 'elevate':
            V, Q = bsp.Clamp(p, U, P, True, True)
            r = bsp.DegreeElevate(p, V, Q, c['t'])
        elif k == 'extract':
            r = [bsp.Extract(p, U, P, x) for x in (a, b, v)]
        elif k == 'eval':
            r = [bsp.Evaluate1(p, U, P, [a, b, v])]
        elif k == 'basis':
            r = [bsp.EvalBasisFuns(p, U, x) for x in (a, b, v)]
        elif k == 'ders':
            r = [bsp.EvalBasisFunsDers(p, U, x) for x in (a, b, v)]
        elif k == 'data':
            r = ig.iga.BasisData(p, U, q=min(10, p + 1))
        elif k == 'col':
            r = ig.iga.BasisDataCol(p, U, [a, v, b])
        else:
            r = [np.array([bsp.FindSpan(p, U, x), bsp.FindMult(p, U, x)]) for x in (a, b, v)] + \
                [bsp.SpanIndex(p, U), bsp.Greville(p, U)]
        for x in r:
            x = np.asarray(x)
            need(np.all(np.isfinite(x)), '%s: undefined output %s', k, x.ravel()[~np.isfinite(x.ravel())][:3])
            if x.dtype.kind == 'i':
                need(np.all((x >= 0) & (x < len(U))), '%s: index out of range', k)
        need(np.array_equal(U, U0) and np.array_equal(P, P0), '%s: modified its input', k)


@contract('C28', 0.6)
class KernelSafetyNd:
    @staticmethod
    def gen(rng):
        dim = rng.randint(1, 3)
        o = G.obj(rng, dim=dim, pmax={1: 9, 2: 4, 3: 3}[dim], nspan={1: 6, 2: 3, 3: 2}[dim])
        return {'o': o, 'order': rng.randint(0, 4), 'mapped': rng.chance(0.3),
                'pts': [[G.param(rng, p, U) for _ in range(rng.randint(1, 3))] for p, U in
                        zip(G.degs(o), o['knots'])]}

    @staticmethod
    def check(c, ig):
        nrb = G.build(ig, c['o'])
        if c['order'] == 0:
            r = nrb(*c['pts'])
        else:
            r = nrb.derivative(c['order'], None, *c['pts'])
        need(np.all(np.isfinite(r)), 'undefined output for derivative order %d', c['order'])


# ---------------------------------------------------------------- C29 plotting
class Recorder:
    """records what a plotting backend is given"""
    _resolution = {1: 9, 2: 5}

    def __init__(self):
        self.calls = []

    def points3d(self, *a, **k):
        self.calls.append(('points', a, k))

    def quiver3d(self, *a, **k):
        self.calls.append(('quiver', a, k))

    def line3d(self, lines, **k):
        self.calls.append(('lines', lines, k))

    def surf3d(self, surfs, **k):
        self.calls.append(('surfs', surfs, k))


@contract('C29')
class Plotting:
    @staticmethod
    def gen(rng):
        dim = rng.randint(1, 3)
        o = G.obj(rng, dim=dim, pmax=3, nspan=2 if dim > 1 else 4)
        return {'o': o, 'what': rng.choice(['cpoint', 'cwire', 'kpoint', 'kwire', 'ksurf', 'curve', 'surface',
                                            'volume', 'plot', 'cplot', 'kplot', 'points', 'quiver']),
                'axes': rng.choice([None, G.axis_of(rng, dim) % dim]), 'pd': rng.randint(1, 3),
                'pts': rng.array((4, 3)).tolist(), 'vec': rng.array((4, 3)).tolist()}

    @staticmethod
    def check(c, ig):
        from igakit import plot
        o, what = c['o'], c['what']
        K, A = G.arr(o)
        dim = len(K)
        nrb = G.build(ig, o)
        s = snap(nrb)
        P = plot.Plotter()
        P._backend = R = Recorder()
        br = []
        lin = lambda n: [np.linspace(*O.domain(p, U), n) for p, U in zip(G.degs(o), K)]
        for p, U in zip(G.degs(o), K):
            a, b = O.domain(p, U)
            br.append(np.array([a] + G.inner_breaks(p, U.tolist()) + [b]))
        e3 = lambda pts: ev(K, A, pts)[..., :3]

        def same(args, E, msg):
            X = np.stack([np.asarray(t) for t in args], -1)      # transposed axes
            n = X.ndim - 1
            X = np.transpose(X, list(range(n))[::-1] + [n])
            close(X, E, msg, 1e-8)
        kw = {'axes': c['axes']} if c['axes'] is not None and what in ('kwire', 'ksurf') else {}
        if what in ('points', 'quiver'):
            X = np.array(c['pts'])[:, :c['pd']]
            V = np.array(c['vec'])[:, :c['pd']]
            P.points(X) if what == 'points' else P.quiver(X, V)
            (k, a, _), = R.calls
            E = np.zeros((4, 3))
            E[:, :c['pd']] = X
            same(a[:3], E, what)
            if what == 'quiver':
                E = np.zeros((4, 3))
                E[:, :c['pd']] = V
                same(a[3:], E, 'vectors')
            return
        getattr(P, what)(nrb, **kw)
        calls = list(R.calls)
        pts = A[..., :3] / A[..., 3:4]
        if what in ('cpoint', 'cplot'):
            same(calls.pop(0)[1][:3], pts, 'control points')
        if what in ('cwire', 'cplot'):
            (l,) = calls.pop(0)[1]
            same(l, pts, 'control net')
        if what in ('kpoint', 'kplot'):
            same(calls.pop(0)[1][:3], e3(br), 'knot points')
        if what in ('kwire', 'kplot'):
            lines = calls.pop(0)[1]
            i = 0
            for ax in (range(dim) if not kw else [c['axes']]):
                q = list(br)
                q[ax] = np.linspace(br[ax][0], br[ax][-1], 9)
                E = np.moveaxis(e3(q), ax, -2).reshape(-1, 9, 3)
                for L in E:
                    same(lines[i], L, 'knot line'); i += 1
            need(i == len(lines), 'number of knot lines')
        if what == 'ksurf' and dim > 1:
            surfs = calls.pop(0)[1]
            i = 0
            for ax in (range(dim) if not kw else [c['axes']]):
                for x in br[ax]:
                    q = lin(5)
                    q[ax] = np.array([x])
                    same(surfs[i], np.squeeze(e3(q), ax), 'knot surface'); i += 1
            need(i == len(surfs), 'number of knot surfaces')
        if what == 'curve' or (what == 'plot' and dim == 1):
            if dim == 1:
                (l,) = calls.pop(0)[1]
                same(l, e3(lin(9)), 'curve')
            elif dim == 2:
                for ax in range(2):
                    for side in (0, 1):
                        q = lin(9)
                        q[ax] = q[ax][[-side]]
                        (l,) = calls.pop(0)[1]
                        same(l, np.squeeze(e3(q), ax), 'boundary curve')
        elif what in ('surface', 'plot', 'volume'):
            if dim == 2 and what != 'volume':
                (l,) = calls.pop(0)[1]
                same(l, e3(lin(5)), 'surface')
            elif dim == 3:
                surfs = calls.pop(0)[1]
                i = 0
                for ax in range(3):
                    for side in (0, 1):
                        q = lin(5)
                        q[ax] = q[ax][[-side]]
                        same(surfs[i], np.squeeze(e3(q), ax), 'boundary surface'); i += 1
                need(len(surfs) == 6, 'number of boundary surfaces')
            need(not calls, 'unexpected drawing')
        unchanged(nrb, s, 'plotting')
