"""Executable contracts, part A: kernel look-ups, bases, evaluation, derivatives,
knot/degree operations.  Every entry is (generator, checker); a checker raises Fail."""
import numpy as np
import oracle as O
import gen as G

EPS = np.finfo(float).eps


class Fail(Exception):
    pass


def need(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def close(x, y, msg, tol=1e-9, scale=None):
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    need(x.shape == y.shape, '%s: shape %s, expected %s', msg, x.shape, y.shape)
    if x.size == 0:
        return
    sc = max(1.0, float(np.max(np.abs(y)))) if scale is None else scale
    bad = ~(np.abs(x - y) <= tol * sc)
    if bad.any():
        i = tuple(int(t) for t in np.argwhere(bad)[0])
        raise Fail('%s: got %r, expected %r at index %s' % (msg, float(x[i]), float(y[i]), i))


def agrees(x, y, tol):
    return bool(np.all(np.abs(x - y) <= tol * max(1.0, float(np.max(np.abs(y))) if y.size else 1)))


REG = {}


def contract(pid, weight=1.0):
    def deco(cls):
        REG.setdefault(pid, []).append((cls.__name__, cls, weight))
        return cls
    return deco


def geom_pts(o, rng, n=2):
    """list of parameter lists for an object dict, includes breaks, ends, interior"""
    return [O.sample_params(p, U, rng, n) for p, U in zip(G.degs(o), o['knots'])]


def nrb_arr(nrb):
    return [np.array(k) for k in nrb.knots], np.array(nrb.array)


def cshape_pts(o, K2, seed):
    """sample parameters common to both objects"""
    rng = G.Rng(seed)
    pts = []
    for p, U, V in zip(G.degs(o), o['knots'], K2):
        s = O.sample_params(p, U, rng, 2)
        pts.append(s)
    return pts


def same_geometry(o, nrb, msg, seed=0, tol=1e-8, cw=True):
    """nrb describes the same map (and fields) as object dict o on o's domain"""
    K, A = G.arr(o)
    K2, A2 = nrb_arr(nrb)
    need(len(K2) == len(K), '%s: parametric dimension changed', msg)
    need(A2.shape[-1] == A.shape[-1], '%s: number of field components changed', msg)
    for ax, U in enumerate(K2):
        need(np.all(np.diff(U) >= 0), '%s: knot vector of axis %d not sorted: %s', msg, ax, U.tolist())
        need(np.all(np.isfinite(U)), '%s: knots not finite', msg)
        q = len(U) - A2.shape[ax] - 1
        p = len(K[ax]) - A.shape[ax] - 1
        d1, d2 = O.domain(p, K[ax]), O.domain(q, U)
        need(abs(d1[0] - d2[0]) < 1e-12 and abs(d1[1] - d2[1]) < 1e-12,
             '%s: domain of axis %d is %s, expected %s', msg, ax, d2, d1)
    pts = cshape_pts(o, K2, seed)
    for sides in (['r'] * len(K), ['l'] * len(K)):
        e = O.eval_homog(K, A, pts, None, sides)
        g = O.eval_homog(K2, A2, pts, None, sides)
        if cw:
            close(g, e, msg + ' (homogeneous)', tol)
        else:
            close(g[..., :3] / g[..., 3:4], e[..., :3] / e[..., 3:4], msg, tol)
    # through the library's own evaluation
    C = nrb(*pts, fields=True) if A.shape[-1] > 4 else (nrb(*pts), None)
    e = O.eval_points(K, A, pts)
    close(C[0], e[..., :3], msg + ' (evaluated)', tol)
    if A.shape[-1] > 4:
        close(C[1], e[..., 3:], msg + ' (fields evaluated)', tol)


# ---------------------------------------------------------------- C01 lookups
@contract('C01')
class Lookup:
    @staticmethod
    def gen(rng):
        p = rng.randint(1, 7)
        U = G.knots(rng, p, rng.randint(1, 9))
        us = O.sample_params(p, U, rng, 3)
        a, b = O.domain(p, U)
        for x in list(set(U)):
            if a <= x <= b:
                us += [float(t) for t in (np.nextafter(x, -9e9), np.nextafter(x, 9e9))
                       if a <= t <= b]
        return {'p': p, 'U': U, 'u': us}

    @staticmethod
    def check(c, ig):
        p, U = c['p'], np.array(c['U'])
        n = len(U) - p - 2
        for u in c['u']:
            k = ig.bsp.FindSpan(p, U, u)
            e = O.find_span(p, U, u)
            need(k == e, 'FindSpan(p=%d,u=%r) = %d, expected %d', p, u, k, e)
            near = [j for j in range(len(U)) if abs(U[j] - u) < EPS]
            m = ig.bsp.FindMult(p, U, u)
            need(m == len(near), 'FindMult(p=%d,u=%r) = %d, expected %d', p, u, m, len(near))
            m = ig.bsp.FindMult(p, U, u, e)
            need(m == len(near), 'FindMult(span given) = %d, expected %d', m, len(near))
            k2, s2 = ig.bsp.FindSpanMult(p, U, u)
            e2 = max([e] + near)        # last knot matching u
            need((k2, s2) == (e2, len(near)), 'FindSpanMult(u=%r) = %s, expected %s', u, (k2, s2),
                 (e2, len(near)))
        sp = ig.bsp.SpanIndex(p, U)
        ex = [k for k in range(p, n + 1) if U[k + 1] - U[k] > EPS]
        need(list(sp) == ex, 'SpanIndex = %s, expected %s', list(sp), ex)
        nrb = ig.NURBS([U], np.zeros((n + 1, 3)))
        need(list(nrb.spans(0)) == ex, 'spans(0) wrong')
        need([list(x) for x in nrb.spans()] == [ex], 'spans() wrong')


@contract('C01', 0.3)
class SpansNd:
    @staticmethod
    def gen(rng):
        return {'o': G.obj(rng, dim=rng.choice([2, 3]))}

    @staticmethod
    def check(c, ig):
        nrb = G.build(ig, c['o'])
        K, A = G.arr(c['o'])
        for ax, (p, U) in enumerate(zip(G.degs(c['o']), K)):
            n = len(U) - p - 2
            ex = [k for k in range(p, n + 1) if U[k + 1] - U[k] > EPS]
            for a in (ax, ax - len(K)):
                need(list(nrb.spans(a)) == ex, 'spans(%d) = %s expected %s', a, list(nrb.spans(a)), ex)
            need(list(nrb.spans()[ax]) == ex, 'spans()[%d] wrong', ax)


# ---------------------------------------------------------------- C02/C03 bases
@contract('C02')
class BasisValues:
    @staticmethod
    def gen(rng):
        p = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10])
        U = G.knots(rng, p, rng.randint(1, 7))
        return {'p': p, 'U': U, 'u': O.sample_params(p, U, rng, 3)}

    @staticmethod
    def check(c, ig):
        p, U = c['p'], np.array(c['U'])
        for u in c['u']:
            k = O.find_span(p, U, u)
            e = O.all_basis(p, U, u, k)[p][k - p:k + 1]
            for N in (ig.bsp.EvalBasisFuns(p, U, u), ig.bsp.EvalBasisFuns(p, U, u, k),
                      ig.bsp.EvalBasisFunsDers(p, U, u, 0)[0]):
                need(N.shape == (p + 1,), 'basis: shape %s', N.shape)
                need(np.all(N >= -1e-12), 'basis negative at u=%r: %s', u, N.tolist())
                need(abs(N.sum() - 1) < 1e-10, 'basis sums to %r at u=%r', N.sum(), u)
                close(N, e, 'basis functions at u=%r' % u, 1e-10)
            N = ig.iga.BasisDataCol(p, U, [u], 0)
            need(N[0][0] == k - p, 'BasisDataCol offset %d expected %d', N[0][0], k - p)
            close(N[1][0, :, 0], e, 'BasisDataCol values', 1e-10)
            kl = O.find_span(p, U, u, 'l')       # explicit span: left limit
            e = O.all_basis(p, U, u, kl)[p][kl - p:kl + 1]
            close(ig.bsp.EvalBasisFuns(p, U, u, kl), e, 'basis, explicit span, u=%r' % u, 1e-10)


@contract('C03')
class BasisDers:
    @staticmethod
    def gen(rng):
        p = rng.choice([1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7])
        U = G.knots(rng, p, rng.randint(1, 5))
        return {'p': p, 'U': U, 'u': O.sample_params(p, U, rng, 2), 'd': rng.randint(0, p)}

    @staticmethod
    def check(c, ig):
        p, U = c['p'], np.array(c['U'])
        for d in (c['d'], p, None):
            for u in c['u']:
                dd = p if d is None else d
                for side in 'rl':
                    k = O.find_span(p, U, u, side)
                    e = O.basis_ders(p, U, u, dd, k)[:, k - p:k + 1]
                    kw = {} if d is None else {'d': d}
                    if side == 'l':
                        kw['span'] = k
                    D = ig.bsp.EvalBasisFunsDers(p, U, u, **kw)
                    need(D.shape == (dd + 1, p + 1), 'derivative table shape %s', D.shape)
                    for j in range(dd + 1):
                        sc = max(1.0, np.abs(e[j]).max())
                        close(D[j], e[j], 'derivative %d of the basis (p=%d,u=%r)' % (j, p, u),
                              1e-8, sc)
                        need(abs(D[j].sum() - (j == 0)) < 1e-8 * sc,
                             'derivatives of order %d sum to %r', j, D[j].sum())


# ---------------------------------------------------------------- C04 evaluation
def eval_args(rng, o, forms='nsa'):
    args = []
    for p, U in zip(G.degs(o), o['knots']):
        f = rng.choice(forms)
        if f == 'n':
            args.append(None)
        elif f == 's':
            args.append(G.param(rng, p, U))
        else:
            k = rng.randint(1, 4)
            args.append([G.param(rng, p, U) for _ in range(k)])
    return args


def grev(p, U):
    n = len(U) - p - 2
    return [float(np.sum(U[i + 1:i + p + 1]) / p) for i in range(n + 1)]


def in_domain(p, U, pts):
    a, b = O.domain(p, U)
    return all(a <= x <= b for x in pts)


def full_pts(o, args):
    K, A = G.arr(o)
    out, rem = [], []
    for i, (p, U) in enumerate(zip(G.degs(o), K)):
        a = args[i] if i < len(args) else None
        if a is None:
            out.append(grev(p, U))
        elif np.ndim(a) == 0:
            out.append([a]); rem.append(i)
        else:
            out.append(list(a))
    return out, rem


def squeeze(X, rem):
    for i in reversed(rem):
        X = X.take(0, axis=i)
    return X


@contract('C04')
class Evaluation:
    @staticmethod
    def gen(rng):
        o = G.obj(rng)
        K, A = G.arr(o)
        args = eval_args(rng, o)
        mode = rng.choice(['call', 'call', 'fields', 'explicit', 'evaluate', 'evaluate_exp',
                           'evaluate_scalar', 'explicit_scalar'])
        F = None
        if mode in ('explicit', 'evaluate_exp'):
            F = rng.array(A.shape[:-1] + (rng.randint(1, 3),)).tolist()
        elif mode in ('evaluate_scalar', 'explicit_scalar'):
            F = rng.array(A.shape[:-1]).tolist()
        if mode in ('fields', 'evaluate') and A.shape[-1] == 4:
            mode = 'call'
        return {'o': o, 'args': args, 'mode': mode, 'F': F}

    @staticmethod
    def check(c, ig):
        o, args, mode = c['o'], c['args'], c['mode']
        K, A = G.arr(o)
        nrb = G.build(ig, o)
        pts, rem = full_pts(o, args)
        for p, U, x in zip(G.degs(o), K, pts):
            # Greville abscissae can lie (just) outside the domain of unclamped axes
            need(True, '')
        if not all(in_domain(p, U, x) for p, U, x in zip(G.degs(o), K, pts)):
            return 'skip'
        w = A[..., 3:4]
        if c['F'] is not None:
            F = np.array(c['F'])
            Fe = F if F.ndim == w.ndim else F[..., None]
            B = np.concatenate([A[..., :4], Fe * w], -1)
        else:
            F, B = None, A
        e = squeeze(O.eval_points(K, B, pts), rem)
        if mode == 'call':
            close(nrb(*args), e[..., :3], 'evaluated points')
            close(nrb(*args, fields=False), e[..., :3], 'evaluated points')
        elif mode == 'fields':
            C, D = nrb(*args, fields=True)
            close(C, e[..., :3], 'evaluated points'); close(D, e[..., 3:], 'evaluated fields')
        elif mode in ('explicit', 'explicit_scalar'):
            C, D = nrb(*args, fields=F)
            close(C, e[..., :3], 'evaluated points'); close(D, e[..., 3:], 'evaluated fields')
        elif mode == 'evaluate':
            close(nrb.evaluate(None, *args), e[..., 3:], 'evaluate()')
        elif mode == 'evaluate_exp':
            close(nrb.evaluate(F, *args), e[..., 3:], 'evaluate(fields)')
        else:
            close(nrb.evaluate(F, *args), e[..., 3], 'evaluate(scalar field)')


@contract('C04', 0.2)
class EvaluationRaw:
    """raw kernel with arbitrary number of components, 0..3 dimensions"""
    @staticmethod
    def gen(rng):
        dim = rng.randint(0, 3)
        d = rng.randint(1, 7)
        if dim == 0:
            return {'dim': 0, 'A': rng.array([d]).tolist()}
        o = G.obj(rng, dim=dim)
        K, A = G.arr(o)
        return {'dim': dim, 'K': o['knots'], 'A': rng.array(A.shape[:-1] + (d,)).tolist(),
                'pts': [[G.param(rng, p, U) for _ in range(rng.randint(1, 3))]
                        for p, U in zip(G.degs(o), K)]}

    @staticmethod
    def check(c, ig):
        A = np.array(c['A'])
        if c['dim'] == 0:
            close(ig.bsp.Evaluate0(A), A, 'Evaluate0')
            return
        K = [np.array(k) for k in c['K']]
        a = []
        for i, U in enumerate(K):
            a += [len(U) - A.shape[i] - 1, U]
        R = getattr(ig.bsp, 'Evaluate%d' % c['dim'])(*(a + [A] + c['pts']))
        close(R, O.eval_homog(K, A, c['pts']), 'Evaluate%d' % c['dim'])


# ---------------------------------------------------------------- C05/C06 derivatives
@contract('C05')
class Derivatives:
    @staticmethod
    def gen(rng):
        order = rng.randint(1, 4)
        dim = rng.choice([1, 1, 2, 2, 3])
        o = G.obj(rng, dim=dim, pmax={1: 6, 2: 4, 3: 3 if order < 4 else 2}[dim],
                  nspan={1: 4, 2: 3, 3: 2}[dim])
        K, A = G.arr(o)
        mode = rng.choice(['own', 'own', 'expl', 'scalar'])
        F = None
        if mode == 'expl':
            F = rng.array(A.shape[:-1] + (rng.randint(1, 3),)).tolist()
        elif mode == 'scalar':
            F = rng.array(A.shape[:-1]).tolist()
        args = eval_args(rng, o, 'saa' if dim == 3 else 'nsaa')
        api = rng.choice(['named', 'derivative'])
        return {'o': o, 'args': args, 'order': order, 'F': F, 'api': api}

    @staticmethod
    def check(c, ig):
        o, args, order = c['o'], c['args'], c['order']
        K, A = G.arr(o)
        dim = len(K)
        pts, rem = full_pts(o, args)
        if not all(in_domain(p, U, x) for p, U, x in zip(G.degs(o), K, pts)):
            return 'skip'
        nrb = G.build(ig, o)
        w = A[..., 3:4]
        F = c['F']
        if F is None:
            Fe = A[..., 4:] / w if A.shape[-1] > 4 else A[..., :3] / w
        else:
            F = np.array(F)
            Fe = F if F.ndim == w.ndim else F[..., None]
        R = O.rational_ders(K, np.concatenate([w, Fe * w], -1), pts, order)
        e = O.derivative_tensor(R, dim, order)
        if F is not None and F.ndim < w.ndim:
            e = e.take(0, axis=dim)
        e = squeeze(e, rem)
        if c['api'] == 'named' and order <= 2:
            f = nrb.gradient if order == 1 else nrb.hessian
            g = f(F, *args)
        else:
            g = nrb.derivative(order, F, *args)
        need(g.shape == e.shape, 'order-%d derivatives: shape %s, expected %s', order, g.shape, e.shape)
        if dim == 1 and order == 4:                     # known finding F1, exactly
            R = O.rational_ders(K, np.concatenate([w, Fe * w], -1), pts, order, known='F1')
            e2 = O.derivative_tensor(R, dim, order)
            if F is not None and F.ndim < w.ndim:
                e2 = e2.take(0, axis=dim)
            e2 = squeeze(e2, rem)
            if agrees(g, e2, 1e-8) and not agrees(g, e, 1e-8):
                return 'known:F1'
        sc = max(1.0, np.abs(e).max() if e.size else 0.0)
        close(g, e, 'order-%d partial derivatives' % order, 1e-8, sc)


@contract('C06')
class MappedGradient:
    @staticmethod
    def gen(rng):
        dim = rng.choice([1, 2, 2, 3])
        o = G.obj(rng, dim=dim, planar=True, pmax={1: 5, 2: 3, 3: 2}[dim], nspan=2, maxmult=1)
        K, A = G.arr(o)
        mode = rng.choice(['own', 'expl', 'scalar', 'coords'])
        F = None
        if mode == 'expl':
            F = rng.array(A.shape[:-1] + (rng.randint(1, 4),)).tolist()
        elif mode == 'scalar':
            F = rng.array(A.shape[:-1]).tolist()
        elif mode == 'coords':
            F = (A[..., :dim] / A[..., 3:4]).tolist()
        return {'o': o, 'args': eval_args(rng, o, 'saa'), 'F': F, 'mode': mode,
                'api': rng.choice(['gradient', 'derivative'])}

    @staticmethod
    def check(c, ig):
        o, args = c['o'], c['args']
        K, A = G.arr(o)
        dim = len(K)
        pts, rem = full_pts(o, args)
        nrb = G.build(ig, o)
        w = A[..., 3:4]
        F = c['F']
        if F is None:
            Fe = A[..., 4:] / w if A.shape[-1] > 4 else A[..., :3] / w
        else:
            F = np.array(F)
            Fe = F if F.ndim == w.ndim else F[..., None]
        D = lambda X: O.derivative_tensor(
            O.rational_ders(K, np.concatenate([w, X * w], -1), pts, 1), dim, 1)
        J = D(A[..., :dim] / w)
        if np.abs(np.linalg.det(J)).min() < 1e-3:
            return 'skip'
        e = D(Fe) @ np.linalg.inv(J)
        if F is not None and F.ndim < w.ndim:
            e = e.take(0, axis=dim)
        e = squeeze(e, rem)
        if c['api'] == 'gradient':
            g = nrb.gradient(F, *args, mapped=True)
        else:
            g = nrb.derivative(1, F, *args, mapped=True)
        close(g, e, 'mapped gradient', 1e-7)
        if c['mode'] == 'coords' and not rem:
            close(g, np.broadcast_to(np.eye(dim), g.shape), 'gradient of the coordinates', 1e-7)


# ---------------------------------------------------------------- C07 insert
def knots_plus(U, vals):
    return np.sort(np.concatenate([U, np.asarray(vals, float)]))


def drop_outer(p, U, V):
    """copies of a domain end inserted at an unclamped end push knots out of the domain"""
    a, b = O.domain(p, U)
    i = max(k for k in range(len(V)) if V[k] <= a) - p
    j = min(k for k in range(len(V)) if V[k] >= b) + p + 1
    return V[i:j]


def check_other_axes(o, nrb, ax, msg):
    K, A = G.arr(o)
    for i, U in enumerate(K):
        if i != ax:
            need(np.array_equal(U, nrb.knots[i]), '%s: knots of axis %d changed', msg, i)
            need(nrb.array.shape[i] == A.shape[i], '%s: shape of axis %d changed', msg, i)


@contract('C07')
class Insert:
    @staticmethod
    def gen(rng):
        o = G.obj(rng)
        dim = len(o['knots'])
        ax = G.axis_of(rng, dim)
        p, U = G.degs(o)[ax], o['knots'][ax]
        v = G.param(rng, p, U) if rng.chance(0.6) else G.new_knot(rng, p, U)
        s = O.mult_of(U, v)
        near = rng.chance(0.1) and O.domain(p, U)[0] < v < O.domain(p, U)[1]
        room = max(0, p - s)
        t = rng.choice([None, 0, 1, room, rng.randint(0, room)])
        if t is not None and t > room:
            t = room
        if t is None and s > p:
            t = 0
        if near:
            v = float(np.nextafter(v, rng.choice([-9e9, 9e9])))
        return {'o': o, 'axis': ax, 'value': v, 'times': t, 'dflt': rng.chance(0.2) and t == 1}

    @staticmethod
    def check(c, ig):
        o, ax = c['o'], c['axis']
        K, A = G.arr(o)
        U = K[ax]
        p = G.degs(o)[ax]
        v, t = c['value'], c['times']
        nrb = G.build(ig, o)
        r = nrb.insert(ax, v) if c['dflt'] else nrb.insert(ax, v, t)
        need(r is nrb, 'insert does not return the object')
        s = min(p, int(np.sum(np.abs(U - v) < EPS)))
        tt = p - s if t is None else t
        if s:                                       # an existing knot up to round-off
            v = float(U[int(np.argmin(np.abs(U - v)))])
        V = drop_outer(p, U, knots_plus(U, [v] * tt))
        close(nrb.knots[ax], V, 'knots after insert', 1e-14)
        i = range(len(K))[ax]
        need(nrb.array.shape[i] == len(V) - p - 1, 'control net size after insert')
        check_other_axes(o, nrb, range(len(K))[ax], 'insert')
        same_geometry(o, nrb, 'insert')


# ---------------------------------------------------------------- C08 refine
@contract('C08')
class RefineKnots:
    @staticmethod
    def gen(rng):
        o = G.obj(rng)
        ax = G.axis_of(rng, len(o['knots']))
        p, U = G.degs(o)[ax], o['knots'][ax]
        a, b = O.domain(p, U)
        vals = []
        br = G.inner_breaks(p, U)
        cand = list(br) + [G.new_knot(rng, p, U) for _ in range(rng.randint(0, 3))]
        if rng.chance(0.3):
            cand += [a, b]
        cand = sorted(set(cand))
        sel, last = [], None
        for x in cand:
            if last is not None and x - last < 1e-3 * (b - a):
                continue
            sel.append(x); last = x
        for x in sel:
            if any(abs(x - y) < 1e-3 * (b - a) and x != y for y in br + [a, b]):
                continue
            room = p - O.mult_of(U, x)
            if x in (a, b):
                # the end knot outside the domain does not count in the argument check
                room = min(room, p - O.mult_of(U[1:-1], x))
            for _ in range(rng.randint(0, max(0, room))):
                vals.append(float(x))
        if rng.chance(0.4):
            vals = [float(x) for x in rng.shuffle(vals)]
        form = rng.choice(['array', 'list', 'scalar', 'array'])
        if form == 'scalar':
            vals = vals[:1]
            if not vals:
                form = 'array'
        if rng.chance(0.05):
            return {'o': o, 'axis': ax, 'values': None, 'form': 'none'}
        return {'o': o, 'axis': ax, 'values': vals, 'form': form}

    @staticmethod
    def check(c, ig):
        o, ax = c['o'], c['axis']
        K, A = G.arr(o)
        v = c['values']
        if c['form'] == 'array':
            arg = np.array(v, float)
        elif c['form'] == 'scalar':
            arg = v[0]
        else:
            arg = v
        nrb = G.build(ig, o)
        r = nrb.refine(ax, arg)
        need(r is nrb, 'refine does not return the object')
        v = v or []
        p = G.degs(o)[ax]
        V = drop_outer(p, K[ax], knots_plus(K[ax], v))
        close(nrb.knots[ax], V, 'knots after refine', 1e-14)
        i = range(len(K))[ax]
        need(nrb.array.shape[i] == len(V) - p - 1, 'control net size after refine')
        check_other_axes(o, nrb, range(len(K))[ax], 'refine')
        same_geometry(o, nrb, 'refine')
        # equivalent to inserting the knots one by one
        nr2 = G.build(ig, o)
        for x in v:
            nr2.insert(ax, x, 1)
        close(nrb.array, nr2.array, 'refine differs from repeated insertion', 1e-8)


@contract('C08', 0.15)
class RefineLong:
    """many knots in one call, high degree"""
    @staticmethod
    def gen(rng):
        o = G.obj(rng, dim=1, pmax=9, nspan=8, pmin=rng.choice([1, 5]))
        p, U = G.degs(o)[0], o['knots'][0]
        br = [U[p]] + G.inner_breaks(p, U) + [U[-p - 1]]
        vals = []
        for x, y in zip(br[:-1], br[1:]):
            k = rng.randint(0, 4)
            for i in range(k):
                vals += [x + (y - x) * (i + 1) / (k + 1)] * rng.randint(1, p)
        return {'o': o, 'axis': 0, 'values': vals, 'form': 'array'}

    check = RefineKnots.check


# ---------------------------------------------------------------- C09 remove
@contract('C09')
class Remove:
    @staticmethod
    def gen(rng):
        """a removable knot: insert first (oracle side: Boehm in the checker through
        the library's own insert would mask bugs, so the refined object is built here)"""
        dim = rng.choice([1, 1, 2, 3])
        o = G.obj(rng, dim=dim, nf=rng.choice([0, 1]))
        ax = G.axis_of(rng, dim)
        p, U = G.degs(o)[ax], o['knots'][ax]
        br = G.inner_breaks(p, U)
        kind = rng.choice(['inserted', 'inserted', 'inserted', 'absent', 'stuck', 'end', 'partial'])
        if kind in ('stuck', 'partial') and not br:
            kind = 'inserted'
        c = {'o': o, 'axis': ax, 'kind': kind}
        if kind == 'absent':
            c.update(value=G.new_knot(rng, p, U), ins=0, times=rng.choice([None, 1, 2]))
        elif kind == 'end':
            c.update(value=rng.choice(O.domain(p, U)), ins=0, times=rng.choice([None, 1]))
        elif kind == 'stuck':
            c.update(value=rng.choice(br), ins=0, times=rng.choice([None, 1, 2]))
        else:
            v = rng.choice(br) if (kind == 'partial') else G.new_knot(rng, p, U)
            room = p - O.mult_of(U, v)
            ins = rng.randint(min(1, room), max(room, 0)) if room > 0 else 0
            c.update(value=v, ins=ins, times=rng.choice([None, 1, ins, rng.randint(0, ins + 1)]))
        return c

    @staticmethod
    def check(c, ig):
        o, ax = c['o'], c['axis']
        K, A = G.arr(o)
        p = G.degs(o)[ax]
        U = K[ax]
        v, ins, times = c['value'], c['ins'], c['times']
        A2 = A
        V = U
        for _ in range(ins):                          # oracle-side Boehm insertion
            V, A2 = boehm(p, V, A2, v, range(len(K))[ax])
        K2 = list(K)
        K2[range(len(K))[ax]] = V
        o2 = {'knots': [k.tolist() for k in K2], 'array': A2.tolist()}
        nrb = G.build(ig, o2)
        r = nrb.remove(ax, v, times)
        need(r is nrb, 'remove does not return the object')
        s = min(p, int(np.sum(np.abs(V - v) < EPS)))
        want = s if times is None else min(times, s)
        removed = len(V) - len(nrb.knots[ax])
        need(0 <= removed <= want, 'removed %d knots, asked for %d', removed, want)
        exp = list(V)
        for _ in range(removed):
            i = int(np.argmin([abs(x - v) for x in exp]))
            del exp[i]
        close(nrb.knots[ax], exp, 'knots after remove', 1e-14)
        i = range(len(K))[ax]
        need(nrb.array.shape[i] == A2.shape[i] - removed, 'control net after remove')
        check_other_axes(o2, nrb, range(len(K))[ax], 'remove')
        same_geometry(o2, nrb, 'remove', tol=1e-6)
        a, b = O.domain(p, U)
        if not (a < v < b):
            need(removed == 0, 'removed a domain end knot')
        elif c['kind'] in ('inserted', 'partial'):
            # the removability test uses an absolute tolerance deviation*wmin/(1+Pmax)
            need(removed >= min(ins, want), 'only %d of %d removable knots were removed',
                 removed, min(ins, want))
        elif c['kind'] == 'stuck':
            need(removed == 0, 'removed a knot that changes the geometry')


@contract('C09', 0.3)
class RemoveTolerance:
    """a knot whose removal would move the curve by more than the tolerance stays; a
    generous tolerance lets it go"""
    @staticmethod
    def gen(rng):
        o = G.obj(rng, dim=1, nf=0, rational=rng.chance(0.5))
        p, U = G.degs(o)[0], o['knots'][0]
        v = G.new_knot(rng, p, U)
        A = np.array(o['array'])
        return {'o': o, 'value': v, 'size': rng.choice([1e-3, 1e-2, 1e-5]),
                'dir': rng.array([4], -1, 1).tolist()}

    @staticmethod
    def check(c, ig):
        o = c['o']
        K, A = G.arr(o)
        p = G.degs(o)[0]
        v = c['value']
        V, A2 = boehm(p, K[0], A, v, 0)
        k = O.find_span(p, V, v)
        A2 = A2.copy()
        i = k - 1 - (p // 2) if p > 1 else k - 1
        i = min(max(i, 0), len(A2) - 1)
        d = np.array(c['dir'])
        d /= np.linalg.norm(d) + 1e-12
        A2[i, :3] += c['size'] * d[:3] + c['size'] * 0.1
        nrb = ig.NURBS([V], A2.copy())
        nrb.remove(0, v, 1)
        o2 = {'knots': [V.tolist()], 'array': A2.tolist()}
        same_geometry(o2, nrb, 'remove of a not exactly removable knot', tol=1e-7)


@contract('C09', 0.5)
class RemoveDeviation:
    """whatever the requested deviation, size and weights: removing a knot moves no point of the curve by more"""
    @staticmethod
    def gen(rng):
        dim = rng.choice([1, 1, 1, 2])
        o = G.obj(rng, dim=dim, nf=rng.choice([0, 0, 1]), pmax=4, nspan=3)
        ax = rng.randint(0, dim - 1)
        p, U = G.degs(o)[ax], o['knots'][ax]
        dev = 10 ** rng.uniform(-8, -1)
        return {'o': o, 'axis': ax, 'value': G.new_knot(rng, p, U), 'ins': rng.randint(1, min(p, 2)), 'dev': dev,
                'scale': rng.choice([1.0, 1.0, 100.0, 1e4, 0.01]), 'wscale': rng.choice([1.0, 1.0, 0.05, 20.0]),
                'amp': dev * 10 ** rng.uniform(-3, 5), 'seed': rng.randint(0, 10 ** 6), 'times': rng.choice([1, 1, None])}

    @staticmethod
    def check(c, ig):
        o, ax = c['o'], c['axis']
        K, A = G.arr(o)
        p = G.degs(o)[ax]
        A = A.copy()
        A[..., :3] *= c['scale']
        A *= c['wscale']
        V, A2 = K[ax], A
        for _ in range(c['ins']):
            V, A2 = boehm(p, V, A2, c['value'], ax)
        A2 = A2.copy()
        g = np.random.default_rng(c['seed'])
        A2[..., :3] += c['amp'] * g.uniform(-1, 1, A2[..., :3].shape) * (g.random(A2[..., :1].shape) < 0.5)
        K2 = list(K)
        K2[ax] = V
        o2 = {'knots': [np.asarray(k).tolist() for k in K2], 'array': A2.tolist()}
        nrb = G.build(ig, o2)
        nrb.remove(ax, c['value'], c['times'], deviation=c['dev'])
        removed = len(V) - len(nrb.knots[ax])
        if removed == 0:
            need(np.allclose(nrb.array, A2, rtol=1e-12, atol=0), 'nothing removed but the control points changed')
            return
        uu = [np.linspace(*O.domain(len(k) - n - 1, k), 17) for k, n in zip(K2, A2.shape)]
        uu[ax] = np.unique(np.concatenate([uu[ax], np.linspace(*O.domain(p, V), 41)]))
        P0 = O.eval_homog([np.asarray(k) for k in K2], A2, uu)
        P1 = O.eval_homog([np.asarray(k) for k in nrb.knots], nrb.array, uu)
        d = np.linalg.norm(P0[..., :3] / P0[..., 3:4] - P1[..., :3] / P1[..., 3:4], axis=-1).max()
        lim = removed * c['dev'] * (1 + 1e-6) + 1e-9 * max(1.0, c['scale'])
        need(d <= lim, 'removed %d knots: moved by %.3g, allowed %.3g', removed, d, lim)


def boehm(p, U, A, v, ax):
    """single knot insertion by the textbook formula (oracle)"""
    U = np.asarray(U, float)
    A = np.moveaxis(np.asarray(A, float), ax, 0)
    k = max(i for i in range(len(U)) if U[i] <= v)
    n1 = len(A)
    Q = np.zeros((n1 + 1,) + A.shape[1:])
    for i in range(n1 + 1):
        if i <= k - p:
            Q[i] = A[i]
        elif i > k or U[i] == v:
            Q[i] = A[i - 1]
        else:
            al = (v - U[i]) / (U[i + p] - U[i])
            Q[i] = al * A[i] + (1 - al) * A[i - 1]
    V = np.insert(U, k + 1, v)
    return V, np.moveaxis(Q, 0, ax)


# ---------------------------------------------------------------- C10 elevate
@contract('C10')
class Elevate:
    @staticmethod
    def gen(rng):
        o = G.obj(rng, ends=rng.choice([None, ['c', 'c'], ['c', 'c']]))
        ax = G.axis_of(rng, len(o['knots']))
        return {'o': o, 'axis': ax, 'times': rng.choice([None, 0, 1, 1, 2, 3, 4])}

    @staticmethod
    def check(c, ig):
        o, ax, t = c['o'], c['axis'], c['times']
        K, A = G.arr(o)
        p = G.degs(o)[ax]
        nrb = G.build(ig, o)
        r = nrb.elevate(ax, t) if t != 1 else nrb.elevate(ax)
        need(r is nrb, 'elevate does not return the object')
        t = t or 0
        need(nrb.degree[ax] == p + t, 'degree is %d, expected %d', nrb.degree[ax], p + t)
        check_other_axes(o, nrb, range(len(K))[ax], 'elevate')
        U = K[ax]
        if t:
            a, b = O.domain(p, U)
            ex = [a] * (p + t + 1)
            for x in G.inner_breaks(p, U):
                ex += [x] * (O.mult_of(U, x) + t)
            ex += [b] * (p + t + 1)
            close(nrb.knots[ax], ex, 'knots after elevate', 1e-13)
        else:
            need(np.array_equal(nrb.knots[ax], U), 'elevate(0) changed the knots')
        same_geometry(o, nrb, 'elevate', tol=1e-7)


@contract('C10', 0.3)
class ElevateHigh:
    @staticmethod
    def gen(rng):
        o = G.obj(rng, dim=1, pmax=8, nspan=6, ends=['c', 'c'])
        return {'o': o, 'axis': 0, 'times': rng.randint(1, 7)}

    check = Elevate.check


# ---------------------------------------------------------------- C11 clamp
@contract('C11')
class ClampUnclamp:
    @staticmethod
    def gen(rng):
        op = rng.choice(['clamp', 'unclamp'])
        o = G.obj(rng)
        ax = G.axis_of(rng, len(o['knots']))
        p = G.degs(o)[ax]
        return {'o': o, 'axis': ax, 'op': op, 'side': rng.choice([None, 0, 1]),
                'cont': rng.choice([None] + list(range(p)))}

    @staticmethod
    def check(c, ig):
        o, ax, side = c['o'], c['axis'], c['side']
        K, A = G.arr(o)
        U = K[ax]
        p = G.degs(o)[ax]
        n = len(U) - p - 2
        nrb = G.build(ig, o)
        if c['op'] == 'clamp':
            r = nrb.clamp(ax, side)
            V = U.copy()
            if side in (None, 0):
                V[:p] = U[p]
            if side in (None, 1):
                V[n + 2:] = U[n + 1]
            close(nrb.knots[ax][1:-1], V[1:-1], 'knots after clamp', 1e-13)
            for i, s in ((0, 0), (-1, 1)):
                if side in (None, s):
                    close(nrb.knots[ax][i], V[i], 'end knot after clamp', 1e-13)
        else:
            r = nrb.unclamp(ax, side, c['cont'])
            C = p - 1 if c['cont'] is None else c['cont']
            W = nrb.knots[ax]
            need(len(W) == len(U), 'unclamp changed the number of knots')
            close(W[p:n + 2], U[p:n + 2], 'interior knots after unclamp', 1e-13)
            a, b = U[p], U[n + 1]
            if side in (None, 0):
                # multiplicity p-C at the end, then periodic images of the right spans
                need(O.mult_of(W, a) == p - C, 'multiplicity %d at the left end, expected %d',
                     O.mult_of(W, a), p - C)
                close(W[:C + 1], a - b + W[n - C:n + 1], 'left knots after unclamp', 1e-13)
                close(W[C + 1:p], np.full(p - C - 1, a), 'left end knots after unclamp', 1e-13)
            else:
                close(W[:p], U[:p], 'left knots touched by unclamp(side=1)', 1e-13)
            if side in (None, 1):
                need(O.mult_of(W, b) == p - C, 'multiplicity %d at the right end, expected %d',
                     O.mult_of(W, b), p - C)
                close(W[-C - 1:], b - a + W[p + 1:p + C + 2], 'right knots after unclamp', 1e-13)
                close(W[n + 2:n + 1 + p - C], np.full(p - C - 1, b), 'right end knots', 1e-13)
            else:
                close(W[n + 2:], U[n + 2:], 'right knots touched by unclamp(side=0)', 1e-13)
        need(r is nrb, 'clamp/unclamp does not return the object')
        need(nrb.array.shape == A.shape, 'control net size changed')
        check_other_axes(o, nrb, range(len(K))[ax], c['op'])
        same_geometry(o, nrb, c['op'], tol=1e-6)


# ---------------------------------------------------------------- C12 slice
@contract('C12')
class Slice:
    @staticmethod
    def gen(rng):
        o = G.obj(rng)
        ax = G.axis_of(rng, len(o['knots']))
        p, U = G.degs(o)[ax], o['knots'][ax]
        a, b = O.domain(p, U)
        for _ in range(50):
            x, y = sorted([G.param(rng, p, U), G.param(rng, p, U)])
            if y - x > 0.05 * (b - a) and all(abs(x - t) > 1e-3 or x == t for t in U) \
               and all(abs(y - t) > 1e-3 or y == t for t in U):
                break
        else:
            x, y = a, b
        if rng.chance(0.15):
            x, y = max(a, float(np.nextafter(x, rng.choice([-9, 9])))), \
                min(b, float(np.nextafter(y, rng.choice([-9, 9]))))
        return {'o': o, 'axis': ax, 'start': None if (x == a and rng.chance(0.5)) else x,
                'end': None if (y == b and rng.chance(0.5)) else y}

    @staticmethod
    def check(c, ig):
        o, ax = c['o'], c['axis']
        K, A = G.arr(o)
        i = range(len(K))[ax]
        U, p = K[i], G.degs(o)[i]
        nrb = G.build(ig, o)
        new = nrb.slice(ax, c['start'], c['end'])
        a, b = O.domain(p, U)
        s = a if c['start'] is None else c['start']
        e = b if c['end'] is None else c['end']
        s, e = [float(U[np.argmin(np.abs(U - x))]) if np.abs(U - x).min() < EPS else x
                for x in (s, e)]
        need(new is not nrb and type(new) is type(nrb), 'slice result type')
        V = new.knots[i]
        exp = [s] * (p + 1)
        for x in sorted(set(x for x in U if s < x < e)):
            exp += [x] * O.mult_of(U, x)
        exp += [e] * (p + 1)
        close(V, exp, 'knots after slice', 1e-13)
        need(new.degree == nrb.degree, 'slice changed the degree')
        check_other_axes(o, new, i, 'slice')
        K2, A2 = nrb_arr(new)
        rng = G.Rng(5)
        pts = [O.sample_params(q, W, rng, 1) for q, W in zip(new.degree, K2)]
        sides = ['r'] * len(K)
        ee = O.eval_homog(K, A, pts)
        g = O.eval_homog(K2, A2, pts)
        # at the end of the slice the sliced object is left-continuous
        p2 = [list(x) for x in pts]
        keep = [j for j, x in enumerate(pts[i]) if x < e]
        close(g.take(keep, axis=i), ee.take(keep, axis=i), 'slice geometry', 1e-8)
        sides[i] = 'l'
        ee = O.eval_homog(K, A, [[e] if j == i else x for j, x in enumerate(pts)], None, sides)
        g = O.eval_homog(K2, A2, [[e] if j == i else x for j, x in enumerate(pts)])
        close(g, ee, 'slice geometry at the end', 1e-8)
        # original untouched
        need(np.array_equal(nrb.array, A) and all(np.array_equal(x, y) for x, y in zip(nrb.knots, K)),
             'slice modified the original object')


# ---------------------------------------------------------------- C13 extract/boundary
@contract('C13')
class Extract:
    @staticmethod
    def gen(rng):
        o = G.obj(rng)
        ax = G.axis_of(rng, len(o['knots']))
        p, U = G.degs(o)[ax], o['knots'][ax]
        if rng.chance(0.3):
            return {'o': o, 'axis': ax, 'side': rng.randint(0, 1)}
        return {'o': o, 'axis': ax, 'value': G.param(rng, p, U)}

    @staticmethod
    def check(c, ig):
        o, ax = c['o'], c['axis']
        K, A = G.arr(o)
        i = range(len(K))[ax]
        p, U = G.degs(o)[i], K[i]
        nrb = G.build(ig, o)
        if 'side' in c:
            new = nrb.boundary(ax, c['side'])
            v = O.domain(p, U)[c['side']]
        else:
            v = c['value']
            new = nrb.extract(ax, v)
        need(new is not nrb, 'extract returns the same object')
        need(new.dim == len(K) - 1, 'extract: dim %d', new.dim)
        need(new.array.shape == A.shape[:i] + A.shape[i + 1:], 'extract: shape %s', new.array.shape)
        rest = [k for j, k in enumerate(K) if j != i]
        need(len(rest) == len(new.knots) and all(np.array_equal(x, y) for x, y in zip(rest, new.knots)),
             'extract: remaining knots changed')
        B = O.basis_matrix(p, U, [v])
        e = np.tensordot(B[0], A, axes=(0, i))
        close(new.array, e, 'extracted control points', 1e-9)
        if rest:
            rng = G.Rng(3)
            pts = [O.sample_params(len(k) - new.array.shape[j] - 1, k, rng, 1)
                   for j, k in enumerate(rest)]
            full = list(pts)
            full.insert(i, [v])
            ee = O.eval_points(K, A, full)
            ee = ee.take(0, axis=i)
            if A.shape[-1] > 4:
                C, F = new(*pts, fields=True)
                close(C, ee[..., :3], 'extracted geometry'); close(F, ee[..., 3:], 'extracted fields')
            else:
                close(new(*pts), ee, 'extracted geometry')
        need(np.array_equal(nrb.array, A), 'extract modified the original')


# ---------------------------------------------------------------- C14 reparametrisations
@contract('C14')
class Reparam:
    @staticmethod
    def gen(rng):
        o = G.obj(rng)
        dim = len(o['knots'])
        op = rng.choice(['transpose', 'swap', 'reverse', 'remap'])
        c = {'o': o, 'op': op}
        if op == 'transpose':
            c['axes'] = rng.choice([None, [int(x) for x in rng.shuffle(range(dim))]])
        elif op == 'swap':
            c['axes'] = [G.axis_of(rng, dim), G.axis_of(rng, dim)]
        elif op == 'reverse':
            k = rng.randint(0, dim)
            c['axes'] = [int(x) - (dim if rng.chance(0.3) else 0) for x in rng.shuffle(range(dim))[:k]]
        else:
            ax = G.axis_of(rng, dim)
            p, U = G.degs(o)[ax], o['knots'][ax]
            a, b = O.domain(p, U)
            s = rng.choice([None, a, float(np.round(rng.uniform(-5, 5), 3))])
            lo = a if s is None else s
            e = rng.choice([b, None, lo + float(np.round(rng.uniform(0.5, 4), 3))])
            if (b if e is None else e) <= lo + 1e-6:
                e = lo + 1.5
            c.update(axis=ax, start=s, end=e)
        return c

    @staticmethod
    def check(c, ig):
        o = c['o']
        K, A = G.arr(o)
        dim = len(K)
        nrb = G.build(ig, o)
        op = c['op']
        amap = list(range(dim))
        if op == 'transpose':
            r = nrb.transpose(c['axes']) if c['axes'] is not None else nrb.transpose()
            amap = list(range(dim))[::-1] if c['axes'] is None else list(c['axes'])
        elif op == 'swap':
            r = nrb.swap(*c['axes'])
            x, y = [range(dim)[t] for t in c['axes']]
            amap[x], amap[y] = y, x
        elif op == 'reverse':
            r = nrb.reverse(*c['axes'])
        else:
            r = nrb.remap(c['axis'], c['start'], c['end'])
        need(r is nrb, '%s does not return the object', op)
        need(nrb.dim == dim and nrb.array.shape == tuple(A.shape[k] for k in amap) + A.shape[-1:],
             '%s: wrong shape %s', op, nrb.array.shape)
        rng = G.Rng(11)
        pts = [O.sample_params(p, U, rng, 2) for p, U in zip(G.degs(o), K)]
        newpts = [None] * dim
        sides = ['r'] * dim
        flips = set()
        if op == 'reverse':
            flips = set(range(dim)[t] for t in c['axes']) if c['axes'] else set(range(dim))
        for k in range(dim):
            src = amap[k]
            U, p = K[src], G.degs(o)[src]
            a, b = O.domain(p, U)
            V = nrb.knots[k]
            if op == 'remap' and src == range(dim)[c['axis']]:
                s = a if c['start'] is None else c['start']
                e = b if c['end'] is None else c['end']
                f = lambda t, a=a, b=b, s=s, e=e: s + (np.asarray(t) - a) * (e - s) / (b - a)
            elif k in flips:
                f = lambda t, a=a, b=b: (a + b) - np.asarray(t)
                sides[k] = 'l'
            else:
                f = lambda t: np.asarray(t)
            W = np.sort(f(U))
            close(V, W, '%s: knots of axis %d' % (op, k), 1e-12)
            q = f(np.array(pts[src]))
            newpts[k] = np.clip(q, V[p], V[-p - 1]).tolist()
        K2, A2 = nrb_arr(nrb)
        # avoid one-sided ambiguity at C^-1 free breaks: geometry is at least C0
        e = O.eval_homog(K, A, pts)
        e = np.transpose(e, amap + [dim])
        g = O.eval_homog(K2, A2, newpts)
        close(g, e, '%s: geometry' % op, 1e-8)
        C = nrb(*newpts)
        close(C, e[..., :3] / e[..., 3:4], '%s: evaluated geometry' % op, 1e-8)
        # involutions
        if op == 'reverse':
            nrb.reverse(*c['axes'])
            close(nrb.array, A, 'reverse twice', 1e-13)
            for x, y in zip(nrb.knots, K):
                close(x, y, 'reverse twice (knots)', 1e-12)
        if op == 'swap':
            nrb.swap(*c['axes'])
            need(np.array_equal(nrb.array, A), 'swap twice is not the identity')
            need(all(np.array_equal(x, y) for x, y in zip(nrb.knots, K)), 'swap twice (knots)')
