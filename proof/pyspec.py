"""Contracts of the Python layer (engine B): nurbs.py."""
import itertools
import z3
from terms import *
from sym import *
import sym, symnp, kern
from symnp import SArr, fresh_arr
from kern import opaque, lam
from pycore import *

UNITS = {}


def unit(name, configs=None):
    def d(f):
        UNITS[name] = (f, configs or [{}])
        return f
    return d


def cname(cfg):
    return ','.join('%s=%s' % (k, v) for k, v in cfg.items())


def grid(**k):
    ks = list(k)
    return [dict(zip(ks, v)) for v in itertools.product(*[k[x] for x in ks])]


def dim_axis(neg=False, **more):
    """every dimension with every axis"""
    out = []
    for d in (1, 2, 3):
        for a in range(d):
            for m in (grid(**more) if more else [{}]):
                out.append(dict(dim=d, axis=a, **m))
    if neg:
        for m in (grid(**more) if more else [{}]):
            out.append(dict(dim=2, axis=-1, **m))
    return out


def fibre_at(o, a, comp, ix):
    """control values along axis a at the other indices ix (list over all axes, entry a ignored)"""
    def f(k):
        j = list(ix)
        j[a] = k
        return o.A(*(j + [comp]))
    return lam(1, f)


def KA(o, a):
    """kernel arguments n, p, U of axis a"""
    return [sub(o.N[a], 1), o.p[a], lam(1, o.U[a])]


RG1 = lambda a: {2: [add(add(a[0], a[1]), 2)], 3: [add(a[0], 1)]}


def kept_knots(c, o, nrb, a, name='knots'):
    for k in range(o.dim):
        if k != a:
            c.ob('%s of the other axis %d kept' % (name, k), nrb._knots[k] is o.kn0[k] or
                 (nrb._knots[k].ndim == 1 and nrb._knots[k].buf is o.kn0[k].buf and nrb._knots[k].bmap == o.kn0[k].bmap), 'post')


def fresh_store(c, o, nrb, what='result'):
    """the stored arrays are new: arrays handed out before stay as they were"""
    c.ob('%s: array is C-contiguous and three-level' % what, nrb._array.contiguous(), 'invariant')
    c.ob('%s: knots is a tuple' % what, isinstance(nrb._knots, tuple) and len(nrb._knots) == o.dim, 'invariant')


def in_domain(o, a, u):
    return land(le(o.lo(a), u), le(u, o.hi(a)))


def spanmult(o, a, u):
    """position and multiplicity symbols of u"""
    n, p, UL = KA(o, a)
    rg = lambda q: {2: [add(add(q[0], q[1]), 2)]}
    return opaque('spanmult_k', INT, n, p, UL, toreal(u), ranges=rg), opaque('spanmult_s', INT, n, p, UL, toreal(u), ranges=rg)


# ------------------------------------------------------------------ insert
@unit('nurbs.insert', dim_axis(neg=True, times=['int', 'None']))
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    a = cfg['axis'] % o.dim
    u = z3.Real('u')
    r = z3.Int('times')
    times = num(r) if cfg['times'] == 'int' else None
    kind, res = call(o.nrb.insert, cfg['axis'], num(u), times, files=L.files)
    frame(c)
    k, s = spanmult(o, a, u)
    mu = ite(le(s, o.p[a]), s, o.p[a])
    R = r if times is not None else sub(o.p[a], mu)
    adm = land(in_domain(o, a, u), le(0, R), le(add(R, mu), o.p[a]))
    if kind == 'exc':
        c.ob('rejects only inadmissible arguments', lnot(adm), 'error')
        unchanged(c, o, 'after the error')
        return
    c.ob('accepts only admissible arguments', adm, 'error')
    c.ob('returns the object', res is o.nrb)
    nrb = o.nrb
    if c.decide(eq(R, 0)):
        unchanged(c, o, 'nothing inserted')
        return
    N, p, U = o.N[a], o.p[a], o.U[a]
    # knots: the old ones with R copies of u, cut to one knot vector over the same domain
    V = lambda i: ite(le(i, k), U(i), ite(le(i, add(k, R)), u, U(sub(i, R))))
    off = ite(eq(u, o.lo(a)), R, 0)
    cut = ite(eq(u, o.hi(a)), R, 0)
    N2 = sub(sub(add(N, R), off), cut)
    array_is(c, 'new knots', nrb._knots[a], [add(add(N2, p), 1)], lambda i: V(add(i, off)))
    kept_knots(c, o, nrb, a)
    ext = [N2 if d == a else o.N[d] for d in range(o.dim)] + [o.comps]
    args = KA(o, a)

    def val(*ix):
        return opaque('insert', REAL, *(args + [fibre_at(o, a, ix[-1], ix[:-1]), u, R, add(ix[a], off)]), ranges=RG1)
    array_is(c, 'new control points', nrb._array, ext, val)
    fresh_store(c, o, nrb)
    W = lambda i: V(add(i, off))
    valid_result(c, 'result', None, p, N2, W)
    c.ob('domain kept', land(eq(W(p), o.lo(a)), eq(W(N2), o.hi(a))))
    x = z3.Real('x')
    c.assume(in_domain(o, a, x))
    if o.dim == 1 and (c.decide(eq(u, o.lo(a))) or c.decide(eq(u, o.hi(a)))):
        # inserting at an end (used by refine)
        kx, sx = kern.span_of(c, U, sub(N, 1), p, x)
        ky, sy = kern.span_of(c, W, sub(N2, 1), p, x)
        c.ob('the inserted value gains R copies', imp(eq(x, u), eq(sy, add(sx, R))))
        c.ob('other values of the domain keep their multiplicity', imp(lnot(eq(x, u)), eq(sx, sy)))


def with_axis(o, a, mid, ix):
    j = list(ix)
    j[a] = mid
    return j


# ------------------------------------------------------------------ remove
@unit('nurbs.remove', dim_axis(neg=True, times=['int', 'None']))
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    a = cfg['axis'] % o.dim
    u, r, dev = z3.Real('u'), z3.Int('times'), z3.Real('deviation')
    times = num(r) if cfg['times'] == 'int' else None
    c.assume(dev >= 0)
    kind, res = call(o.nrb.remove, cfg['axis'], num(u), times, num(dev), files=L.files)
    frame(c)
    k, s = spanmult(o, a, u)
    adm = land(in_domain(o, a, u), le(0, r) if times is not None else True)
    if kind == 'exc':
        c.ob('rejects only inadmissible arguments', lnot(adm), 'error')
        unchanged(c, o, 'after the error')
        return
    c.ob('accepts only admissible arguments', adm, 'error')
    c.ob('returns the object', res is o.nrb)
    nrb = o.nrb
    mine = [x for x in getattr(c, 'calls', []) if x[0] == 'bsp.RemoveKnot']
    mu = ite(le(s, o.p[a]), s, o.p[a])
    R = mu if times is None else ite(le(r, mu), r, mu)
    inner = land(lt(o.lo(a), u), lt(u, o.hi(a)), lt(0, R))
    if not mine:
        c.ob('only ends of the domain and absent knots are kept without trying', lnot(inner))
        unchanged(c, o, 'nothing removed')
        return
    c.ob('one removal', len(mine) == 1)
    c.ob('only interior knots are removed', inner)
    env, outs = mine[0][1], mine[0][2]
    t = outs['t']
    c.ob('at most the requested number of copies is tried', eq(env.r, R))
    i = [fint('i') for _ in range(o.dim)]
    g = land(*[land(le(0, v), lt(v, N)) for v, N in zip(i, o.N)])
    w = o.A(*(i + [3]))
    if z3.is_expr(env.TOL) and z3.is_div(env.TOL):
        # x / y <= d w follows from 0 <= x <= d w and 1 <= y
        x, y = env.TOL.arg(0), env.TOL.arg(1)
        c.ob('tolerance: denominator', le(Fraction(1), y), 'post')
        c.ob('tolerance at most the deviation times every weight: numerator', Forall(i, g, land(le(Fraction(0), x), le(x, mul(dev, w)))), 'post')
    else:
        c.ob('tolerance at most the deviation times every weight', Forall(i, g, le(env.TOL, mul(dev, w))), 'post')
    N, p, U = o.N[a], o.p[a], o.U[a]
    W = lambda q: ite(le(q, sub(k, t)), U(q), U(add(q, t)))
    array_is(c, 'new knots', nrb._knots[a], [sub(add(add(N, p), 1), t)], W)
    kept_knots(c, o, nrb, a)
    ext = [sub(N, t) if d == a else o.N[d] for d in range(o.dim)] + [o.comps]
    args = KA(o, a)
    array_is(c, 'new control points', nrb._array, ext,
             lambda *ix: opaque('remove', REAL, *(args + [fibre_at(o, a, ix[-1], ix[:-1]), u, t, ix[a]]), ranges=RG1))
    fresh_store(c, o, nrb)
    valid_result(c, 'result', None, p, sub(N, t), W)
    c.ob('domain kept', land(eq(W(p), o.lo(a)), eq(W(sub(N, t)), o.hi(a))))


# ------------------------------------------------------------------ clamp, unclamp
def side_of(v):
    return (v is None or v == 0), (v is None or v == 1)


@unit('nurbs.clamp', dim_axis(neg=True, side=[None, 0, 1]) + [dict(dim=1, axis=0, side='sym')])
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    a = cfg['axis'] % o.dim
    sd = cfg['side']
    sym_ = z3.Int('side')
    kind, res = call(o.nrb.clamp, cfg['axis'], num(sym_) if sd == 'sym' else sd, files=L.files)
    frame(c)
    if kind == 'exc':
        c.ob('rejects only unknown sides', land(sym_ != 0, sym_ != 1) if sd == 'sym' else False, 'error')
        unchanged(c, o, 'after the error')
        return
    if sd == 'sym':
        c.ob('accepts only known sides', z3.Or(sym_ == 0, sym_ == 1), 'error')
        l, r = simp(sym_ == 0), simp(sym_ == 1)
        if c.decide(l):
            l, r = True, False
        else:
            l, r = False, True
    else:
        l, r = side_of(sd)
    c.ob('returns the object', res is o.nrb)
    nrb = o.nrb
    N, p, U = o.N[a], o.p[a], o.U[a]
    W = kern.clamped_knots(U, sub(N, 1), p, l, r)
    array_is(c, 'new knots', nrb._knots[a], [add(add(N, p), 1)], W)
    kept_knots(c, o, nrb, a)
    args = KA(o, a)
    array_is(c, 'new control points', nrb._array, list(o.N) + [o.comps],
             lambda *ix: opaque('clamp', REAL, *(args + [fibre_at(o, a, ix[-1], ix[:-1]), int(l), int(r), ix[a]]), ranges=RG1))
    fresh_store(c, o, nrb)
    valid_result(c, 'result', None, p, N, W)
    c.ob('domain kept', land(eq(W(p), o.lo(a)), eq(W(N), o.hi(a))))
    j = fint('i')
    if l:
        c.ob('first knot repeated degree+1 times', Forall([j], land(le(0, j), le(j, p)), eq(W(j), o.lo(a))))
    if r:
        c.ob('last knot repeated degree+1 times', Forall([j], land(le(N, j), le(j, add(N, p))), eq(W(j), o.hi(a))))


@unit('nurbs.unclamp', dim_axis(neg=True, side=[None, 0, 1], cont=['None', 'int']) + [dict(dim=1, axis=0, side='sym', cont='int')])
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    a = cfg['axis'] % o.dim
    sd = cfg['side']
    sym_, C = z3.Int('side'), z3.Int('continuity')
    cont = num(C) if cfg['cont'] == 'int' else None
    kind, res = call(o.nrb.unclamp, cfg['axis'], num(sym_) if sd == 'sym' else sd, cont, files=L.files)
    frame(c)
    adm = land(le(0, C), le(C, sub(o.p[a], 1))) if cont is not None else True
    if sd == 'sym':
        adm = land(adm, lor(eq(sym_, 0), eq(sym_, 1)))
    if kind == 'exc':
        c.ob('rejects only inadmissible arguments', lnot(adm), 'error')
        unchanged(c, o, 'after the error')
        return
    c.ob('accepts only admissible arguments', adm, 'error')
    if sd == 'sym':
        l = c.decide(sym_ == 0)
        r = not l
    else:
        l, r = side_of(sd)
    C = C if cont is not None else sub(o.p[a], 1)
    c.ob('returns the object', res is o.nrb)
    nrb = o.nrb
    N, p, U = o.N[a], o.p[a], o.U[a]
    args = KA(o, a)
    rg = lambda q: {2: [add(add(q[0], q[1]), 2)]}
    W = lambda i: opaque('unclampknots', REAL, *(args + [C, int(l), int(r), i]), ranges=rg)
    array_is(c, 'new knots', nrb._knots[a], [add(add(N, p), 1)], W)
    kept_knots(c, o, nrb, a)
    array_is(c, 'new control points', nrb._array, list(o.N) + [o.comps],
             lambda *ix: opaque('unclamp', REAL, *(args + [fibre_at(o, a, ix[-1], ix[:-1]), C, int(l), int(r), ix[a]]), ranges=RG1))
    fresh_store(c, o, nrb)
    V = symnp.line(nrb._knots[a])
    valid_result(c, 'result', None, p, N, V)
    c.ob('domain kept', land(eq(V(p), o.lo(a)), eq(V(N), o.hi(a))))
    j = fint('i')
    per = sub(o.hi(a), o.lo(a))
    sh = sub(sub(N, 1), C)
    if l:
        c.ob('periodic to the left', Forall([j], land(le(0, j), le(j, C)), eq(V(j), sub(V(add(j, sh)), per))))
    if r:
        c.ob('periodic to the right', Forall([j], land(le(sub(add(N, p), C), j), le(j, add(N, p))), eq(V(j), add(V(sub(j, sh)), per))))


# ------------------------------------------------------------------ elevate
@unit('nurbs.elevate', dim_axis(neg=True))
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    a = cfg['axis'] % o.dim
    t = z3.Int('times')
    kind, res = call(o.nrb.elevate, cfg['axis'], num(t), files=L.files)
    frame(c)
    if kind == 'exc':
        c.ob('rejects only negative counts', t < 0, 'error')
        unchanged(c, o, 'after the error')
        return
    c.ob('accepts only non-negative counts', t >= 0, 'error')
    c.ob('returns the object', res is o.nrb)
    nrb = o.nrb
    if c.decide(t == 0):
        unchanged(c, o, 'nothing elevated')
        return
    N, p, U = o.N[a], o.p[a], o.U[a]
    n = sub(N, 1)
    args = KA(o, a)
    W = kern.clamped_knots(U, n, p, True, True)
    cargs = [n, p, lam(1, W)]
    rg = lambda q: {2: [add(add(q[0], q[1]), 2)]}
    V = lambda i: opaque('elevateknots', REAL, *(cargs + [t, i]), ranges=rg)
    spans = kern.count_spans(U, n, p)
    N2 = add(N, mul(spans, t))
    for w, env, outs in getattr(c, 'calls', []):
        if w == 'bsp.DegreeElevate':
            g = eq(env.o, sub(N2, 1))
            c.ob('one more control point per span and degree', g)
            c.assume(g)
    array_is(c, 'new knots', nrb._knots[a], [add(add(N2, add(p, t)), 1)], V)
    kept_knots(c, o, nrb, a)
    ext = [N2 if d == a else o.N[d] for d in range(o.dim)] + [o.comps]

    def val(*ix):
        f = lam(1, lambda k: opaque('clamp', REAL, *(args + [fibre_at(o, a, ix[-1], ix[:-1]), 1, 1, k]), ranges=RG1))
        return opaque('elevate', REAL, *(cargs + [f, t, ix[a]]), ranges=RG1)
    array_is(c, 'new control points', nrb._array, ext, val)
    fresh_store(c, o, nrb)
    V2 = symnp.line(nrb._knots[a])
    valid_result(c, 'result', None, add(p, t), N2, V2)
    c.ob('degree raised by times', eq(term(nrb.degree[a]), add(p, t)))
    c.ob('domain kept', land(eq(V2(add(p, t)), o.lo(a)), eq(V2(N2), o.hi(a))))


# ------------------------------------------------------------------ extract, boundary
def point_fixed(o, a, u):
    args = KA(o, a)
    other = [k for k in range(o.dim) if k != a]

    def val(*ix):
        full = [0] * o.dim
        for k, i in zip(other, ix[:-1]):
            full[k] = i
        return opaque('point1', REAL, *(args + [fibre_at(o, a, ix[-1], full), u]), ranges=RG1)
    return [o.N[k] for k in other] + [o.comps], val


def extraction(c, o, a, u, res, m):
    other = [k for k in range(o.dim) if k != a]
    c.ob('a new object', isinstance(res, m.NURBS) and res is not o.nrb)
    if not isinstance(res, m.NURBS):
        return
    ext, val = point_fixed(o, a, u)
    array_is(c, 'control points of the section', res._array, ext, val)
    c.ob('one direction less', isinstance(res._knots, tuple) and len(res._knots) == o.dim - 1)
    for q, k in enumerate(other):
        array_is(c, 'knots of direction %d' % k, res._knots[q], [add(add(o.N[k], o.p[k]), 1)], o.U[k])
    c.ob('array is C-contiguous', res._array.contiguous(), 'invariant')
    c.ob('result shares no control points with the input', res._array.buf is not o.arr.buf, 'frame')
    unchanged(c, o)


@unit('nurbs.extract', dim_axis(neg=True))
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    a = cfg['axis'] % o.dim
    u = z3.Real('u')
    kind, res = call(o.nrb.extract, cfg['axis'], num(u), files=L.files)
    frame(c)
    if kind == 'exc':
        c.ob('rejects only parameters outside the domain', lnot(in_domain(o, a, u)), 'error')
        unchanged(c, o, 'after the error')
        return
    c.ob('accepts only parameters of the domain', in_domain(o, a, u), 'error')
    extraction(c, o, a, u, res, m)


@unit('nurbs.boundary', dim_axis(neg=True, side=[0, 1]) + [dict(dim=1, axis=0, side='sym')])
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    a = cfg['axis'] % o.dim
    sd, S = cfg['side'], z3.Int('side')
    kind, res = call(o.nrb.boundary, cfg['axis'], num(S) if sd == 'sym' else sd, files=L.files)
    frame(c)
    if kind == 'exc':
        c.ob('rejects only unknown sides', land(S != 0, S != 1) if sd == 'sym' else False, 'error')
        unchanged(c, o, 'after the error')
        return
    if sd == 'sym':
        c.ob('accepts only known sides', z3.Or(S == 0, S == 1), 'error')
        sd = 0 if c.decide(S == 0) else 1
    extraction(c, o, a, o.lo(a) if sd == 0 else o.hi(a), res, m)


# ------------------------------------------------------------------ transpose, swap, reverse, remap
def permuted(c, o, res, perm):
    nrb = o.nrb
    c.ob('returns the object', res is nrb)
    ext = [o.N[k] for k in perm] + [o.comps]

    def val(*ix):
        j = [0] * o.dim
        for q, k in enumerate(perm):
            j[k] = ix[q]
        return o.A(*(j + [ix[-1]]))
    array_is(c, 'control points', nrb._array, ext, val)
    c.ob('knots is a tuple', isinstance(nrb._knots, tuple) and len(nrb._knots) == o.dim, 'invariant')
    for q, k in enumerate(perm):
        array_is(c, 'knots of direction %d' % q, nrb._knots[q], [add(add(o.N[k], o.p[k]), 1)], o.U[k])
    c.ob('array is C-contiguous', nrb._array.contiguous(), 'invariant')


PERMS = [dict(dim=d, axes=list(pm)) for d in (1, 2, 3) for pm in itertools.permutations(range(d))]


@unit('nurbs.transpose', PERMS + [dict(dim=d, axes=None) for d in (1, 2, 3)] +
      [dict(dim=2, axes=[0]), dict(dim=2, axes=[0, 0]), dict(dim=3, axes=[0, 1, 3]), dict(dim=2, axes=[-1, 0])])
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    ax = cfg['axes']
    kind, res = call(o.nrb.transpose, ax, files=L.files)
    frame(c)
    full = list(range(o.dim))
    good = ax is None or sorted(ax) == full
    if kind == 'exc':
        # negative axes may be rejected, as may anything else that is not a permutation
        c.ob('rejects only non-permutations', not good, 'error')
        unchanged(c, o, 'after the error')
        return
    c.ob('accepts only permutations', good, 'error')
    permuted(c, o, res, list(ax) if ax is not None else full[::-1])


@unit('nurbs.swap', [dict(dim=d, a=x, b=y) for d in (1, 2, 3) for x in range(d) for y in range(d)] +
      [dict(dim=3, a=0, b=-1), dict(dim=2, a=0, b=2), dict(dim=2, a=-3, b=0)])
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    x, y, d = cfg['a'], cfg['b'], o.dim
    kind, res = call(o.nrb.swap, x, y, files=L.files)
    frame(c)
    good = -d <= x < d and -d <= y < d
    if kind == 'exc':
        c.ob('rejects only axes that do not exist', not good, 'error')
        unchanged(c, o, 'after the error')
        return
    c.ob('accepts only existing axes', good, 'error')
    perm = list(range(d))
    perm[x % d], perm[y % d] = perm[y % d], perm[x % d]
    permuted(c, o, res, perm)


@unit('nurbs.reverse', [dict(dim=1, axes=()), dict(dim=1, axes=(0,)), dict(dim=2, axes=()), dict(dim=2, axes=(1,)),
                        dict(dim=2, axes=(-1, 0)), dict(dim=3, axes=()), dict(dim=3, axes=(0,)), dict(dim=3, axes=(1,)),
                        dict(dim=3, axes=(2,)), dict(dim=3, axes=(0, 2)), dict(dim=2, axes=(2,)), dict(dim=1, axes=(0, 1))])
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    d, ax = o.dim, cfg['axes']
    kind, res = call(o.nrb.reverse, *ax, files=L.files)
    frame(c)
    good = all(-d <= x < d for x in ax)
    if kind == 'exc':
        c.ob('rejects only axes that do not exist', not good, 'error')
        unchanged(c, o, 'after the error')
        return
    c.ob('accepts only existing axes', good, 'error')
    nrb = o.nrb
    c.ob('returns the object', res is nrb)
    rev = [0] * d
    for x in (ax or range(d)):
        rev[x % d] ^= 1
    array_is(c, 'control points', nrb._array, list(o.N) + [o.comps],
             lambda *ix: o.A(*([sub(sub(o.N[k], 1), ix[k]) if rev[k] else ix[k] for k in range(d)] + [ix[-1]])))
    for k in range(d):
        m_ = add(o.N[k], o.p[k])
        W = (lambda i, k=k, m_=m_: sub(add(o.lo(k), o.hi(k)), o.U[k](sub(m_, i)))) if rev[k] else o.U[k]
        array_is(c, 'knots of direction %d' % k, nrb._knots[k], [add(m_, 1)], W)
        valid_result(c, 'direction %d' % k, None, o.p[k], o.N[k], W)
        c.ob('domain of direction %d kept' % k, land(eq(W(o.p[k]), o.lo(k)), eq(W(o.N[k]), o.hi(k))))
    fresh_store(c, o, nrb)


@unit('nurbs.remap', dim_axis(neg=True, start=['sym', None], end=['sym', None]) + [dict(dim=2, axis=2, start='sym', end='sym')])
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    S, E = z3.Real('start'), z3.Real('end')
    kind, res = call(o.nrb.remap, cfg['axis'], num(S) if cfg['start'] else None, num(E) if cfg['end'] else None, files=L.files)
    frame(c)
    bad_axis = not -o.dim <= cfg['axis'] < o.dim
    if bad_axis:
        c.ob('rejects axes that do not exist', kind == 'exc', 'error')
        unchanged(c, o, 'after the error')
        return
    a = cfg['axis'] % o.dim
    s = S if cfg['start'] else o.lo(a)
    e = E if cfg['end'] else o.hi(a)
    if kind == 'exc':
        c.ob('rejects only empty intervals', le(e, s), 'error')
        unchanged(c, o, 'after the error')
        return
    c.ob('accepts only non-empty intervals', lt(s, e), 'error')
    nrb = o.nrb
    c.ob('returns the object', res is nrb)
    c.ob('control points kept', nrb._array is o.arr0 or nrb._array.buf is o.arr0.buf)
    kept_knots(c, o, nrb, a)
    A, B = o.lo(a), o.hi(a)
    W = lambda i: add(s, mul(sub(o.U[a](i), A), rdiv(sub(e, s), sub(B, A))))
    array_is(c, 'new knots', nrb._knots[a], [add(add(o.N[a], o.p[a]), 1)], W)
    c.ob('new domain', land(eq(W(o.p[a]), s), eq(W(o.N[a]), e)))
    c.ob('knots is a tuple', isinstance(nrb._knots, tuple) and len(nrb._knots) == o.dim, 'invariant')
    c.ob('given knots are not modified in place', nrb._knots[a].buf is not o.kn0[a].buf or not nrb._knots[a].buf.written, 'frame')


# ------------------------------------------------------------------ evaluation
class Params:
    """parameters per axis: s scalar, v vector, n None (Greville abscissae)"""
    def __init__(self, c, o, kinds):
        self.kinds, self.args, self.at, self.n, self.ok = kinds, [], [], [], True
        for k, q in enumerate(kinds):
            if q == 's':
                x = z3.Real('u%d' % k)
                self.args.append(num(x))
                self.at.append(lambda i, x=x: x)
                self.n.append(1)
                self.ok = land(self.ok, in_domain(o, k, x))
            elif q == 'v':
                n = z3.Int('r%d' % k)
                c.assume(n >= 1)
                a, f = vec('u%d' % k, n)
                self.args.append(a)
                self.at.append(f)
                self.n.append(n)
                i = fint('i')
                self.ok = land(self.ok, z3.ForAll([i], tz(imp(land(le(0, i), lt(i, n)), in_domain(o, k, f(i))))))
            else:
                p, U = o.p[k], o.U[k]
                self.args.append(None)
                self.at.append(lambda i, p=p, U=U: rdiv(SUM(add(i, 1), add(i, p), lambda j: U(j)), toreal(p)))
                self.n.append(o.N[k])

    def full(self, ix):
        """index of the result -> parameters"""
        out, q = [], 0
        for k, kd in enumerate(self.kinds):
            if kd == 's':
                out.append(self.at[k](0))
            else:
                out.append(self.at[k](ix[q]))
                q += 1
        return out

    def ext(self):
        return [n for n, k in zip(self.n, self.kinds) if k != 's']

    def witness(self, c, o):
        """facts of the domain test on a returning path, per vector"""


def par_configs(**more):
    out = []
    for kinds in ('s', 'v', 'n', 'ss', 'sv', 'vs', 'vv', 'nn', 'vn', 'sss', 'svv', 'vsv', 'vvs', 'vvv', 'nnn', 'ssv'):
        for m in (grid(**more) if more else [{}]):
            out.append(dict(pars=kinds, **m))
    return out


def greville_bounds(c, o, kinds):
    """the Greville abscissae lie in the domain (consequence of sortedness, proved in flemmas.py)"""
    for k, q in enumerate(kinds):
        if q == 'n':
            p, U, N = o.p[k], o.U[k], o.N[k]
            i = fint('i')
            g = rdiv(SUM(add(i, 1), add(i, p), lambda j: U(j)), toreal(p))
            c.assume(Forall([i], land(le(0, i), lt(i, N)), land(le(o.lo(k), g), le(g, o.hi(k)))))


def dom_obligations(c, P, kind, o, what='parameters'):
    """accepted parameters lie in the domain; only others are rejected"""
    for k, q in enumerate(P.kinds):
        if q == 'n':
            continue
        if kind == 'ret':
            i = fint('i')
            c.ob('accepts only parameters of the domain (axis %d)' % k,
                 Forall([i], land(le(0, i), lt(i, P.n[k])), in_domain(o, k, P.at[k](i))), 'error')


def field_arg(c, o, kindf):
    """field argument: (python value, number of components or None, value function)"""
    if kindf in (None, False, True):
        return kindf, None, None
    if kindf == 'scalar':
        F = z3.Function('F', *([INT] * o.dim + [REAL]))
        a = fresh_arr(o.N, lambda ix: F(*[tz(i) for i in ix]), 'd', 'argument fields')
        return a, None, lambda ix, q: F(*[tz(i) for i in ix])
    F = z3.Function('F', *([INT] * (o.dim + 1) + [REAL]))
    nf = z3.Int('nf')
    c.assume(nf >= 1)
    a = fresh_arr(o.N + [nf], lambda ix: F(*[tz(i) for i in ix]), 'd', 'argument fields')
    return a, nf, lambda ix, q: F(*[tz(i) for i in list(ix) + [q]])


def rational(o, val, params):
    """sum(N_i w_i f_i) / sum(N_i w_i) from homogeneous coefficients val(*grid)"""
    s = spline_at(o.axes(), val, params)
    w = spline_at(o.axes(), lambda *g: o.A(*(list(g) + [3])), params)
    return rdiv(s, w)


@unit('nurbs.__call__', par_configs(fields=[False]) + [dict(pars=k, fields=f) for k in ('s', 'v', 'sv', 'vv', 'n', 'vsv')
                                                      for f in (True, 'scalar', 'vector')])
def _(L, c, cfg):
    m = L.load('nurbs')
    kinds = cfg['pars']
    o = Obj(c, m, len(kinds))
    P = Params(c, o, kinds)
    fv, nf, F = field_arg(c, o, cfg['fields'])
    greville_bounds(c, o, kinds)
    kind, res = call(o.nrb, *P.args, fields=fv, files=L.files)
    frame(c)
    unchanged(c, o)
    if kind == 'exc':
        c.ob('rejects only parameters outside the domain', lnot(P.ok) if not isinstance(P.ok, bool) else not P.ok, 'error')
        return
    dom_obligations(c, P, kind, o)
    if cfg['fields'] is False:
        C, D = res, None
    else:
        if not isinstance(res, tuple) or len(res) != 2:
            return bad(c, 'result', 'is not a pair')
        C, D = res
    ext = P.ext()

    def pt(*ix):
        par = P.full(ix[:-1])
        return rational(o, lambda *g: o.A(*(list(g) + [ix[-1]])), par)
    array_is(c, 'points', C, ext + [3], pt)
    if cfg['fields'] is True:
        def fd(*ix):
            par = P.full(ix[:-1])
            return rational(o, lambda *g: o.A(*(list(g) + [add(ix[-1], 4)])), par)
        array_is(c, 'field values', D, ext + [sub(o.comps, 4)], fd)
    elif D is not None:
        def fd(*ix):
            par = P.full(ix[:-1])
            return rational(o, lambda *g: mul(F(g, ix[-1]), o.A(*(list(g) + [3]))), par)
        array_is(c, 'field values', D, ext + [nf if nf is not None else 1], fd)


@unit('nurbs.evaluate', [dict(pars=k, fields=f) for k in ('s', 'v', 'n', 'sv', 'vs', 'vv', 'nn', 'vsv', 'svs', 'sss')
                         for f in (None, 'scalar', 'vector')])
def _(L, c, cfg):
    m = L.load('nurbs')
    kinds = cfg['pars']
    o = Obj(c, m, len(kinds))
    P = Params(c, o, kinds)
    fv, nf, F = field_arg(c, o, cfg['fields'])
    greville_bounds(c, o, kinds)
    kind, D = call(o.nrb.evaluate, fv, *P.args, files=L.files)
    frame(c)
    unchanged(c, o)
    if kind == 'exc':
        c.ob('rejects only parameters outside the domain', lnot(P.ok) if not isinstance(P.ok, bool) else not P.ok, 'error')
        return
    dom_obligations(c, P, kind, o)
    ext = P.ext()
    if fv is None:
        array_is(c, 'field values', D, ext + [sub(o.comps, 4)],
                 lambda *ix: rational(o, lambda *g: o.A(*(list(g) + [add(ix[-1], 4)])), P.full(ix[:-1])))
    elif nf is None:
        array_is(c, 'field values', D, ext,
                 lambda *ix: rational(o, lambda *g: mul(F(g, 0), o.A(*(list(g) + [3]))), P.full(ix)))
    else:
        array_is(c, 'field values', D, ext + [nf],
                 lambda *ix: rational(o, lambda *g: mul(F(g, ix[-1]), o.A(*(list(g) + [3]))), P.full(ix[:-1])))


def derivative_unit(name, orders, mapped):
    cfgs = [dict(pars=k, fields=f, order=n, mapped=mp) for n in orders for k in ('s', 'v', 'vv', 'sv', 'n', 'vsv')
            for f in ((None, 'scalar', 'vector') if n == 1 else ('scalar', 'vector') if k in ('s', 'vv') else (None,))
            for mp in mapped if not (mp and k in ('s', 'n'))]

    @unit('nurbs.' + name, cfgs)
    def _(L, c, cfg):
        m = L.load('nurbs')
        kinds = cfg['pars']
        o = Obj(c, m, len(kinds))
        P = Params(c, o, kinds)
        fv, nf, F = field_arg(c, o, cfg['fields'])
        greville_bounds(c, o, kinds)
        order, mp = cfg['order'], cfg['mapped']
        pre = (order,) if name == 'derivative' else ()
        kind, D = call(getattr(o.nrb, name), *(pre + (fv,) + tuple(P.args)), mapped=mp, files=L.files)
        frame(c)
        unchanged(c, o)
        if kind == 'exc':
            ok = P.ok if not (mp and order > 1) else False
            c.ob('rejects only parameters outside the domain', lnot(ok) if not isinstance(ok, bool) else not ok, 'error')
            return
        c.ob('higher derivatives are not mapped', not (mp and order > 1), 'error')
        dom_obligations(c, P, kind, o)
        d = o.dim
        fields = c.decide(lt(4, o.comps)) if fv is None else None
        ext = P.ext()
        tail = [d] * order
        n = nf if fv is not None else sub(o.comps, 4) if fields else 3
        first = 4 if fields else 0

        def coef(comp):
            if fv is None:
                return lambda *g: rdiv(o.A(*(list(g) + [add(comp, first)])), o.A(*(list(g) + [3])))
            return lambda *g: F(g, comp)

        def val(*ix):
            k = len(ext)
            par = P.full(ix[:k])
            comp = ix[k] if n is not None else 0
            der = ix[k + 1:] if n is not None else ix[k:]
            geo = [lam(d, lambda *g, q=q: o.A(*(list(g) + [q]))) for q in range(4)]
            a = []
            for ax in o.axes():
                a += [ax[0], ax[1], lam(1, ax[2])]
            return opaque('derivative%d_%d' % (order, d), REAL,
                          *(a + geo + [lam(d, coef(comp))] + [toreal(x) for x in par] + [int(mp)] + list(der)),
                          ranges=kern.ev_ranges(d, 5))
        array_is(c, 'derivatives', D, ext + ([n] if n is not None else []) + tail, val)


derivative_unit('gradient', [1], [False, True])
derivative_unit('hessian', [2], [False, True])
derivative_unit('derivative', [1, 2, 3, 4], [False, True])
