"""Contracts of the Python layer (engine B): the constructions of cad.py."""
import itertools
import z3
from terms import *
from sym import *
import sym, symnp, kern
from symnp import SArr, fresh_arr
from kern import opaque, lam
from pycore import *
from pyspec import *
from pyspec2 import *
from pyspec import UNITS, unit

LINEAR = (0, 0, 1, 1)


def knots_are(c, nrb, k, vals):
    a = nrb._knots[k]
    array_is(c, 'knots of direction %d' % k, a, [len(vals)], lambda i: pickc(i, [toreal(v) for v in vals]))


def pickc(i, vals):
    if isc(i):
        return vals[i]
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = ite(eq(i, k), vals[k], r)
    return r


def a_new_object(c, m, res, dim, comps=4):
    nrb = m.NURBS
    ok = isinstance(res, nrb) and isinstance(res._knots, tuple) and len(res._knots) == dim
    c.ob('a NURBS object with %d directions' % dim, ok)
    if ok:
        c.ob('array is C-contiguous', res._array.contiguous(), 'invariant')
    return ok


# ------------------------------------------------------------------ primitives
@unit('cad.line', [dict(p0=a, p1=b) for a in (0, 1, 2, 3) for b in (0, 2, 3)] + [dict(p0=4, p1=2), dict(p0=None, p1=None)])
def _(L, c, cfg):
    """control points p0, p1 with weight one over the knots 0, 0, 1, 1 (lemma linear: (1-u) p0 + u p1)"""
    m, n = L.load('cad'), L.load('nurbs')
    args, P = [], []
    for k, s in (('p0', cfg['p0']), ('p1', cfg['p1'])):
        if s == 0:
            x = z3.Real(k)
            args.append(num(x))
            P.append(lambda i, x=x: x if i == 0 else Fraction(0))
        elif s is not None:
            a, f = vec(k, s)
            args.append(a)
            P.append(lambda i, f=f, s=s: f(i) if i < s else Fraction(0))
    if not args:
        P = [lambda i: Fraction(0), lambda i: Fraction(int(i == 0))]
    kind, r = call(m.line, *args, files=L.files)
    frame(c)
    if 4 in cfg.values():
        c.ob('more than three coordinates are rejected', kind == 'exc', 'error')
        return
    c.ob('accepted', kind == 'ret', 'error')
    if kind == 'ret' and a_new_object(c, n, r, 1):
        knots_are(c, r, 0, LINEAR)
        array_is(c, 'control points', r._array, [2, 4], lambda i, q: Fraction(1) if q == 3 else toreal(P[i](q)))


MULTI = [dict(dim=d, comps=s) for d in (1, 2, 3) for s in (None, 2, 3, 4)] + [dict(dim=d, comps='shape') for d in (1, 2, 3)]


@unit('cad.linear', MULTI)
def _(L, c, cfg):
    """linear, bilinear, trilinear: the given corner points over the knots 0, 0, 1, 1 in every direction"""
    m, n = L.load('cad'), L.load('nurbs')
    d, s = cfg['dim'], cfg['comps']
    fn = {1: 'linear', 2: 'bilinear', 3: 'trilinear'}[d]
    if s is None:
        kind, r = call(getattr(m, fn), files=L.files)
        val = lambda *ix: (Fraction(2 * ix[ix[-1]] - 1, 2) if ix[-1] < d else Fraction(int(ix[-1] == 3)))
    else:
        F = z3.Function('points', *([INT] * (d + 1) + [REAL]))
        f = lambda *ix: F(*[tz(i) for i in ix])
        ext = [2] * d + [s]
        if s == 'shape':
            ext = [z3.Int('e%d' % k) for k in range(d)] + [3]
            c.assume(*[e >= 0 for e in ext[:-1]])
        a = fresh_arr(ext, lambda ix: f(*ix), 'd', 'argument points')
        kind, r = call(getattr(m, fn), a, files=L.files)
        if s == 'shape':
            good = land(*[eq(e, 2) for e in ext[:-1]])
            if kind == 'exc':
                c.ob('rejects only other numbers of corners', lnot(good), 'error')
                return
            c.ob('accepts only two points per direction', good, 'error')
        if s == 4:
            val = f
        else:
            val = lambda *ix: f(*ix) if ix[-1] < ext[-1] else Fraction(int(ix[-1] == 3))
    frame(c)
    c.ob('accepted', kind == 'ret', 'error')
    if kind == 'ret' and a_new_object(c, n, r, d):
        for k in range(d):
            knots_are(c, r, k, LINEAR)
        array_is(c, 'control points', r._array, [2] * d + [4], val)


# ------------------------------------------------------------------ circles
def circle_knots(spans):
    """0, 0, 0, 1/n, 1/n, ..., 1, 1, 1"""
    v = [Fraction(k, spans) for k in range(spans + 1) for _ in range(2)]
    return [Fraction(0)] + v + [Fraction(1)]


def arc_point(q, r, w, C, S, ctr):
    """homogeneous control point at polar angle with cosine C, sine S and distance r / w"""
    x = (mul(r, C), mul(r, S), Fraction(0), w)[q]
    return add(x, mul(w, ctr[q])) if q < 3 else x


@unit('cad.circle', [dict(angle=a, center=k) for a in (None, 'scalar', 'pair', 'end', 'start', 'list') for k in (None, 's', 2, 3)
                     if k in (None, 2) or a in (None, 'pair')])
def _(L, c, cfg):
    """control points of the arc of the given radius about the given centre: on every span the quadratic rational arc of half angle
    sweep / (2 spans) (lemma arc: its points lie on the circle, in increasing polar angle)"""
    m, n = L.load('cad'), L.load('nurbs')
    r = z3.Real('radius')
    Pi = symnp.pi_t
    c.assume(Pi > 3, Pi < 4)
    ang, k = cfg['angle'], cfg['center']
    s, e = z3.Real('start'), z3.Real('end')
    kw = {}
    if k == 's':
        x = z3.Real('center')
        kw['center'], ctr = num(x), [x, Fraction(0), Fraction(0)]
    elif k:
        a, f = vec('center', k)
        kw['center'], ctr = a, [f(i) if i < k else Fraction(0) for i in range(3)]
    else:
        ctr = [Fraction(0)] * 3
    if ang is None:
        S, E = Fraction(0), mul(Fraction(2), Pi)
    else:
        S, E = {'scalar': (Fraction(0), e), 'pair': (s, e), 'list': (s, e), 'end': (s, mul(Fraction(2), Pi)), 'start': (Fraction(0), e)}[ang]
        sw = sub(E, S)
        c.assume(lnot(eq(sw, Fraction(0))), le(sw, mul(Fraction(2), Pi)), le(mul(Fraction(-2), Pi), sw))
        kw['angle'] = num(e) if ang == 'scalar' else (num(s), num(e)) if ang == 'pair' else [num(s), num(e)] if ang == 'list' else \
            (num(s), None) if ang == 'end' else (None, num(e))
    kind, res = call(m.circle, num(r), files=L.files, **kw)
    frame(c)
    c.ob('accepted', kind == 'ret', 'error')
    if kind != 'ret' or not a_new_object(c, n, res, 1):
        return
    N = res._array.dext(0)
    c.ob('a whole number of quadratic spans', isc(N) and N % 2 == 1 and N >= 3)
    if not (isc(N) and N % 2 == 1 and N >= 3):
        return
    spans = (N - 1) // 2
    knots_are(c, res, 0, circle_knots(spans))
    if ang is None:
        c.ob('four quadrants', spans == 4)
        CS = [(1, 0), (0, 1), (-1, 0), (0, -1)]
        h = symnp.SQRT(tz(Fraction(2)))
        c.assume(h >= 0, h * h == 2)
        w = rdiv(h, Fraction(2))
        for i in range(N):
            (a0, b0), (a1, b1) = CS[i // 2 % 4], CS[(i + 1) // 2 % 4]
            C, Z = Fraction(a0 + a1, 1 + (a0, b0).__eq__((a1, b1))), Fraction(b0 + b1, 1 + (a0, b0).__eq__((a1, b1)))
            wi = w if i % 2 else Fraction(1)
            for q in range(4):
                v = (mul(mul(r, wi), C), mul(mul(r, wi), Z), Fraction(0), wi)[q]
                v = add(v, mul(wi, ctr[q])) if q < 3 else v
                c.ob('control point %d[%d]' % (i, q), eq(toreal(res._array.el(i, q)), v))
        return
    al = rdiv(sub(E, S), Fraction(2 * spans))
    c.ob('at most a quadrant per span', land(le(mul(Fraction(-4), al), Pi), le(mul(Fraction(4), al), Pi)))
    # addition theorems: every sine and cosine in terms of those of start and alpha
    tbl = {}
    base = {}
    for x in (S, al):
        C, Z = symnp.COS(tz(x)), symnp.SIN(tz(x))
        if isc(x):
            C, Z = z3.RealVal(1), z3.RealVal(0)
        else:
            c.assume(C * C + Z * Z == 1)
        base[id(x)] = (C, Z)
    a1 = base[id(al)]
    if c.decided(eq(add(S, al), Fraction(0))) is True:
        base[id(S)] = (a1[0], -a1[1])          # start = -alpha
    mult = {0: (z3.RealVal(1), z3.RealVal(0))}
    for j in range(1, 2 * spans + 1):
        C, Z = mult[j - 1]
        mult[j] = (C * a1[0] - Z * a1[1], Z * a1[0] + C * a1[1])
        mult[-j] = (mult[j][0], -mult[j][1])

    def angle(k, j):
        """(cos, sin) of k start + j alpha"""
        C, Z = mult[j]
        if k == 0:
            return C, Z
        A, B = base[id(S)]
        return A * C - B * Z, B * C + A * Z

    def resolve(t):
        for app in trig_apps(t):
            if app.get_id() in tbl:
                continue
            tbl[app.get_id()] = app
            x = app.arg(0)
            for k in (0, 1):
                for j in range(-2 * spans, 2 * spans + 1):
                    if (k, j) in ((0, 1), (1, 0)):
                        continue
                    y = add(S, mul(Fraction(j), al)) if k else mul(Fraction(j), al)
                    if z3.is_true(z3.simplify(x == tz(y), som=True, arith_lhs=True)):
                        C, Z = angle(k, j)
                        c.assume(app == (C if app.decl().eq(symnp.COS) else Z))
    for i in range(N):
        C, Z = angle(1, i)
        for q in range(4):
            v = arc_point(q, r, a1[0] if i % 2 else Fraction(1), C, Z, ctr)
            el = toreal(res._array.el(i, q))
            resolve(tz(el))
            c.ob('control point %d[%d]' % (i, q), eq(el, v), 'post', dict(ring=True))


def trig_apps(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(symnp.COS) or x.decl().eq(symnp.SIN):
                out.append(x)
            st.extend(x.children())
    return out


# ------------------------------------------------------------------ extrusion, sweep, ruled objects
def kept_control(c, o):
    """the object given as argument keeps its arrays"""
    unchanged(c, o, 'argument unchanged')


def joined_knots(c, r, parts):
    """knots of the result: those of the parts, one direction after the other"""
    for k, (n, f) in enumerate(parts):
        array_is(c, 'knots of direction %d' % k, r._knots[k], [n], f)


def knot_parts(o):
    return [(add(add(N, p), 1), U) for N, p, U in zip(o.N, o.p, o.U)]


UNIT_KNOTS = (4, lambda i: pickc(i, [Fraction(v) for v in LINEAR]))
EXTRUDE = [dict(dim=d, d=k, axis=a) for d in (1, 2) for k, a in (('s', 0), ('s', 1), ('s', 2), ('s', -1), ('s', None), (1, None), (2, None), (3, None))]


@unit('cad.extrude', EXTRUDE + [dict(dim=3, d=3, axis=None), dict(dim=1, d=4, axis=None)])
def _(L, c, cfg):
    """control points of the object, and displaced by d, over the knots 0, 0, 1, 1 (lemma bezier_piece: X(u) + w d)"""
    m, n = L.load('cad'), L.load('nurbs')
    o = Obj(c, n, cfg['dim'])
    arg, v = displacement(c, cfg['d'], cfg['axis'], Fraction(0), False)
    kind, r = call(m.extrude, o.nrb, arg, *([] if cfg['axis'] is None else [cfg['axis']]), files=L.files)
    frame(c)
    kept_control(c, o)
    if cfg['dim'] == 3 or cfg['d'] == 4:
        c.ob('wrong arguments are rejected', kind == 'exc', 'error')
        return
    c.ob('accepted', kind == 'ret', 'error')
    if kind != 'ret' or not a_new_object(c, n, r, o.dim + 1):
        return
    joined_knots(c, r, knot_parts(o) + [UNIT_KNOTS])

    def val(*ix):
        g, k, q = list(ix[:-2]), ix[-2], ix[-1]
        x = o.A(*(g + [q]))
        return x if k == 0 or q == 3 else add(x, mul(o.A(*(g + [3])), v[q]))
    array_is(c, 'control points', r._array, o.N + [2, 4], val)


@unit('cad.sweep', [dict(dim=1), dict(dim=2), dict(dim=3), dict(dim=1, bad=2)])
def _(L, c, cfg):
    """points of the section plus points of the trajectory, weights multiplied: S(u, v) = C(u) + T(v)"""
    m, n = L.load('cad'), L.load('nurbs')
    o = Obj(c, n, cfg['dim'], tag='s')
    t = Obj(c, n, cfg.get('bad', 1), tag='t')
    kind, r = call(m.sweep, o.nrb, t.nrb, files=L.files)
    frame(c)
    kept_control(c, o)
    kept_control(c, t)
    if cfg['dim'] == 3 or 'bad' in cfg:
        c.ob('wrong arguments are rejected', kind == 'exc', 'error')
        return
    c.ob('accepted', kind == 'ret', 'error')
    if kind != 'ret' or not a_new_object(c, n, r, o.dim + 1):
        return
    joined_knots(c, r, knot_parts(o) + knot_parts(t))
    # the weight of section times trajectory; Cartesian part: weighted sum of the two
    def val(*ix):
        g, j, q = list(ix[:-2]), ix[-2], ix[-1]
        ws, wt = o.A(*(g + [3])), t.A(j, 3)
        return mul(ws, wt) if q == 3 else add(mul(o.A(*(g + [q])), wt), mul(t.A(j, q), ws))
    # weights are positive: the points are quotients
    i = [fint('i') for _ in range(o.dim)]
    array_is(c, 'control points', r._array, o.N + t.N + [4], val)


def compat_contract(c, n, calls):
    """contract of cad.compat for its callers: new objects with common degrees, knots and numbers of control points"""
    def compat(*nurbs, **k):
        if k or len(nurbs) < 2 or not all(isinstance(x, n.NURBS) for x in nurbs):
            raise Unsupported('call of compat')
        d = len(nurbs[0]._knots)
        c.ob('compat: same number of directions', all(len(x._knots) == d for x in nurbs), 'call')
        tag = 'k%d' % len(calls)
        first = Obj(c, n, d, tag=tag + 'a')
        objs = [first]
        for q in range(1, len(nurbs)):
            x = Obj(c, n, d, tag=tag + 'bcdef'[q - 1])
            for k in range(d):
                c.assume(eq(x.p[k], first.p[k]), eq(x.N[k], first.N[k]))
                i = fint('i')
                c.assume(Forall([i], True, eq(x.U[k](i), first.U[k](i))))
            objs.append(x)
        calls.append((nurbs, objs))
        return [x.nrb for x in objs]
    return compat


@unit('cad.ruled', [dict(a=1, b=1), dict(a=2, b=2), dict(a=1, b=2), dict(a=3, b=3)])
def _(L, c, cfg):
    """the compatible versions of the two objects (contract of compat) as rows over the knots 0, 0, 1, 1: linear blend"""
    m, n = L.load('cad'), L.load('nurbs')
    x, y = Obj(c, n, cfg['a'], tag='x'), Obj(c, n, cfg['b'], tag='y')
    calls = []
    m.compat = compat_contract(c, n, calls)
    kind, r = call(m.ruled, x.nrb, y.nrb, files=L.files)
    frame(c)
    kept_control(c, x)
    kept_control(c, y)
    if cfg['a'] != cfg['b'] or cfg['a'] == 3:
        c.ob('wrong arguments are rejected', kind == 'exc', 'error')
        return
    c.ob('accepted', kind == 'ret', 'error')
    if kind != 'ret' or not a_new_object(c, n, r, x.dim + 1):
        return
    ok = len(calls) == 1 and list(calls[0][0]) == [x.nrb, y.nrb]
    c.ob('the two objects are made compatible, in this order', ok)
    if not ok:
        return
    o, q = calls[0][1]
    joined_knots(c, r, knot_parts(o) + [UNIT_KNOTS])
    array_is(c, 'control points', r._array, o.N + [2, 4], lambda *ix: (o.A if ix[-2] == 0 else q.A)(*(list(ix[:-2]) + [ix[-1]])))


# ------------------------------------------------------------------ grids
GRID = [dict(dim=d, shape='seq', degree=g, cont=k, limits=l, wrap=w) for d in (1, 2, 3) for g, k, l, w in
        (('seq', 'seq', 'seq', 'seq'), ('one', None, 'one', False), ('one', 'one', 'one', True), ('default', None, None, None))]
GRID += [dict(dim=1, shape='one', degree='one', cont='one', limits='one', wrap=True), dict(dim=4, shape='seq', degree='one', cont=None, limits=None, wrap=None)]


@unit('cad.grid', GRID)
def _(L, c, cfg):
    """knot vectors of the kernel with the arguments of each direction; control points are the Greville points, weights one
    (lemma linear_precision: the identity map of the box)"""
    m, n = L.load('cad'), L.load('nurbs')
    d = cfg['dim']
    E = [z3.Int('E%d' % k) for k in range(d)]
    p = [z3.Int('p%d' % k) for k in range(d)]
    C = [z3.Int('C%d' % k) for k in range(d)]
    lim = [(z3.Real('a%d' % k), z3.Real('b%d' % k)) for k in range(d)]
    wr = [k % 2 == 0 for k in range(d)]
    kw = {}
    shape = num(E[0]) if cfg['shape'] == 'one' else [num(x) for x in E]
    if cfg['degree'] == 'seq':
        kw['degree'] = [num(x) for x in p]
    elif cfg['degree'] == 'one':
        kw['degree'] = num(p[0])
        p = [p[0]] * d
    else:
        p = [2] * d
    if cfg['cont'] == 'seq':
        kw['continuity'] = [num(x) for x in C]
    elif cfg['cont'] == 'one':
        kw['continuity'] = num(C[0])
        C = [C[0]] * d
    else:
        C = [sub(x, 1) for x in p]
    if cfg['limits'] == 'seq':
        kw['limits'] = [[num(a), num(b)] for a, b in lim]
    elif cfg['limits'] == 'one':
        kw['limits'] = (num(lim[0][0]), num(lim[0][1]))
        lim = [lim[0]] * d
    else:
        lim = [(Fraction(0), Fraction(1))] * d
    if cfg['wrap'] == 'seq':
        kw['wrap'] = list(wr)
    elif cfg['wrap'] is None:
        wr = [False] * d
    else:
        kw['wrap'] = cfg['wrap']
        wr = [cfg['wrap']] * d
    kind, r = call(m.grid, shape, files=L.files, **kw)
    frame(c)
    Cn = [ite(lt(C[k], 0), add(C[k], p[k]), C[k]) for k in range(d)]
    good = land(d <= 3, *[land(le(1, E[k]), le(1, p[k]), le(0, Cn[k]), lt(Cn[k], p[k])) for k in range(d)])
    if kind == 'exc':
        c.ob('rejects only inadmissible arguments', lnot(good), 'error')
        return
    c.ob('accepts only admissible arguments', good, 'error')
    if not a_new_object(c, n, r, d):
        return
    V = [lambda i, k=k: opaque('knotvector', REAL, E[k], p[k], Cn[k], toreal(lim[k][0]), toreal(lim[k][1]), int(wr[k]), i) for k in range(d)]
    M = [add(add(mul(2, p[k]), 2), mul(sub(E[k], 1), sub(p[k], Cn[k]))) for k in range(d)]
    N = [sub(sub(M[k], p[k]), 1) for k in range(d)]
    joined_knots(c, r, list(zip(M, V)))

    def val(*ix):
        q = ix[-1]
        if q == 3:
            return Fraction(1)
        if q >= d:
            return Fraction(0)
        i = ix[q]
        return rdiv(SUM(add(i, 1), add(i, p[q]), lambda k: V[q](k)), p[q])
    array_is(c, 'control points are the Greville points, weights one', r._array, N + [4], val)
