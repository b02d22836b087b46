"""Contracts of the Python layer (engine B): construction and accessors, refinement, slices."""
import itertools
import z3
from terms import *
from sym import *
import sym, symnp, kern
from symnp import SArr, fresh_arr
from kern import opaque, lam
from pycore import *
from pyspec import *
from pyspec import UNITS, unit


# ------------------------------------------------------------------ construction and accessors
def knot_args(c, dim):
    """knot vectors as arguments: lengths and functions"""
    L = [z3.Int('L%d' % k) for k in range(dim)]
    out, fs = [], []
    for k in range(dim):
        c.assume(L[k] >= 0)
        a, f = vec('K%d' % k, L[k])
        out.append(a)
        fs.append(f)
    return L, out, fs


def same_knots(c, nrb, L, fs, args):
    c.ob('knots is a tuple of the right length', isinstance(nrb._knots, tuple) and len(nrb._knots) == len(L), 'invariant')
    for k in range(len(L)):
        array_is(c, 'knots of direction %d' % k, nrb._knots[k], [L[k]], fs[k])


CTOR = [dict(dim=d, comps=s, weights=w, fields=f) for d in (1, 2, 3) for s in (2, 3, 4) for w in (False, True)
        for f in (None, 'scalar', 'vector') if not (s == 4 and w)]
CTOR += [dict(dim=1, comps=s, weights=w, fields=None) for s in (1, 5) for w in (False,)] + \
        [dict(dim=2, comps=4, weights=True, fields=None), dict(dim=1, comps=3, weights='tuple', fields=None),
         dict(dim=2, comps=2, weights='tuple', fields='vector'), dict(dim=2, comps=3, weights='rank', fields=None),
         dict(dim=2, comps=3, weights=False, fields='rank')]


@unit('nurbs.__init__', CTOR)
def _(L, c, cfg):
    m = L.load('nurbs')
    d, s, w, f = cfg['dim'], cfg['comps'], cfg['weights'], cfg['fields']
    Ln, K, KF = knot_args(c, d)
    N = [z3.Int('N%d' % k) for k in range(d)]
    c.assume(*[n >= 1 for n in N])
    CF = z3.Function('C', *([INT] * (d + 1) + [REAL]))
    C = fresh_arr(N + [s], lambda ix: CF(*[tz(i) for i in ix]), 'd', 'argument control')
    W = F = None
    NW = [z3.Int('NW%d' % k) for k in range(d)]
    NF = [z3.Int('NF%d' % k) for k in range(d)]
    nf = z3.Int('nf')
    c.assume(*[n >= 1 for n in NW + NF + [nf]])
    WF = z3.Function('W', *([INT] * d + [REAL]))
    if w:
        nw = NW[:-1] if w == 'rank' else NW
        W = fresh_arr(nw, lambda ix: WF(*[tz(i) for i in list(ix) + [0] * (d - len(ix))]), 'd', 'argument weights')
    FF = z3.Function('F', *([INT] * (d + 1) + [REAL]))
    if f == 'scalar':
        F = fresh_arr(NF, lambda ix: FF(*[tz(i) for i in list(ix) + [0]]), 'd', 'argument fields')
    elif f == 'vector':
        F = fresh_arr(NF + [nf], lambda ix: FF(*[tz(i) for i in ix]), 'd', 'argument fields')
    elif f == 'rank':
        F = fresh_arr([nf], lambda ix: FF(*[tz(i) for i in [0] * d + list(ix)]), 'd', 'argument fields')
    kw = {}
    ctl = (C, W) if w == 'tuple' else C
    if w and w != 'tuple':
        kw['weights'] = W
    if F is not None:
        kw['fields'] = F
    kind, nrb = call(m.NURBS, K, ctl, files=L.files, **kw)
    frame(c)
    good = 2 <= s <= 4 and not (s == 4 and w) and w != 'rank' and f != 'rank'
    for k in range(d):
        good = land(good, le(4, Ln[k]), le(add(N[k], 2), Ln[k]))
        if W is not None and w != 'rank':
            good = land(good, eq(NW[k], N[k]))
        if F is not None and f != 'rank':
            good = land(good, eq(NF[k], N[k]))
    if kind == 'exc':
        # a field array whose trailing extents happen to match otherwise is still a wrong shape
        c.ob('rejects only inconsistent arguments', lnot(good), 'error')
        return
    c.ob('accepts only consistent arguments', good, 'error')
    same_knots(c, nrb, Ln, KF, K)
    nd = nf if f == 'vector' else 1 if f else 0

    def wt(g):
        if s == 4:
            return CF(*[tz(i) for i in list(g) + [3]])
        return WF(*[tz(i) for i in g]) if w else Fraction(1)

    def val(*ix):
        g, q = ix[:-1], ix[-1]
        x = CF(*[tz(i) for i in list(g) + [q]])
        if s < 4:
            x = ite(lt(q, s), mul(x, wt(g)) if w else x, ite(eq(q, 3), wt(g), Fraction(0)))
        if f:
            j = sub(q, 4) if f == 'vector' else 0
            x = ite(lt(q, 4), x, mul(FF(*[tz(i) for i in list(g) + [j]]), wt(g)))
        return x
    array_is(c, 'homogeneous control points and fields', nrb._array, N + [add(4, nd)], val)
    c.ob('array is C-contiguous', nrb._array.contiguous(), 'invariant')
    for k in range(d):
        c.ob('degree of direction %d' % k, eq(term(nrb.degree[k]), sub(sub(Ln[k], N[k]), 1)))
    c.ob('dim', nrb.dim == d)
    for k in range(d):
        c.ob('shape %d' % k, eq(term(nrb.shape[k]), N[k]))


@unit('nurbs.__init__:default', [dict(dim=d, fields=f) for d in (1, 2, 3) for f in (None, 'vector')])
def _(L, c, cfg):
    """no control points: the identity map of the domain (clamped knot vectors)"""
    d = cfg['dim']
    P = [z3.Int('P%d' % k) for k in range(d)]
    Ln, K, KF = knot_args(c, d)
    for k in range(d):
        i, j = fint('i'), fint('j')
        c.assume(P[k] >= 1, Ln[k] >= 2 * P[k] + 2,
                 Forall([i, j], land(le(0, i), le(i, j), lt(j, Ln[k])), le(KF[k](i), KF[k](j))),
                 Forall([i], land(le(0, i), le(i, P[k])), eq(KF[k](i), KF[k](0))), KF[k](P[k]) < KF[k](P[k] + 1),
                 Forall([i], land(le(sub(sub(Ln[k], 1), P[k]), i), lt(i, Ln[k])), eq(KF[k](i), KF[k](Ln[k] - 1))),
                 KF[k](Ln[k] - P[k] - 2) < KF[k](Ln[k] - P[k] - 1))
    L.loops.contracts['nurbs.NURBS.__init__#0'] = (
        lambda e: [le(1, term(e['p'])), le(term(e['p']), P[e['i']])], lambda e: sub(P[e['i']], term(e['p'])))
    m = L.load('nurbs')
    F = None
    nf = z3.Int('nf')
    N = [Ln[k] - P[k] - 1 for k in range(d)]
    if cfg['fields']:
        c.assume(nf >= 1)
        FF = z3.Function('F', *([INT] * (d + 1) + [REAL]))
        F = fresh_arr(N + [nf], lambda ix: FF(*[tz(i) for i in ix]), 'd', 'argument fields')
    kind, nrb = call(m.NURBS, K, files=L.files, **({'fields': F} if F is not None else {}))
    frame(c)
    if kind == 'exc':
        c.ob('clamped knot vectors are accepted', False, 'error')
        return
    same_knots(c, nrb, Ln, KF, K)

    def val(*ix):
        r = ite(eq(ix[-1], 3), Fraction(1), Fraction(0))
        for k in range(d):
            g = rdiv(SUM(add(ix[k], 1), add(ix[k], P[k]), lambda j, k=k: KF[k](j)), toreal(P[k]))
            r = ite(eq(ix[-1], k), g, r)
        if F is not None:
            r = ite(lt(ix[-1], 4), r, FF(*[tz(i) for i in list(ix[:-1]) + [sub(ix[-1], 4)]]))
        return r
    array_is(c, 'control points are the Greville points, weights one', nrb._array, N + [add(4, nf) if F is not None else 4], val)
    for k in range(d):
        c.ob('degree of direction %d' % k, eq(term(nrb.degree[k]), P[k]))


@unit('nurbs.accessors', [dict(dim=d) for d in (1, 2, 3)])
def _(L, c, cfg):
    m = L.load('nurbs')
    d = cfg['dim']
    o = Obj(c, m, d, weights='positive')
    n = o.nrb
    get = lambda a: call(lambda: getattr(n, a), files=L.files)
    for name, ext, val in (
            ('control', o.N + [4], lambda *ix: o.A(*ix)),
            ('weights', o.N, lambda *ix: o.A(*(list(ix) + [3]))),
            ('points', o.N + [3], lambda *ix: rdiv(o.A(*ix), o.A(*(list(ix[:-1]) + [3])))),
            ('array', o.N + [o.comps], lambda *ix: o.A(*ix))):
        k, a = get(name)
        c.ob('%s is available' % name, k == 'ret', 'error')
        if k == 'ret':
            array_is(c, name, a, ext, val)
    k, F = get('fields')
    c.ob('fields are available', k == 'ret', 'error')
    if k == 'ret':
        if F is None:
            c.ob('no fields only without field components', eq(o.comps, 4))
        else:
            c.ob('fields only with field components', lt(4, o.comps))
            array_is(c, 'fields', F, o.N + [sub(o.comps, 4)],
                     lambda *ix: rdiv(o.A(*(list(ix[:-1]) + [add(ix[-1], 4)])), o.A(*(list(ix[:-1]) + [3]))))
    c.ob('dim', n.dim == d)
    k, kn = get('knots')
    c.ob('knots', k == 'ret' and isinstance(kn, tuple) and len(kn) == d)
    k, dg = get('degree')
    k2, sh = get('shape')
    c.ob('degree and shape have one entry per direction', k == 'ret' and k2 == 'ret' and len(dg) == d and len(sh) == d)
    for q in range(d):
        array_is(c, 'knots of direction %d' % q, kn[q], [add(add(o.N[q], o.p[q]), 1)], o.U[q])
        c.ob('degree of direction %d' % q, eq(term(dg[q]), o.p[q]))
        c.ob('shape of direction %d' % q, eq(term(sh[q]), o.N[q]))
    frame(c)
    unchanged(c, o)


@unit('nurbs.copy', [dict(dim=d) for d in (1, 2, 3)])
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    kind, r = call(o.nrb.copy, files=L.files)
    frame(c)
    unchanged(c, o)
    c.ob('a new object', kind == 'ret' and isinstance(r, m.NURBS) and r is not o.nrb)
    if kind != 'ret':
        return
    array_is(c, 'control points', r._array, o.N + [o.comps], o.A)
    c.ob('shares no control points', r._array.buf is not o.arr.buf and not r._array.maybe_copy, 'frame')
    c.ob('knots is a tuple', isinstance(r._knots, tuple) and len(r._knots) == o.dim, 'invariant')
    for k in range(o.dim):
        array_is(c, 'knots of direction %d' % k, r._knots[k], [add(add(o.N[k], o.p[k]), 1)], o.U[k])
        c.ob('shares no knots of direction %d' % k, r._knots[k].buf is not o.kn0[k].buf and not r._knots[k].maybe_copy, 'frame')


@unit('nurbs.clone', [dict(dim=d) for d in (1, 2, 3)])
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    kind, r = call(o.nrb.clone, files=L.files)
    frame(c)
    unchanged(c, o)
    c.ob('a new object', kind == 'ret' and isinstance(r, m.NURBS) and r is not o.nrb)
    if kind != 'ret':
        return
    array_is(c, 'control points', r._array, o.N + [o.comps], o.A)
    c.ob('knots is a tuple', isinstance(r._knots, tuple) and len(r._knots) == o.dim, 'invariant')
    for k in range(o.dim):
        array_is(c, 'knots of direction %d' % k, r._knots[k], [add(add(o.N[k], o.p[k]), 1)], o.U[k])


@unit('nurbs.rebuild', [dict(dim=d, fields=f) for d in (1, 2, 3) for f in (False, True)])
def _(L, c, cfg):
    """an object rebuilt from what it reports is equal to it"""
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    n = o.nrb
    if cfg['fields']:
        c.assume(lt(4, o.comps))
        kind, r = call(lambda: m.NURBS(n.knots, n.points, weights=n.weights, fields=n.fields), files=L.files)
    else:
        c.assume(eq(4, o.comps))
        kind, r = call(lambda: m.NURBS(n.knots, n.points, weights=n.weights), files=L.files)
    frame(c)
    unchanged(c, o)
    c.ob('accepted', kind == 'ret', 'error')
    if kind != 'ret':
        return
    array_is(c, 'control points', r._array, o.N + [o.comps], o.A)
    for k in range(o.dim):
        array_is(c, 'knots of direction %d' % k, r._knots[k], [add(add(o.N[k], o.p[k]), 1)], o.U[k])


# ------------------------------------------------------------------ transformations
def matrix(c, name, n=4, origin='argument '):
    f = z3.Function(name, INT, INT, REAL)
    return fresh_arr([n, n], lambda ix: f(tz(ix[0]), tz(ix[1])), 'd', origin + name if origin else None), \
        (lambda i, j: f(tz(i), tz(j)))


def mkt(c, m, name='M'):
    t = m.transform.__new__(m.transform)
    a, f = matrix(c, name, 4, 'matrix of ')
    t.matrix = a
    return t, f


def matrix_is(c, name, t, val):
    a = t.matrix
    array_is(c, name, a, [4, 4], lambda i, j: toreal(val(i, j)))
    c.ob('%s: a plain array' % name, isinstance(a, SArr) and a.buf.dtype == 'd', 'invariant')


def mm(A, B):
    def f(i, j):
        r = Fraction(0)
        for k in range(4):
            r = add(r, mul(toreal(A(i, k)), toreal(B(k, j))))
        return r
    return f


IDENT = lambda i, j: Fraction(int(i == j))


def affine(R, t):
    """4 x 4 matrix with linear part R(i, j) and translation t(i)"""
    return lambda i, j: (R(i, j) if j < 3 else t(i)) if i < 3 else Fraction(int(j == 3))


@unit('transform.__init__', [dict(arg=a) for a in ('None', 'transform', 'matrix', '3x4', '4')])
def _(L, c, cfg):
    m = L.load('transform')
    k = cfg['arg']
    M = z3.Function('M', INT, INT, REAL)
    MF = lambda i, j: M(tz(i), tz(j))
    if k == 'None':
        arg, MF = None, IDENT
    elif k == 'transform':
        arg, MF = mkt(c, m)
    elif k == 'matrix':
        arg, MF = matrix(c, 'M')
    elif k == '3x4':
        arg = fresh_arr([3, 4], lambda ix: M(tz(ix[0]), tz(ix[1])), 'd', 'argument')
    else:
        arg = fresh_arr([4], lambda ix: M(0, tz(ix[0])), 'd', 'argument')
    kind, t = call(m.transform, arg, files=L.files)
    frame(c)
    if k in ('3x4', '4'):
        c.ob('wrong shapes are rejected', kind == 'exc', 'error')
        return
    c.ob('accepted', kind == 'ret', 'error')
    if kind == 'ret':
        matrix_is(c, 'matrix', t, MF)
        if arg is not None:
            b = arg.buf if isinstance(arg, SArr) else arg.matrix.buf
            c.ob('shares no data with the argument', t.matrix.buf is not b, 'frame')


@unit('transform.__call__', [dict(dims=d) for d in (0, 1, 2, 3)])
def _(L, c, cfg):
    m = L.load('transform')
    t, M = mkt(c, m)
    n = [z3.Int('n%d' % k) for k in range(cfg['dims'])]
    c.assume(*[x >= 0 for x in n])
    X = z3.Function('X', *([INT] * (len(n) + 1) + [REAL]))
    XF = lambda *ix: X(*[tz(i) for i in ix])
    x = fresh_arr(n + [4], lambda ix: XF(*ix), 'd', 'argument')
    kind, y = call(t, x, files=L.files)
    frame(c)
    c.ob('accepted', kind == 'ret', 'error')
    if kind == 'ret':
        def val(*ix):
            r = Fraction(0)
            for k in range(4):
                r = add(r, mul(M(ix[-1], k), XF(*(list(ix[:-1]) + [k]))))
            return r
        array_is(c, 'image', y, n + [4], val)


@unit('transform.copy', [dict(how=h) for h in ('copy', 'clone')])
def _(L, c, cfg):
    m = L.load('transform')
    t, M = mkt(c, m)
    kind, r = call(getattr(t, cfg['how']), files=L.files)
    frame(c)
    c.ob('a new transformation', kind == 'ret' and isinstance(r, m.transform) and r is not t)
    if kind == 'ret':
        matrix_is(c, 'matrix', r, M)
        if cfg['how'] == 'copy':
            c.ob('shares no data', r.matrix.buf is not t.matrix.buf, 'frame')


@unit('transform.inverse', [dict(how=h) for h in ('inverse', 'invert')])
def _(L, c, cfg):
    m = L.load('transform')
    t, M = mkt(c, m)
    a0 = t.matrix
    kind, r = call(getattr(t, cfg['how']), files=L.files)
    frame(c)
    if kind == 'exc':
        c.ob('matrix kept after the error', t.matrix is a0, 'frame')
        return
    if cfg['how'] == 'inverse':
        c.ob('a new transformation', isinstance(r, m.transform) and r is not t)
        c.ob('the transformation itself is unchanged', t.matrix is a0, 'frame')
    else:
        c.ob('returns the transformation', r is t)
    X = lambda i, j: toreal(r.matrix.el(i, j))
    c.ob('matrix is 4 x 4', [eq(r.matrix.dext(k), 4) for k in (0, 1)], 'invariant')
    for i in range(4):
        for j in range(4):
            c.ob('inverse after the map is the identity (%d,%d)' % (i, j), eq(mm(X, M)(i, j), IDENT(i, j)))
            c.ob('map after the inverse is the identity (%d,%d)' % (i, j), eq(mm(M, X)(i, j), IDENT(i, j)))


@unit('transform.compose', [dict(arg=a) for a in ('transform', '4x4', '3x3', '4', '3x4')])
def _(L, c, cfg):
    m = L.load('transform')
    t, M = mkt(c, m)
    k = cfg['arg']
    if k == 'transform':
        arg, B = mkt(c, m, 'B')
    elif k == '4x4':
        arg, B = matrix(c, 'B')
    elif k == '3x3':
        arg, B3 = matrix(c, 'B', 3)
        B = affine(B3, lambda i: Fraction(0))
    else:
        f = z3.Function('B', INT, INT, REAL)
        arg = fresh_arr([4] if k == '4' else [3, 4], lambda ix: f(tz(ix[0]), tz(ix[-1])), 'd', 'argument')
    a0 = t.matrix
    kind, r = call(t.compose, arg, files=L.files)
    frame(c)
    if k in ('4', '3x4'):
        c.ob('wrong shapes are rejected', kind == 'exc', 'error')
        c.ob('matrix kept after the error', t.matrix is a0, 'frame')
        return
    c.ob('accepted', kind == 'ret', 'error')
    if kind == 'ret':
        c.ob('returns the transformation', r is t)
        matrix_is(c, 'argument after the map', t, mm(B, M))


AXES = [None, 0, 1, 2, -1]


def displacement(c, kindv, axis, default, fill):
    """(python argument, vector of three) of a displacement / scale argument"""
    if kindv == 's':
        x = z3.Real('d')
        v = [default] * 3
        if axis is None:
            v = [x] * 3 if fill else [x, default, default]
        else:
            v[axis % 3] = x
        return num(x), v
    n = kindv
    a, f = vec('d', n)
    return a, [f(k) if k < n else default for k in range(3)]


TR = [dict(d=k, axis=a) for k in ('s',) for a in AXES + [3]] + [dict(d=k, axis=None) for k in (1, 2, 3, 4)]


@unit('transform.translate', TR)
def _(L, c, cfg):
    m = L.load('transform')
    t, M = mkt(c, m)
    a0 = t.matrix
    ax = cfg['axis']
    arg, v = displacement(c, cfg['d'], ax if ax != 3 else 0, Fraction(0), False)
    for name in ('translate', 'move'):
        t.matrix = a0
        kind, r = call(getattr(t, name), arg, ax, files=L.files)
        frame(c)
        if cfg['d'] == 4 or ax == 3:
            c.ob('%s: wrong arguments are rejected' % name, kind == 'exc', 'error')
            c.ob('%s: matrix kept after the error' % name, t.matrix is a0, 'frame')
            continue
        c.ob('%s: accepted' % name, kind == 'ret', 'error')
        if kind == 'ret':
            c.ob('%s: returns the transformation' % name, r is t)
            matrix_is(c, '%s: translation after the map' % name, t, mm(affine(IDENT, lambda i: v[i]), M))


@unit('transform.scale', TR)
def _(L, c, cfg):
    m = L.load('transform')
    t, M = mkt(c, m)
    a0 = t.matrix
    ax = cfg['axis']
    arg, v = displacement(c, cfg['d'], ax if ax != 3 else 0, Fraction(1), True)
    kind, r = call(t.scale, arg, ax, files=L.files)
    frame(c)
    if cfg['d'] == 4 or ax == 3:
        c.ob('wrong arguments are rejected', kind == 'exc', 'error')
        c.ob('matrix kept after the error', t.matrix is a0, 'frame')
        return
    if cfg['d'] in (1, 2):
        # fewer factors than coordinates: the code requires three or rejects
        if kind == 'exc':
            c.ob('matrix kept after the error', t.matrix is a0, 'frame')
            return
    c.ob('accepted', kind == 'ret', 'error')
    if kind == 'ret':
        c.ob('returns the transformation', r is t)
        matrix_is(c, 'scaling after the map', t, mm(affine(lambda i, j: v[i] if i == j else Fraction(0), lambda i: Fraction(0)), M))


def rodrigues(a, cs, sn):
    """rotation about the unit vector a: v cos + (a x v) sin + a (a.v) (1 - cos)"""
    K = [[Fraction(0), neg(a[2]), a[1]], [a[2], Fraction(0), neg(a[0])], [neg(a[1]), a[0], Fraction(0)]]
    return lambda i, j: add(add(mul(cs, Fraction(int(i == j))), mul(sn, K[i][j])), mul(sub(Fraction(1), cs), mul(a[i], a[j])))


@unit('transform.rotate', [dict(axis=a) for a in (0, 1, 2, -1, 3, 'v1', 'v2', 'v3', 'v4')])
def _(L, c, cfg):
    m = L.load('transform')
    t, M = mkt(c, m)
    a0 = t.matrix
    ang = z3.Real('angle')
    ax = cfg['axis']
    if isinstance(ax, int):
        arg = ax
        a = [Fraction(int(k == ax % 3)) for k in range(3)]
        size2 = None
    else:
        n = int(ax[1])
        arg, f = vec('axis', n)
        raw = [f(k) if k < n else Fraction(0) for k in range(3)]
        size2 = add(add(mul(raw[0], raw[0]), mul(raw[1], raw[1])), mul(raw[2], raw[2]))
        r = symnp.SQRT(tz(size2)) if z3.is_expr(size2) else None
        a = [rdiv(x, r) if r is not None else x for x in raw]
    kind, res = call(t.rotate, num(ang), arg, files=L.files)
    frame(c)
    if kind == 'exc':
        c.ob('matrix kept after the error', t.matrix is a0, 'frame')
        if ax in (3, 'v4'):
            return
        c.ob('rejects only the zero axis', eq(size2, Fraction(0)) if size2 is not None else False, 'error')
        return
    c.ob('returns the transformation', res is t)
    if c.decide(eq(ang, Fraction(0))):
        matrix_is(c, 'no rotation by the angle zero', t, M)
        return
    c.ob('accepts only existing axes', ax not in (3, 'v4'), 'error')
    if ax in (3, 'v4'):
        return
    cs, sn = symnp.COS(ang), symnp.SIN(ang)
    R = rodrigues(a, cs, sn)
    matrix_is(c, 'rotation after the map', t, mm(affine(R, lambda i: Fraction(0)), M))


@unit('nurbs.transform', [dict(dim=d, arg=a) for d in (1, 2, 3) for a in ('transform', 'matrix')] + [dict(dim=2, arg='3x3')])
def _(L, c, cfg):
    m, mt = L.load('nurbs'), L.load('transform')
    o = Obj(c, m, cfg['dim'])
    if cfg['arg'] == 'transform':
        t, M = mkt(c, mt)
    elif cfg['arg'] == 'matrix':
        t, M = matrix(c, 'M')
    else:
        t, M = matrix(c, 'M', 3)
    kind, r = call(o.nrb.transform, t, files=L.files)
    frame(c)
    if cfg['arg'] == '3x3':
        c.ob('wrong shapes are rejected', kind == 'exc', 'error')
        unchanged(c, o)
        return
    c.ob('accepted', kind == 'ret', 'error')
    if kind == 'ret':
        transformed(c, o, r, M)


def transformed(c, o, r, M):
    c.ob('returns the object', r is o.nrb)
    nrb = o.nrb
    c.ob('knots kept', len(nrb._knots) == o.dim and all(x is y for x, y in zip(nrb._knots, o.kn0)), 'post')

    def val(*ix):
        g, q = list(ix[:-1]), ix[-1]
        rows = []
        for i in range(4):
            s = Fraction(0)
            for k in range(4):
                s = add(s, mul(toreal(M(i, k)), o.A(*(g + [k]))))
            rows.append(s)
        x = o.A(*ix)
        for i in range(4):
            x = ite(eq(q, i), rows[i], x)
        return x
    array_is(c, 'homogeneous control points are mapped, fields kept', nrb._array, o.N + [o.comps], val)
    c.ob('array is C-contiguous', nrb._array.contiguous(), 'invariant')
    c.ob('previously returned arrays keep their contents', nrb._array.buf is not o.arr0.buf, 'frame')
    # an affine map leaves the weights alone
    vs = [fint('i') for _ in range(o.dim)]
    g = land(*[land(le(0, v), lt(v, n)) for v, n in zip(vs, o.N)])
    aff = land(*[eq(toreal(M(3, k)), Fraction(int(k == 3))) for k in range(4)])
    c.ob('affine maps keep the weights', Forall(vs, land(g, aff), eq(toreal(nrb._array.el(*(vs + [3]))), o.A(*(vs + [3])))))


@unit('nurbs.move', [dict(dim=d, how=h, d=k, axis=a) for d in (1, 2) for h in ('translate', 'move', 'scale')
                     for k, a in (('s', None), ('s', 1), (3, None))] +
      [dict(dim=2, how='rotate', d=0, axis=a) for a in (0, 1, 2, None)])
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    how, ax = cfg['how'], cfg['axis']
    if how == 'rotate':
        ang = z3.Real('angle')
        c.assume(ang != 0)
        args = (num(ang),) + ((ax,) if ax is not None else ())
        k = 2 if ax is None else ax
        a = [Fraction(int(q == k)) for q in range(3)]
        M = affine(rodrigues(a, symnp.COS(ang), symnp.SIN(ang)), lambda i: Fraction(0))
    else:
        one_ = Fraction(int(how == 'scale'))
        arg, v = displacement(c, cfg['d'], ax, one_, how == 'scale')
        args = (arg, ax)
        M = affine(IDENT, lambda i: v[i]) if how != 'scale' else \
            affine(lambda i, j: v[i] if i == j else Fraction(0), lambda i: Fraction(0))
    kind, r = call(getattr(o.nrb, how), *args, files=L.files)
    frame(c)
    c.ob('accepted', kind == 'ret', 'error')
    if kind == 'ret':
        transformed(c, o, r, M)


# ------------------------------------------------------------------ contracts used by callers
class View:
    """specification-level view of the present state of an object"""
    def __init__(self, nrb):
        self.nrb = nrb
        a, kn = nrb._array, nrb._knots
        self.arr, self.kn = a, kn
        self.dim = len(kn)
        if a.ndim != self.dim + 1 or any(len(d) != 1 and not (isc(a.dext(k)) and a.dext(k) == 1) for k, d in enumerate(a.dims)):
            raise Unsupported('object with grouped dimensions')
        self.N = [a.dext(k) for k in range(self.dim)]
        self.comps = a.dext(self.dim)
        snap = symnp.frozen(a)
        self.A = lambda *ix: snap.el(*ix)
        self.U = [symnp.line(symnp.frozen(k)) for k in kn]
        self.p = [norm(sub(sub(k.dext(0), n), 1)) for k, n in zip(kn, self.N)]

    def lo(self, k):
        return self.U[k](self.p[k])

    def hi(self, k):
        return self.U[k](self.N[k])

    def axes(self):
        return [(sub(N, 1), p, U) for N, p, U in zip(self.N, self.p, self.U)]


def pre_object(c, o, a, what):
    """the class invariant of direction a, as a precondition"""
    i = fint('i')
    U, p, N = o.U[a], o.p[a], o.N[a]
    c.check('%s: knots sorted' % what, Forall([i], land(le(0, i), lt(i, add(N, p))), le(U(i), U(add(i, 1)))), 'call')
    c.check('%s: degree and number of points' % what, land(le(1, p), le(add(p, 1), N)), 'call')
    c.check('%s: first span' % what, lt(U(p), U(add(p, 1))), 'call')
    c.check('%s: last span' % what, lt(U(sub(N, 1)), U(N)), 'call')


def insert_post(o, a, u, R):
    """effect of inserting u R > 0 times: (number of points, knots, control points)"""
    k, s = spanmult(o, a, u)
    N, p, U = o.N[a], o.p[a], o.U[a]
    V = lambda i: ite(le(i, k), U(i), ite(le(i, add(k, R)), u, U(sub(i, R))))
    c = ctx()
    known = lambda g: g if c.decided(g) is None else c.decided(g)
    off = ite(known(eq(u, o.lo(a))), R, 0)
    cut = ite(known(eq(u, o.hi(a))), R, 0)
    N2 = sub(sub(add(N, R), off), cut)
    args = KA(o, a)
    return N2, (lambda i: V(add(i, off))), \
        (lambda *ix: opaque('insert', REAL, *(args + [fibre_at(o, a, ix[-1], ix[:-1]), u, R, add(ix[a], off)]), ranges=RG1))


def install(o, a, N2, p2, W, val):
    """give the object new knots and control points in direction a"""
    nrb = o.nrb
    ext = [N2 if d == a else o.N[d] for d in range(o.dim)] + [o.comps]
    nrb._array = fresh_arr(ext, lambda ix: val(*ix))
    kn = list(nrb._knots)
    kn[a] = fresh_arr([add(add(N2, p2), 1)], lambda ix: W(ix[0]))
    nrb._knots = tuple(kn)
    return nrb


def concrete_axis(axis, dim):
    axis = axis.t if isinstance(axis, SNum) else axis
    if not isinstance(axis, int) or not -dim <= axis < dim:
        raise Unsupported('axis of a call by contract')
    return axis % dim


def use_insert(c, m):
    """calls of NURBS.insert are checked against its contract"""
    def insert(self, axis, value, times=1):
        o = View(self)
        a = concrete_axis(axis, o.dim)
        u = toreal(term(value))
        if times is None:
            raise Unsupported('insert by contract')
        R = term(times)
        c.first = getattr(c, 'first', len(c.facts))
        k, s = kern.span_of(c, o.U[a], sub(o.N[a], 1), o.p[a], u)
        mu = ite(le(s, o.p[a]), s, o.p[a])
        pre_object(c, o, a, 'insert')
        c.check('insert: value in the domain', in_domain(o, a, u))
        c.check('insert: admissible number of times', land(le(0, R), le(add(R, mu), o.p[a])))
        if not c.decide(lnot(eq(R, 0))):
            return self
        N2, W0, val = insert_post(o, a, u, R)
        Wf = ffun('knots', INT, REAL)
        W = lambda i: Wf(tz(i))
        i = fint('i')
        c.assume(Forall([i], land(le(0, i), le(i, add(N2, o.p[a]))), eq(W(i), W0(i))))
        if c.decided(lor(eq(u, o.lo(a)), eq(u, o.hi(a)))) is True:
            for y in [o.lo(a), o.hi(a)] + getattr(c, 'track', []):
                # multiplicities after inserting at an end (proved with nurbs.insert)
                s0 = kern.span_of(c, o.U[a], sub(o.N[a], 1), o.p[a], y)[1]
                s1 = kern.span_of(c, W, sub(N2, 1), o.p[a], y)[1]
                c.assume(eq(s1, add(s0, ite(eq(y, u), R, 0))))
        r = install(o, a, N2, o.p[a], W, val)
        c.assume(kern.sorted_fact(W, add(add(N2, o.p[a]), 1)), lt(W(o.p[a]), W(add(o.p[a], 1))),
                 lt(W(sub(N2, 1)), W(N2)), le(add(o.p[a], 1), N2), eq(W(o.p[a]), o.lo(a)), eq(W(N2), o.hi(a)))
        c.inserted = getattr(c, 'inserted', []) + [(u, R, a)]
        c.after_insert = View(self)
        return r
    m.NURBS.insert = insert


# ------------------------------------------------------------------ refine
def cnt(f, lo, hi, x):
    """number of i in lo..hi-1 with f(i) = x (same term as symnp.occurrences of that slice)"""
    a = fresh_arr([sub(hi, lo)], lambda ix: f(add(lo, ix[0])))
    return symnp.occurrences(a, x)


@unit('nurbs.refine', dim_axis(neg=True) + [dict(dim=2, axis=0, values=None), dict(dim=1, axis=0, values='scalar'),
                                          dict(dim=1, axis=0, track=True)])
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    a = cfg['axis'] % o.dim
    N, p, U = o.N[a], o.p[a], o.U[a]
    if cfg.get('values', 'v') is None:
        kind, r = call(o.nrb.refine, cfg['axis'], None, files=L.files)
        frame(c)
        c.ob('returns the object', kind == 'ret' and r is o.nrb)
        unchanged(c, o)
        return
    if cfg.get('values') == 'scalar':
        n = 1
        x = z3.Real('value')
        arg, v = num(x), lambda i, x=x: x
    else:
        n = z3.Int('nv')
        c.assume(n >= 0)
        arg, v = vec('values', n)
    mm_ = add(N, p)
    lo, hi = o.lo(a), o.hi(a)
    inner = lambda x: cnt(U, 1, mm_, x)
    inner0 = inner(z3.Real('x'))
    # lemmas on sorted lists: lower bound from a run, upper bound from the multiplicity bound
    c.count_lemmas = [lambda t, x: [le(t, p)] if t.arg(1).eq(inner0.arg(1)) and t.arg(0).eq(inner0.arg(0)) else []]
    for x in (lo, hi):
        cx = inner(x)
        k, s = spanmult(o, a, x)
        c.assume(imp(land(lt(0, s)), le(add(sub(symmin(k, sub(mm_, 1)), symmax(add(sub(k, s), 1), 1)), 1), cx)))
    use_insert(c, m)
    if cfg.get('track'):
        return refine_mult(L, c, o, a, n, v, arg)
    kind, r = call(o.nrb.refine, cfg['axis'], arg, files=L.files)
    frame(c)
    l = fint('l')
    n0 = len(c.facts)
    tot = lambda x: add(inner(x), cnt(v, 0, n, x))
    t = tot(v(l))
    adm = z3.ForAll([l], tz(imp(land(le(0, l), lt(l, n)), land(le(lo, v(l)), le(v(l), hi), le(t, p))))) if not isc(n) else \
        land(le(lo, v(0)), le(v(0), hi), le(tot(v(0)), p))
    spec = c.facts[n0:]
    if kind == 'exc':
        c.ob('rejects only inadmissible values', lnot(adm), 'error')
        unchanged(c, o, 'after the error')
        return
    args = {'using': [f for f in c.facts[:getattr(c, 'first', len(c.facts))] + spec]}
    c.ob('accepts only values of the domain', Forall([l], land(le(0, l), lt(l, n)), land(le(lo, v(l)), le(v(l), hi))), 'error', args)
    c.ob('accepts only multiplicities up to the degree', Forall([l], land(le(0, l), lt(l, n)), le(t, p)), 'error', args)
    c.ob('returns the object', r is o.nrb)
    if c.decide(eq(n, 0)):
        unchanged(c, o, 'no values')
        return
    nrb = o.nrb
    # copies of the ends are inserted on their own: each end once, with its multiplicity among the values
    log = getattr(c, 'inserted', [])
    for x in (lo, hi):
        mine = [(u, R) for u, R, b in log if b == a and c.decided(eq(u, x)) is True]
        if mine:
            c.ob('an end of the domain is inserted once', len(mine) == 1)
            c.ob('an end of the domain is inserted as often as asked for', eq(mine[0][1], cnt(v, 0, n, x)))
        else:
            c.ob('an end of the domain is left alone only if not asked for', eq(cnt(v, 0, n, x), 0))
    c.ob('nothing else is inserted separately', all(b == a and (c.decided(eq(u, lo)) is True or c.decided(eq(u, hi)) is True) for u, R, b in log))
    o1 = c.after_insert if log else o
    N1, U1, A1 = o1.N[a], o1.U[a], o1.A
    c.check('domain kept by the insertions', land(eq(U1(p), lo), eq(U1(N1), hi), le(add(p, 1), N1), le(1, p)), 'post')
    kept = c.facts[-1:]
    masks = getattr(c, 'masks', [])
    sel = {'using': c.facts[:getattr(c, 'first', len(c.facts))] + c.facts[min(masks):] if masks else None}
    refined = [x for x in getattr(c, 'calls', []) if x[0] == 'bsp.RefineKnotVector']
    strict = lambda x: land(lt(lo, x), lt(x, hi))
    if not refined:
        c.ob('without refinement there are no interior values', Forall([l], land(le(0, l), lt(l, n)), lnot(strict(v(l)))), 'post', sel)
        c.ob('object left as the insertions made it', nrb._array is (o1.arr if log else o.arr0) and
             all(x is y for x, y in zip(nrb._knots, o1.kn if log else o.kn0)))
        return
    c.ob('one refinement', len(refined) == 1)
    X, r_ = refined[0][1].X, refined[0][1].r
    raw = refined[0][1]['_raw']['X']
    src = getattr(raw, 'masked_from', None)
    perm = getattr(src[0], 'perm', None) if src else None
    if perm is None:
        raise Unsupported('origin of the refinement values')
    # X and the interior values are in one-to-one correspondence
    (base, mask, pos, rank), (pi, qi) = src, perm
    k = fint('k')
    c.ob('every refinement value is an interior value', Forall([k], land(le(0, k), le(k, r_)),
         land(le(0, pi(pos(k))), lt(pi(pos(k)), n), eq(X(k), v(pi(pos(k)))), strict(v(pi(pos(k)))), eq(rank(qi(pi(pos(k)))), k))), 'post', sel)
    c.ob('every interior value is a refinement value', Forall([l], land(le(0, l), lt(l, n), strict(v(l))),
         land(le(0, rank(qi(l))), le(rank(qi(l)), r_), eq(X(rank(qi(l))), v(l)), eq(pi(pos(rank(qi(l)))), l))), 'post', sel)
    args = [sub(N1, 1), p, lam(1, U1)]
    XL = X.lam()
    rg2 = lambda q: {2: [add(add(q[0], q[1]), 2)], 3: [add(q[4], 1)]}
    rg = lambda q: {2: [add(add(q[0], q[1]), 2)], 3: [add(q[4], 1)], 5: [add(q[0], 1)]}
    V = lambda i: opaque('refineknots', REAL, *(args + [XL, r_, i]), ranges=rg2)
    N2 = add(add(N1, r_), 1)
    array_is(c, 'new knots', nrb._knots[a], [add(add(N2, p), 1)], V)
    kept_knots(c, o, nrb, a)
    ext = [N2 if d == a else o.N[d] for d in range(o.dim)] + [o.comps]

    def val(*ix):
        return opaque('refine', REAL, *(args + [XL, r_, fibre_at(o1, a, ix[-1], ix[:-1]), ix[a]]), ranges=rg)
    array_is(c, 'new control points', nrb._array, ext, val)
    fresh_store(c, o, nrb)
    V = symnp.line(nrb._knots[a])
    e = refined[0][1]
    named = {'using': c.facts[e['_mark']:e['_end']] + kept}
    valid_result(c, 'result', None, p, N2, V, named)
    c.ob('domain kept', land(eq(V(p), lo), eq(V(N2), hi)), 'post', named)


def refine_mult(L, c, o, a, n, v, arg):
    """every value of the domain gains as many copies as it occurs among the values"""
    p = o.p[a]
    x = z3.Real('x')
    c.assume(in_domain(o, a, x))
    c.track = [x]
    s0 = kern.span_of(c, o.U[a], sub(o.N[a], 1), p, x)[1]
    kind, r = call(o.nrb.refine, a, arg, files=L.files)
    if kind == 'exc':
        return
    c.obs[:] = []                    # the other configurations prove the rest
    o1 = View(o.nrb)
    s1 = kern.span_of(c, o1.U[a], sub(o1.N[a], 1), p, x)[1]
    refined = [y for y in getattr(c, 'calls', []) if y[0] == 'bsp.RefineKnotVector']
    masks = getattr(c, 'masks', [])
    sel = {'using': c.facts[:getattr(c, 'first', len(c.facts))] + c.facts[min(masks):] if masks else None}
    k = fint('k')
    t = cnt(v, 0, n, x)
    inside = land(lt(o.lo(a), x), lt(x, o.hi(a)))
    for y in refined:
        src = getattr(y[1]['_raw']['X'], 'masked_from', None)
        if src is None or getattr(src[0], 'sorted_from', None) is None:
            raise Unsupported('origin of the refinement values')
        f, g = symnp.line(src[0]), symnp.line(src[1])
        c.check('all copies of an interior value are passed on', Forall([k], land(le(0, k), lt(k, n), eq(f(k), x), inside), g(k)), 'post', sel)
        c.assume(imp(inside, eq(symnp.occurrences(y[1]['_raw']['X'], x), symnp.occurrences(src[0], x))))
        e = y[1]
        c.check('domain kept by the insertions', land(eq(e.U(p), o.lo(a)), eq(e.U(add(e.n, 1)), o.hi(a))), 'post')
    ground = [f for f in c.facts if not isinstance(f, Forall)]
    c.ob('multiplicity of every value of the domain', eq(s1, add(s0, t)), 'post',
         {'using': ground + ([f for f in sel['using'] or [] if isinstance(f, Forall)] if not refined else [])})


def symmin(a, b):
    return ite(le(a, b), a, b)


def symmax(a, b):
    return ite(le(a, b), b, a)


def runs_of(a):
    """values of an array made of constant runs, None otherwise"""
    if a.buf.written:
        return None
    if getattr(a, 'const_of', None) is not None:
        return [toreal(a.const_of)]
    parts = getattr(a, 'concat_of', None)
    if parts is None:
        return None
    out = []
    for b in parts:
        r = runs_of(b)
        if r is None:
            return None
        out += r
    return out


def use_refine(c, m):
    """calls of NURBS.refine are checked against its contract"""
    def refine(self, axis, values):
        o = View(self)
        a = concrete_axis(axis, o.dim)
        if values is None:
            return self
        X = symnp.asarray(values, 'd').ravel()
        n, v = X.dext(0), symnp.line(X)
        if c.decide(eq(n, 0)):
            return self
        p, lo, hi = o.p[a], o.lo(a), o.hi(a)
        pre_object(c, o, a, 'refine')
        l = fint('l')
        c.check('refine: values in the domain', Forall([l], land(le(0, l), lt(l, n)), land(le(lo, v(l)), le(v(l), hi))))
        vals = runs_of(X)
        if vals is None:
            raise Unsupported('values of refine by contract')
        mult = [(x, symnp.occurrences(X, x)) for x in vals]
        for x, t in mult:
            # the contract bounds the number of knots x between the first and the last one; at most s of those equal x
            s = kern.span_of(c, o.U[a], sub(o.N[a], 1), p, x)[1]
            c.check('refine: multiplicity up to the degree', imp(lt(0, t), le(add(s, t), p)))
        N2 = fint('N')
        Wf, Af = ffun('knots', INT, REAL), ffun('control', *([INT] * (o.dim + 1) + [REAL]))
        W = lambda i: Wf(tz(i))
        install(o, a, N2, p, W, lambda *ix: Af(*[tz(i) for i in ix]))
        c.refined_mark = len(c.facts)
        c.assume(le(o.N[a], N2), le(N2, add(o.N[a], n)))
        c.assume(kern.sorted_fact(W, add(add(N2, p), 1)), lt(W(p), W(add(p, 1))), lt(W(sub(N2, 1)), W(N2)),
                 eq(W(p), lo), eq(W(N2), hi))
        for x in getattr(c, 'track', []) or vals:
            t = symnp.occurrences(X, x)
            s0 = kern.span_of(c, o.U[a], sub(o.N[a], 1), p, x)[1]
            s1 = kern.span_of(c, W, sub(N2, 1), p, x)[1]
            c.assume(imp(in_domain(o, a, x), eq(s1, add(s0, t))))
        c.refined = getattr(c, 'refined', []) + [(o, View(self), a)]
        return self
    m.NURBS.refine = refine


@unit('nurbs.slice', dim_axis(neg=True, ends=['both']) + [dict(dim=1, axis=0, ends=e) for e in ('start', 'end', 'none')])
def _(L, c, cfg):
    m = L.load('nurbs')
    o = Obj(c, m, cfg['dim'])
    a = cfg['axis'] % o.dim
    N, p, U = o.N[a], o.p[a], o.U[a]
    x, y = z3.Real('start'), z3.Real('end')
    use_refine(c, m)
    e = cfg['ends']
    c.track = [x if e in ('both', 'start') else o.lo(a), y if e in ('both', 'end') else o.hi(a)]
    kind, r = call(o.nrb.slice, cfg['axis'], num(x) if e in ('both', 'start') else None,
                   num(y) if e in ('both', 'end') else None, files=L.files)
    if e in ('end', 'none'):
        x = o.lo(a)
    if e in ('start', 'none'):
        y = o.hi(a)
    frame(c)
    unchanged(c, o)
    adm = land(le(o.lo(a), x), lt(x, y), le(y, o.hi(a)))
    if kind == 'exc':
        c.ob('rejects only inadmissible intervals', lnot(adm), 'error')
        return
    c.ob('accepts only intervals of the domain', adm, 'error')
    c.ob('a new object', isinstance(r, m.NURBS) and r is not o.nrb)
    log = getattr(c, 'refined', [])
    if any(b != a for _, _, b in log):
        raise Unsupported('refinement of another axis')
    f = log[-1][1] if log else View(o.nrb)
    N1, V = f.N[a], f.U[a]
    # the rows and knots of the refined object which belong to the interval
    k0 = kern.span_of(c, V, sub(N1, 1), p, x)[0]
    k1, s1 = kern.span_of(c, V, sub(N1, 1), p, y)
    e1 = add(sub(k1, s1), 1)                   # first knot equal to the end
    N2 = add(sub(e1, k0), p)
    mark = getattr(c, 'refined_mark', 0)
    h = {'using': [q for k, q in enumerate(c.facts) if k >= mark or not isinstance(q, Forall)]}
    c.ob('full multiplicity of the start in the refined object', eq(V(add(sub(k0, p), 1)), x), 'post', h)
    c.ob('full multiplicity of the end in the refined object', land(eq(V(e1), y), eq(V(sub(add(e1, p), 1)), y)), 'post', h)
    W = lambda i: ite(le(i, p), x, ite(le(N2, i), y, V(add(sub(i, p), k0))))
    array_is(c, 'new knots', r._knots[a], [add(add(N2, p), 1)], W, h)
    kn = r._knots
    c.ob('knots is a tuple', isinstance(kn, tuple) and len(kn) == o.dim, 'invariant')
    for k in range(o.dim):
        if k != a:
            array_is(c, 'knots of direction %d' % k, kn[k], [add(add(o.N[k], o.p[k]), 1)], o.U[k])
    off = sub(k0, p)
    ext = [N2 if d == a else o.N[d] for d in range(o.dim)] + [o.comps]
    array_is(c, 'control points: the rows of the refined object', r._array, ext,
             lambda *ix: f.A(*with_axis(o, a, add(ix[a], off), ix)), h)
    c.ob('array is C-contiguous', r._array.contiguous(), 'invariant')
    c.ob('shares no control points', r._array.buf is not o.arr.buf and not r._array.maybe_copy, 'frame')
    valid_result(c, 'result', None, p, N2, W, h)
    i = fint('i')
    c.ob('clamped at the start', Forall([i], land(le(0, i), le(i, p)), eq(W(i), x)), 'post', h)
    c.ob('clamped at the end', Forall([i], land(le(N2, i), le(i, add(N2, p))), eq(W(i), y)), 'post', h)
