"""Inductive lemmas used by the kernel contracts: each is a set of obligations (base cases, induction steps)
over the defining equations of the specification functions in fspec.py, discharged like any other.

The lemmas are instantiated in fspec.py under the hypotheses stated here.
"""
from fractions import Fraction
import z3
from terms import *
from fexec import Obligation
from fspec import *
import fspec

L = {}


def lemma(name, note=''):
    def d(f):
        L['lemma.' + name] = (f, note or (f.__doc__ or '').strip())
        return f
    return d


class A:
    """an array symbol"""
    def __init__(self, name, rank=1):
        self.sym = z3.Function(name, *([INT] * rank + [REAL]))

    def __call__(self, *i):
        return self.sym(*[tz(x) for x in i])


A_ = A


class Named:
    """an array given by a formula, with a name for the specification functions"""
    def __init__(self, name, f):
        self.sym, self.f = z3.Function(name, INT, REAL), f

    def __call__(self, i):
        return self.f(i)


class V:
    def __init__(self, **k):
        self.__dict__.update(k)


V_ = V


def ints(s):
    return [z3.Int(x) for x in s.split()]


def reals(s):
    return [z3.Real(x) for x in s.split()]


class Case:
    """collects obligations under common hypotheses"""
    def __init__(self, *hyps):
        self.hyps, self.obs = [h for h in hyps if h is not True], []

    def ob(self, name, goal, *more, **hints):
        self.obs.append(Obligation(name, 'lemma', self.hyps + [m for m in more if m is not True], goal, hints))

    def use(self, name, goal, *more, **hints):
        """an obligation, assumed from here on"""
        self.ob(name, goal, *more, **hints)
        self.hyps.append(goal)


# ------------------------------------------------------------------ counting
@lemma('count_run')
def _():
    """matching knots in (y, x]: all of them / none of them"""
    U, (uu,), (x, y) = A('u'), reals('uu'), ints('x y')
    c = Case(le(y, x))
    c.ob('all: base', eq(cnt(U, uu, x), add(cnt(U, uu, y), sub(x, y))), eq(x, y))
    c.ob('none: base', eq(cnt(U, uu, x), cnt(U, uu, y)), eq(x, y))
    x1 = add(x, 1)
    c.ob('all: step', eq(cnt(U, uu, x1), add(cnt(U, uu, y), sub(x1, y))), cnt_def(U, uu, x1),
         forall(lambda q: (land(lt(y, q), le(q, x1)), match(U, uu, q))), eq(cnt(U, uu, x), add(cnt(U, uu, y), sub(x, y))))
    c.ob('none: step', eq(cnt(U, uu, x1), cnt(U, uu, y)), cnt_def(U, uu, x1),
         forall(lambda q: (land(lt(y, q), le(q, x1)), lnot(match(U, uu, q)))), eq(cnt(U, uu, x), cnt(U, uu, y)))
    return c.obs


@lemma('first_not_below')
def _():
    """a sorted list has a first entry >= uu: the entries below it are < uu, the others >= uu"""
    U, (uu,), (m, l) = A('u'), reals('uu'), ints('m l')
    c = Case(le(-1, m), mono(U, 0, add(m, 1)))
    is_ = lambda l, m: [land(le(0, l), le(l, add(m, 1))), forall(lambda i: (land(le(0, i), lt(i, l)), lt(U(i), uu))),
                        forall(lambda i: (land(le(l, i), le(i, m)), le(uu, U(i))))]
    for k, g in enumerate(is_(0, -1)):
        c.ob('base %d' % k, g)
    for k, g in enumerate(is_(l, add(m, 1))):
        c.ob('step, entry not below %d' % k, g, *(is_(l, m) + [le(uu, U(add(m, 1)))]))
    for k, g in enumerate(is_(add(m, 2), add(m, 1))):
        c.ob('step, entry below %d' % k, g, *(is_(l, m) + [lt(U(add(m, 1)), uu)]))
    return c.obs


# ------------------------------------------------------------------ knot insertion: coefficients
@lemma('boehm_stable')
def _():
    """bo_stable: coefficients left of the affected window stay, those right of it are shifted (r + s <= p)"""
    U, P = A('u'), A('pw', 2)
    (uu,), (p, k, s, r, j) = reals('uu'), ints('p k s r j')
    v = V(U=U, Pw=P, p=p, k=k, s=s, uu=uu)
    b = lambda a, r, q: bo(U, P, a, p, uu, k, s, r, q)
    lo = lambda r: forall(lambda a, q: (le(q, add(sub(k, p), j)), eq(b(a, r, q), b(a, j, q))))
    hi = lambda r: forall(lambda a, q: (le(sub(k, s), q), eq(b(a, r, add(q, sub(r, j))), b(a, j, q))))
    c = Case(le(0, j), le(j, r), le(0, s))
    c.ob('left: base', lo(r), eq(r, j))
    c.ob('right: base', hi(r), eq(r, j))
    a, q = ints('a q')
    r1 = add(r, 1)
    fits = le(add(r1, s), p)
    c.ob('left: step', imp(le(q, add(sub(k, p), j)), eq(b(a, r1, q), b(a, j, q))), lo(r), bo_def(v, r1, q))
    q1 = add(q, sub(r1, j))
    c.ob('right: step', imp(le(sub(k, s), q), eq(b(a, r1, q1), b(a, j, q))), hi(r), fits, bo_def(v, r1, q1))
    return c.obs


# ------------------------------------------------------------------ knot insertion: the curve
def ins_setup():
    """one insertion of u into U after knot k: V; d: degree; x: any parameter; kx, kv: corresponding non-empty spans"""
    U = A('u')
    (u, x), (k, d, i, kx, kv, top) = reals('u x'), ints('k d i kx kv top')
    W = Named('v', lambda j: inserted(U, k, 1, u, j))
    hyps = [mono(U, 0, top), le(0, k), lt(k, top), le(U(k), u), lt(u, U(add(k, 1))), le(1, d),
            # kx is a span of U, kv a span of V inside it
            le(0, kx), lt(kx, top), lt(U(kx), U(add(kx, 1))), lt(W(kv), W(add(kv, 1))),
            z3.Or(tz(land(eq(kv, kx), le(kx, k))), tz(land(eq(kv, add(kx, 1)), le(k, kx))))]
    return U, W, u, x, k, d, i, kx, kv, top, hyps


def ins_co(U, k, u, d, i):
    """weight c_d(i) of Boehm's rule: Q_i = c P_i + (1-c) P_{i-1};  the same weight relates the basis functions"""
    return ite(le(i, sub(k, d)), F(1), ite(lt(k, i), F(0), rdiv(sub(u, U(i)), sub(U(add(i, d)), U(i)))))


@lemma('boehm_basis')
def _():
    """N_U(d,i) = c_d(i) N_V(d,i) + (1 - c_d(i+1)) N_V(d,i+1), by induction on the degree d; window kx-d .. kx"""
    U, W, u, x, k, d, i, kx, kv, top, hyps = ins_setup()
    nu = lambda d, i: nb(U, kx, x, d, i)
    nv = lambda d, i: nb(W, kv, x, d, i)
    rel = lambda d, i: eq(nu(d, i), add(mul(ins_co(U, k, u, d, i), nv(d, i)), mul(sub(F(1), ins_co(U, k, u, d, add(i, 1))), nv(d, add(i, 1)))))
    c = Case(*hyps)
    c.ob('degree 0', rel(0, i), nb0(U, kx, x, i), nb0(W, kv, x, i), nb0(W, kv, x, add(i, 1)))
    d1 = sub(d, 1)
    # all indices the window and its neighbours touch exist
    room = [le(0, sub(kx, d)), le(add(kx, d), sub(top, 1)), le(sub(kx, d), add(i, 1)), le(i, add(kx, 1))]
    c.hyps += room
    cu, cd = (lambda j: ins_co(U, k, u, d, j)), (lambda j: ins_co(U, k, u, d1, j))
    gu = lambda j: ite(inspan(kx, d1, j), wgt(U, x, d, j), F(0))
    hu = lambda j: ite(inspan(kx, d1, j), sub(F(1), wgt(U, x, d, j)), F(0))
    gv = lambda j: ite(inspan(kv, d1, j), wgt(W, x, d, j), F(0))
    hv = lambda j: ite(inspan(kv, d1, j), sub(F(1), wgt(W, x, d, j)), F(0))
    i1, i2 = add(i, 1), add(i, 2)
    one = F(1)
    # coefficients of the three basis functions of degree d-1 on the new knots
    e0 = imp(inspan(kv, d1, i), eq(mul(gu(i), cd(i)), mul(cu(i), gv(i))))
    e1 = imp(inspan(kv, d1, i1), eq(add(mul(gu(i), sub(one, cd(i1))), mul(hu(i1), cd(i1))),
                                    add(mul(cu(i), hv(i1)), mul(sub(one, cu(i1)), gv(i1)))))
    e2 = imp(inspan(kv, d1, i2), eq(mul(hu(i1), sub(one, cd(i2))), mul(sub(one, cu(i1)), hv(i2))))
    vac(c)
    split(c, 'coefficient 0', inspan(kv, d1, i), e0)
    split(c, 'coefficient 1', inspan(kv, d1, i1), e1)
    split(c, 'coefficient 2', inspan(kv, d1, i2), e2)
    # the recursion step over the abstract coefficients
    st = Case()
    n0, n1, n2, m0, m1 = reals('n0 n1 n2 m0 m1')
    a = reals('a_i a_i1 b_i1 b_i2 g_i h_i1 c_i c_i1 ci ci1 gv_i hv_i1 gv_i1 hv_i2 q0 q1 q2')
    gi, hi1, c_i, c_i1, c_i2, C_i, C_i1, gvi, hvi1, gvi1, hvi2 = reals('gi hi1 c0 c1 c2 C0 C1 gvi hvi1 gvi1 hvi2')
    st.ob('step', eq(add(mul(gi, add(mul(c_i, n0), mul(sub(one, c_i1), n1))), mul(hi1, add(mul(c_i1, n1), mul(sub(one, c_i2), n2)))),
                     add(mul(C_i, add(mul(gvi, n0), mul(hvi1, n1))), mul(sub(one, C_i1), add(mul(gvi1, n1), mul(hvi2, n2))))),
          eq(mul(mul(gi, c_i), n0), mul(mul(C_i, gvi), n0)),
          eq(mul(add(mul(gi, sub(one, c_i1)), mul(hi1, c_i1)), n1), mul(add(mul(C_i, hvi1), mul(sub(one, C_i1), gvi1)), n1)),
          eq(mul(mul(hi1, sub(one, c_i2)), n2), mul(mul(sub(one, C_i1), hvi2), n2)))
    g, e, n0 = z3.Bool('g'), z3.Bool('e'), z3.Real('n0')
    l, r = reals('l r')
    st.ob('guarded coefficient', eq(mul(l, n0), mul(r, n0)), imp(g, eq(l, r)), imp(z3.Not(g), eq(n0, F(0))))
    # outside the window and its neighbours everything vanishes
    oc = Case(*hyps)
    far = z3.Or(tz(lt(i, sub(sub(kx, d), 1))), tz(lt(add(kx, 1), i)))
    zero = lambda N, k: [forall(lambda j: (lor(lt(j, sub(k, d)), lt(k, j)), eq(N(d, j), F(0))))]
    oc.ob('far outside', rel(d, i), far, *(zero(nu, kx) + zero(nv, kv)))
    st.obs += oc.obs
    # basis functions of degree d-1 vanish outside their window, and the recursion in the form the step uses
    c.ob('recursion form', eq(nu(d, i), add(mul(gu(i), nu(d1, i)), mul(hu(i1), nu(d1, i1)))), nb_def(U, kx, x, d, i))
    c.ob('vanishes outside', imp(z3.Or(tz(lt(i, sub(kx, d))), tz(lt(kx, i))), eq(nu(d, i), F(0))), nb_def(U, kx, x, d, i))
    return c.obs + st.obs


def split(c, name, guard, e):
    """case distinction over the position of i relative to the inserted knot"""
    k, d, i = ints('k d i')
    pos = sub(i, k)
    cases = [('left', le(i, sub(sub(k, d), 2))), ('k-d-1', eq(i, sub(sub(k, d), 1))), ('k-d', eq(i, sub(k, d))),
             ('k-d+1', eq(i, add(sub(k, d), 1))), ('inside', land(le(add(sub(k, d), 2), i), le(i, sub(k, 2)))),
             ('k-1', land(eq(i, sub(k, 1)), le(add(sub(k, d), 2), i))), ('k', land(eq(i, k), le(add(sub(k, d), 2), i))),
             ('right', land(lt(k, i), le(add(sub(k, d), 2), i)))]
    g = e.arg(1) if z3.is_implies(e) else e
    c.ob(name + ': positions', z3.Or(*[tz(x) for _, x in cases]))
    for nm, x in cases:
        c.ob('%s: %s' % (name, nm), g, guard, x)



@lemma('boehm_curve')
def _():
    """the polynomial pieces of the two curves agree: sum N_U P = sum N_V Q on corresponding spans"""
    U, W, u, x, k, p, i, kx, kv, top, hyps = ins_setup()
    p = z3.Int('d')
    P, NU, NV, SL, SR = (z3.Function(n, INT, REAL) for n in ('P', 'NU', 'NV', 'SL', 'SR'))
    co = lambda i: ins_co(U, k, u, p, i)
    (m,), lo, one = ints('m'), sub(kx, p), F(1)
    rel = lambda i: eq(NU(i), add(mul(co(i), NV(i)), mul(sub(one, co(add(i, 1))), NV(add(i, 1)))))
    Q = lambda i: add(mul(co(i), P(i)), mul(sub(one, co(i)), P(sub(i, 1))))
    T = lambda m: eq(SL(m), add(SR(m), mul(mul(sub(one, co(add(m, 1))), NV(add(m, 1))), P(m))))
    out = [forall(lambda i: (lor(lt(i, sub(kv, p)), lt(kv, i)), eq(NV(i), F(0))))]
    sums = lambda m: [eq(SL(m), add(SL(sub(m, 1)), mul(NU(m), P(m)))), eq(SR(m), add(SR(sub(m, 1)), mul(NV(m), Q(m))))]
    c = Case(*(hyps + out))
    vac(c)
    # the weights take part as abstract numbers: products only
    a, b = reals('a b')
    st = Case(le(lo, m))
    A_, B_, n0, n1, p0, p1 = reals('A B n0 n1 p0 p1')
    st.ob('step', eq(add(A_, mul(add(mul(a, n0), mul(sub(one, b), n1)), p1)),
                     add(add(B_, mul(n0, add(mul(a, p1), mul(sub(one, a), p0)))), mul(mul(sub(one, b), n1), p1))),
          eq(A_, add(B_, mul(mul(sub(one, a), n0), p0))))
    # start: nothing to the left of the window
    base = mul(sub(one, co(lo)), NV(lo))
    c.ob('base: weight one', imp(le(lo, sub(k, p)), eq(co(lo), one)))
    c.ob('base: shifted span', imp(lt(sub(k, p), lo), lt(lo, sub(kv, p))))
    # end of the window
    c.ob('end: same span', imp(eq(kv, kx), eq(NV(add(kx, 1)), F(0))))
    c.ob('end: shifted span', imp(eq(kv, add(kx, 1)), land(eq(co(add(kx, 1)), F(0)), eq(NV(lo), F(0)))))
    c.ob('conclusion, same span', imp(eq(kv, kx), eq(SL(kx), SR(kx))), T(kx))
    c.ob('conclusion, shifted span', imp(eq(kv, add(kx, 1)), eq(SL(kx), SR(add(kx, 1)))), T(kx), sums(add(kx, 1))[1],
         eq(co(add(kx, 1)), F(0)))
    return c.obs + st.obs


@lemma('boehm_repeat')
def _():
    """r insertions are one insertion after r-1: knots, weights, spans and multiplicities"""
    U = A('u')
    (u,), (n, p, k, s, r, q, kv) = reals('uu'), ints('n p k s r q kv')
    v = V(U=U, n=n, p=p, k=k, s=s, r=r, uu=u)
    c = Case(*([g for _, g in insert_pre(v)] + [le(1, r)]))
    vac(c)
    r1, m = sub(r, 1), add(add(n, p), 1)
    W = lambda j: inserted(U, k, r1, u, j)
    W2 = lambda j: inserted(U, k, r, u, j)
    k1 = add(k, r1)
    inside = land(le(0, q), le(q, add(m, r)))
    c.ob('knots', imp(inside, eq(inserted(W, k1, 1, u, q), W2(q))))
    c.ob('weights', imp(land(le(0, q), le(q, add(n, r))), eq(ins_co(W, k1, u, p, q), bo_co(U, p, u, k, s, r, q))))
    c.ob('span of the value', land(le(W(k1), u), imp(lt(k1, add(m, r1)), lt(u, W(add(k1, 1))))))
    i, j = ints('i j')
    c.ob('sorted', imp(land(le(0, i), le(i, j), le(j, add(m, r))), le(W2(i), W2(j))))
    c.ob('copies', imp(land(lt(sub(k, s), q), le(q, add(k, r))), eq(W2(q), u)))
    kx = ite(le(kv, k), kv, sub(kv, 1))
    span = [le(0, kv), lt(kv, add(m, r)), lt(W2(kv), W2(add(kv, 1)))]
    c.ob('spans', land(le(0, kx), lt(kx, add(m, r1)), lt(W(kx), W(add(kx, 1))),
                       lor(land(eq(kv, kx), le(kx, k1)), land(eq(kv, add(kx, 1)), le(k1, kx)))), *span)
    c.ob('domain', land(imp(le(p, kv), le(p, kx)), imp(le(kv, add(n, r)), le(kx, add(n, r1)))), *(span + [le(p, kv), le(kv, add(n, r))]))
    return c.obs


# ------------------------------------------------------------------ the basis
@lemma('basis_window')
def _():
    """basis functions of degree d vanish outside kx-d .. kx"""
    U, (x,), (kx, d, i) = A('u'), reals('x'), ints('kx d i')
    c = Case()
    out = lambda d, i: lor(lt(i, sub(kx, d)), lt(kx, i))
    c.ob('degree 0', imp(out(0, i), eq(nb(U, kx, x, 0, i), F(0))), nb0(U, kx, x, i))
    c.ob('degree d', imp(land(le(1, d), out(d, i)), eq(nb(U, kx, x, d, i), F(0))), nb_def(U, kx, x, d, i))
    return c.obs


@lemma('basis_positive')
def _():
    """basis functions are not negative on the closed span"""
    U, (x,), (kx, d, i, top) = A('u'), reals('x'), ints('kx d i top')
    c = Case(mono(U, 0, top), le(U(kx), x), le(x, U(add(kx, 1))), lt(U(kx), U(add(kx, 1))), le(0, sub(kx, d)), le(add(kx, d), top), le(0, d))
    vac(c)
    c.ob('degree 0', le(F(0), nb(U, kx, x, 0, i)), nb0(U, kx, x, i))
    c.hyps.append(le(1, d))
    d1, i1 = sub(d, 1), add(i, 1)
    a, b = wgt(U, x, d, i), wgt(U, x, d, i1)
    c.ob('first weight', imp(inspan(kx, d1, i), land(le(F(0), a), le(a, F(1)))))
    c.ob('second weight', imp(inspan(kx, d1, i1), land(le(F(0), b), le(b, F(1)))))
    st = Case()
    n0, n1, w0, w1, n = reals('n0 n1 w0 w1 n')
    g0, g1 = z3.Bools('g0 g1')
    st.ob('step', le(F(0), n), imp(g0, land(le(F(0), w0), le(w0, F(1)))), imp(g1, land(le(F(0), w1), le(w1, F(1)))), le(F(0), n0), le(F(0), n1),
          eq(n, add(ite(g0, mul(w0, n0), F(0)), ite(g1, mul(sub(F(1), w1), n1), F(0)))))
    return c.obs + st.obs


@lemma('basis_unity')
def _():
    """the p+1 basis functions of a span sum to one: S_d(m) = S_{d-1}(m) + (1 - g_{m+1}) N_{d-1}(m+1), both summed from kx-d"""
    (g1, g2, n1, n2, S, S1) = reals('g1 g2 n1 n2 S S1')
    one = F(1)
    st = Case()
    st.ob('step', eq(add(S, add(mul(g1, n1), mul(sub(one, g2), n2))), add(add(S1, n1), mul(sub(one, g2), n2))),
          eq(S, add(S1, mul(sub(one, g1), n1))))
    # start: the sum of degree d-1 has no term at kx-d, its term at kx-d does not contribute to degree d
    U, (x,), (kx, d) = A('u'), reals('x'), ints('kx d')
    c = Case(le(1, d))
    d1, lo = sub(d, 1), sub(kx, d)
    zero = forall(lambda i: (lor(lt(i, sub(kx, d1)), lt(kx, i)), eq(nb(U, kx, x, d1, i), F(0))))
    c.ob('recursion', eq(nb(U, kx, x, d, z3.Int('i')), add(mul(wgt0(U, x, kx, d, z3.Int('i')), nb(U, kx, x, d1, z3.Int('i'))),
         mul(sub(F(1), wgt1(U, x, kx, d, add(z3.Int('i'), 1))), nb(U, kx, x, d1, add(z3.Int('i'), 1))))), nb_def(U, kx, x, d, z3.Int('i')), zero)
    c.ob('start', land(eq(nb(U, kx, x, d1, lo), F(0))), zero)
    c.ob('end', eq(nb(U, kx, x, d1, add(kx, 1)), F(0)), zero)
    c.ob('degree 0', eq(nb(U, kx, x, 0, kx), F(1)), nb0(U, kx, x, kx))
    # both weights of one basis function of degree d-1 are complementary
    i = z3.Int('i')
    c.ob('complementary', imp(inspan(kx, d1, i), eq(wgt0(U, x, kx, d, i), wgt1(U, x, kx, d, i))))
    return st.obs + c.obs


def wgt0(U, x, kx, d, i):
    return ite(inspan(kx, sub(d, 1), i), wgt(U, x, d, i), F(0))


def wgt1(U, x, kx, d, i):
    return ite(inspan(kx, sub(d, 1), i), wgt(U, x, d, i), F(1))


@lemma('basis_derivative')
def _():
    """derivative of the Cox-de Boor recursion (product rule) = d (N_{i,d-1}/(U_{i+d}-U_i) - N_{i+1,d-1}/(U_{i+d+1}-U_{i+1}))"""
    U, (x,), (kx, d, i, top) = A('u'), reals('x'), ints('kx d i top')
    D = z3.Function('dN', INT, INT, REAL)            # D(d, i): derivative of basis function i of degree d, by the product rule
    N = lambda d, i: nb(U, kx, x, d, i)
    one = F(1)

    def inv(d, i):
        """1 / (U_{i+d} - U_i), where basis function i of degree d-1 does not vanish"""
        return ite(inspan(kx, sub(d, 1), i), rdiv(one, sub(U(add(i, d)), U(i))), F(0))

    def product_rule(d, i):
        a, b = inv(d, i), inv(d, add(i, 1))
        d1, i1 = sub(d, 1), add(i, 1)
        return eq(D(d, i), sub(add(add(mul(a, N(d1, i)), mul(wgt0(U, x, kx, d, i), D(d1, i))), mul(sub(one, wgt1(U, x, kx, d, i1)), D(d1, i1))),
                               mul(b, N(d1, i1))))

    def claim(d, i):
        return eq(D(d, i), mul(toreal(d), sub(mul(inv(d, i), N(sub(d, 1), i)), mul(inv(d, add(i, 1)), N(sub(d, 1), add(i, 1))))))
    c = Case(mono(U, 0, top), lt(U(kx), U(add(kx, 1))), le(0, sub(kx, d)), le(add(kx, d), top), le(1, d))
    vac(c)
    c.ob('degree 0', eq(D(0, i), F(0)), eq(D(0, i), F(0)))
    c.ob('degree 1', claim(1, i), product_rule(1, i), eq(D(0, i), F(0)), eq(D(0, add(i, 1)), F(0)))
    # step: every derivative and basis function over the basis of degree d-2, then coefficient by coefficient
    c.hyps += [le(2, d), le(sub(kx, d), add(i, 1)), le(i, add(kx, 1))]
    d1, d2, i1, i2 = sub(d, 1), sub(d, 2), add(i, 1), add(i, 2)
    R = lambda t: toreal(t)
    G = lambda dd, j: wgt0(U, x, kx, dd, j)
    H = lambda dd, j: sub(one, wgt1(U, x, kx, dd, j))
    I = inv
    # D(d,i) = I_d(i) N(d1,i) + G_d(i) D(d1,i) + H_d(i1) D(d1,i1) - I_d(i1) N(d1,i1),  N(d1,j) = G_{d1}(j) N(d2,j) + H_{d1}(j+1) N(d2,j+1)
    # D(d1,j) = (d-1) (I_{d1}(j) N(d2,j) - I_{d1}(j+1) N(d2,j+1));   claim: d (I_d(i) N(d1,i) - I_d(i1) N(d1,i1))
    co = {0: (mul(I(d, i), G(d1, i)), mul(G(d, i), I(d1, i))),
          1: (sub(mul(I(d, i), H(d1, i1)), mul(I(d, i1), G(d1, i1))), mul(I(d1, i1), sub(H(d, i1), G(d, i)))),
          2: (neg(mul(I(d, i1), H(d1, i2))), neg(mul(H(d, i1), I(d1, i2))))}
    for q, (n, dd) in co.items():
        # n + (d-1) dd == d n
        c.ob('coefficient %d' % q, imp(inspan(kx, d2, add(i, q)), eq(n, dd)))
    st = Case()
    Ii, Ii1, Gi, Hi1, g0, h1, g1, h2, j0, j1, j2, n0, n1, n2, dr = reals('Ii Ii1 Gi Hi1 g0 h1 g1 h2 j0 j1 j2 n0 n1 n2 d')
    N0, N1 = add(mul(g0, n0), mul(h1, n1)), add(mul(g1, n1), mul(h2, n2))
    D0, D1 = mul(sub(dr, one), sub(mul(j0, n0), mul(j1, n1))), mul(sub(dr, one), sub(mul(j1, n1), mul(j2, n2)))
    st.ob('step', eq(sub(add(add(mul(Ii, N0), mul(Gi, D0)), mul(Hi1, D1)), mul(Ii1, N1)), mul(dr, sub(mul(Ii, N0), mul(Ii1, N1)))),
          eq(mul(mul(Ii, g0), n0), mul(mul(Gi, j0), n0)),
          eq(mul(sub(mul(Ii, h1), mul(Ii1, g1)), n1), mul(mul(j1, sub(Hi1, Gi)), n1)),
          eq(mul(mul(Ii1, h2), n2), mul(mul(Hi1, j2), n2)))
    return c.obs + st.obs


@lemma('derivative_closed')
def _():
    """ders_closed: differentiating sum_j a_{k-1}(j) N_{I+j,q+1} term by term (q = p-k) gives (q+1) sum_j a_k(j) N_{I+j,q}"""
    U, (i, I, p, k, J) = A('u'), ints('i I p k J')
    N = z3.Function('N', INT, REAL)                       # degree q = p - k
    q = sub(p, k)
    one = F(1)
    inw = lambda j: inspan(i, q, add(I, j))               # where N does not vanish
    den = lambda j: sub(U(add(add(I, j), add(q, 1))), U(add(I, j)))
    inv = lambda j: ite(inw(j), rdiv(one, den(j)), F(0))
    ak = lambda k, j: ite(land(le(0, j), le(j, k)), acoef(U, I, p, k, j), F(0))
    k1 = sub(k, 1)
    c = Case(le(1, k), le(k, p), le(0, sub(i, p)), le(sub(i, p), I), le(I, i), mono(U, 0, add(i, p)), lt(U(i), U(add(i, 1))))
    vac(c)
    j = z3.Int('j')
    # coefficient of N_{I+j}: (a_{k-1}(j) - a_{k-1}(j-1)) / den(j) = a_k(j) where N does not vanish
    c.ob('coefficient', imp(land(le(0, j), le(j, k), inw(j)), eq(mul(sub(ak(k1, j), ak(k1, sub(j, 1))), inv(j)), ak(k, j))), acoef_def(U, I, p, k, j))
    # regrouping: sum_{j<=J} a(j) (t_j - t_{j+1}) = sum_{j<=J} (a(j) - a(j-1)) t_j - a(J) t_{J+1}
    A0, A1, a0, a1, t1, t2 = reals('A0 A1 a0 a1 t1 t2')
    st = Case()
    st.ob('regrouping: step', eq(add(A0, mul(a1, sub(t1, t2))), sub(add(A1, mul(sub(a1, a0), t1)), mul(a1, t2))), eq(A0, sub(A1, mul(a0, t1))))
    st.ob('regrouping: start', eq(mul(a1, sub(t1, t2)), sub(mul(sub(a1, F(0)), t1), mul(a1, t2))))
    st.ob('regrouping: end', eq(sub(A1, mul(a1, t2)), add(A1, mul(sub(F(0), a1), t2))))
    # the factors multiply to the falling factorial
    st.ob('factor', eq(mul(ffall(p, k1), add(sub(p, k), 1)), ffall(p, k)), *ffall_def(p, k))
    # the range of dsum is where N_{I+j} does not vanish
    r = add(sub(I, i), p)
    c.ob('range', imp(land(le(0, j), le(j, k)), z3.And(tz(inw(j))) == z3.And(tz(land(le(dlo(r, k), j), le(j, dhi(p, r, k)))))), le(0, sub(k, 0)))
    return c.obs + st.obs


@lemma('inverse')
def _():
    """the cofactor formula gives the inverse; the mapped gradient times the Jacobian is the parametric gradient"""
    obs = []
    for d in (1, 2, 3):
        A, G = A_('a', 2), A_('g', 1)
        E = inverse_of(A, d)
        c = Case(lnot(eq(det_of(A, d), F(0))))
        vac(c)
        for i in range(1, d + 1):
            for j in range(1, d + 1):
                t = F(0)
                for k in range(1, d + 1):
                    t = add(t, mul(E(i, k), A(k, j)))
                c.ob('dim %d: inverse times matrix (%d,%d)' % (d, i, j), eq(t, F(1 if i == j else 0)))
        for j in range(1, d + 1):
            t = F(0)
            for a in range(1, d + 1):
                m = F(0)
                for b in range(1, d + 1):
                    m = add(m, mul(E(b, a), G(b)))
                t = add(t, mul(m, A(a, j)))
            c.ob('dim %d: mapped gradient times Jacobian, component %d' % (d, j), eq(t, G(j)))
        obs += c.obs
    return obs


def vac(c):
    """the hypotheses must not be contradictory"""
    c.obs.append(Obligation('vacuity', 'vacuity', list(c.hyps), z3.BoolVal(False)))


# ------------------------------------------------------------------ counting nonempty spans
@lemma('span_count')
def _():
    """the number of nonempty spans up to an index does not decrease (induction on the upper index)"""
    U, (p, a, b) = A('u'), ints('p a b')
    c = Case(le(p, a), *ncnt_def(U, p, b))
    vac(c)
    c.ob('base', ncnt_mono(U, p, a, a))
    c.ob('step', imp(land(le(a, b), ncnt_mono(U, p, a, b)), ncnt_mono(U, p, a, add(b, 1))))
    return c.obs


@lemma('blocks')
def _():
    """floor division determines the element and the copy a knot belongs to"""
    s, i, j, i2, j2 = ints('s i j i2 j2')
    x = lambda i, j: add(mul(s, sub(i, 1)), sub(j, 1))
    c = Case(le(1, s), land(le(1, j), le(j, s)), land(le(1, j2), le(j2, s)), eq(x(i, j), x(i2, j2)))
    # products of the step and the difference of the elements
    d = sub(i, i2)
    c.ob('unique', eq(i, i2), imp(le(1, d), le(s, mul(s, d))), imp(le(d, -1), le(mul(s, d), neg(s))), eq(mul(s, d), sub(mul(s, i), mul(s, i2))))
    return c.obs


# ------------------------------------------------------------------ locality; values at knots of full multiplicity
@lemma('basis_local')
def _():
    """the basis functions of degree d on span k depend on the knots k-d+1 .. k+d only (W(j+o) = U(j) there)"""
    U, W, (x,), (k, d, i, o) = A('u'), A('w'), reals('x'), ints('k d i o')
    c = Case(forall(lambda j: (land(lt(sub(k, d), j), le(j, add(k, d))), eq(W(add(j, o)), U(j)))))
    same = lambda d, i: eq(nb(W, add(k, o), x, d, add(i, o)), nb(U, k, x, d, i))
    c.ob('degree 0', same(0, i), nb0(U, k, x, i), nb0(W, add(k, o), x, add(i, o)))
    c.hyps.append(le(1, d))
    d1 = sub(d, 1)
    w = lambda i: imp(inspan(k, d1, i), eq(wgt(W, x, d, add(i, o)), wgt(U, x, d, i)))
    c.ob('weight', w(i))
    st = Case(le(1, d), same(d1, i), same(d1, add(i, 1)), w(i), w(add(i, 1)))
    # the weights as numbers: the quotients themselves play no part in the step
    st.ob('degree d', same(d, i), nb_def(U, k, x, d, i), nb_def(W, add(k, o), x, d, add(i, o)))
    return c.obs + st.obs


@lemma('basis_at_knot')
def _():
    """at a knot of multiplicity >= d one basis function of degree d is one and the others vanish:
    the span to the right of the knot (knots k-d+1 .. k equal x), the span to the left of it (knots k+1 .. k+d equal x)"""
    U, (x,), (k, d, i) = A('u'), reals('x'), ints('k d i')
    d1 = sub(d, 1)
    for_right = forall(lambda j: (land(lt(sub(k, d), j), le(j, k)), eq(U(j), x)))
    for_left = forall(lambda j: (land(lt(k, j), le(j, add(k, d))), eq(U(j), x)))
    obs = []
    for side, h, one in (('right', for_right, lambda d: sub(k, d)), ('left', for_left, lambda d: k)):
        val = lambda d, i: eq(nb(U, k, x, d, i), ite(eq(i, one(d)), F(1), F(0)))
        c = Case(h, lt(U(k), U(add(k, 1))))
        vac(c)
        c.ob(side + ': degree 0', val(0, i), nb0(U, k, x, i))
        c.hyps.append(le(1, d))
        c.ob(side + ': degree d', val(d, i), val(d1, i), val(d1, add(i, 1)), nb_def(U, k, x, d, i),
             *([] if side == 'right' else [eq(U(add(k, d)), x)]))
        obs += c.obs
    return obs


@lemma('first_above')
def _():
    """a sorted list has a first entry > uu: the entries below it are <= uu, the others > uu"""
    U, (uu,), (m, l) = A('u'), reals('uu'), ints('m l')
    c = Case(le(-1, m), mono(U, 0, add(m, 1)))
    is_ = lambda l, m: [land(le(0, l), le(l, add(m, 1))), forall(lambda i: (land(le(0, i), lt(i, l)), le(U(i), uu))),
                        forall(lambda i: (land(le(l, i), le(i, m)), lt(uu, U(i))))]
    for k, g in enumerate(is_(0, -1)):
        c.ob('base %d' % k, g)
    for k, g in enumerate(is_(l, add(m, 1))):
        c.ob('step, entry above %d' % k, g, *(is_(l, m) + [lt(uu, U(add(m, 1)))]))
    for k, g in enumerate(is_(add(m, 2), add(m, 1))):
        c.ob('step, entry not above %d' % k, g, *(is_(l, m) + [le(U(add(m, 1)), uu)]))
    return c.obs


# ------------------------------------------------------------------ clamping undoes unclamping
@lemma('unclamp_inverse')
def _():
    """inserting the end of the domain r times into the unclamped curve gives the coefficients before the last r steps of unclamping;
    for r = C these are the ones unclamping started from (induction on r)"""
    U, P = A('u'), A('pw', 2)
    n, p, C, a, r, j = ints('n p c a r j')
    obs = []
    for side in 'lr':
        e = dict(u=U, pw=P, n=n, p=p, c=C, l=side == 'l', r=side == 'r')
        v = fspec.View(e)
        m = add(add(n, p), 1)
        V = fspec.unl_knots(v) if side == 'l' else fspec.unr_knots(v)
        Q = fspec.NamedArr('q', 2)
        c = Case(*([g for _, g in fspec.un_pre(v)] + fspec.un_knots_defs(v)))
        vac(c)
        uu, k, s = (U(p), p, sub(p, C)) if side == 'l' else (U(add(n, 1)), sub(add(n, p), C), sub(p, C))
        w = V_(U=V, Pw=Q, p=p, k=k, s=s, uu=uu)
        at = lambda r, j: add(j, r) if side == 'l' else sub(n, j)
        rel = lambda r, j: eq(bo(V, Q, a, p, uu, k, s, r, at(r, j)), fspec.un(v, side, a, sub(sub(p, 2), r), j))
        top = sub(sub(p, 1), r)           # the step which is undone
        c.hyps += [le(1, r), le(r, C), le(0, j), le(j, n)]
        r1 = sub(r, 1)
        ih = forall(lambda j: (land(le(0, j), le(j, n)), rel(r1, j)))
        al, i = fspec.un_alpha(v, side, top, j), top
        co = bo_co(V, p, uu, k, s, r, at(r, j))
        if side == 'l':
            c.ob('left: weight', imp(le(j, i), eq(co, al)), U(p) == V(p))
            c.ob('left: not one', imp(le(j, i), lnot(eq(al, F(1)))), forall(lambda x: (land(le(0, x), le(x, C)), lt(V(x), U(p)))))
            c.ob('left: beyond', imp(lt(i, j), eq(co, F(0))))
        else:
            c.ob('right: weight', imp(le(j, i), eq(co, al)), U(add(n, 1)) == V(add(n, 1)))
            c.ob('right: not zero', imp(le(j, i), lnot(eq(al, F(0)))), forall(lambda x: (land(le(sub(m, C), x), le(x, m)), lt(U(add(n, 1)), V(x)))))
            c.ob('right: beyond', imp(lt(i, j), eq(co, F(1))))
        # the recursion with the weights as numbers
        wt = z3.Real('w')
        x0, x1, y0, y1 = reals('x0 x1 y0 y1')
        st = Case(eq(x0, y0), eq(x1, y1))
        own = (wt, sub(F(1), wt)) if side == 'l' else (sub(F(1), wt), wt)
        prev, = reals('prev')
        st.ob('step' + side, imp(land(lnot(eq(own[1], F(0))), eq(y0, rdiv(sub(prev, mul(own[0], y1)), own[1]))),
                                 eq(add(mul(own[1], x0), mul(own[0], x1)), prev)))
        obs += c.obs + st.obs
    return obs


# ------------------------------------------------------------------ the pieces of multilinear objects and circles
@lemma('bezier_piece')
def _():
    """basis functions on a span [a, b]: degree 1, and degree 2 between double knots, are the Bernstein polynomials"""
    U, (x, a, b), (k,) = A('u'), reals('x a b'), ints('k')
    obs = []
    t = rdiv(sub(x, a), sub(b, a))
    s = rdiv(sub(b, x), sub(b, a))
    c = Case(eq(U(k), a), eq(U(add(k, 1)), b), lt(a, b))
    vac(c)
    k1, k2 = sub(k, 1), sub(k, 2)
    N = lambda d, i: nb(U, k, x, d, i)
    zero = [nb0(U, k, x, i) for i in (k2, k1, k, add(k, 1))]
    c.ob('degree 1, first', eq(N(1, k1), s), nb_def(U, k, x, 1, k1), *zero)
    c.ob('degree 1, second', eq(N(1, k), t), nb_def(U, k, x, 1, k), *zero)
    c.ob('degree 1, outside', eq(N(1, k2), F(0)), nb_def(U, k, x, 1, k2), *zero)
    c.ob('degree 1, outside right', eq(N(1, add(k, 1)), F(0)), nb_def(U, k, x, 1, add(k, 1)), nb0(U, k, x, add(k, 1)), nb0(U, k, x, add(k, 2)))
    c.ob('sum', eq(add(s, t), F(1)))
    one = [eq(N(1, k1), s), eq(N(1, k), t), eq(N(1, k2), F(0)), eq(N(1, add(k, 1)), F(0))]
    d = Case(eq(U(k1), a), eq(U(k), a), eq(U(add(k, 1)), b), eq(U(add(k, 2)), b), lt(a, b), *one)
    vac(d)
    d.ob('degree 2, first', eq(N(2, k2), mul(s, s)), nb_def(U, k, x, 2, k2))
    d.ob('degree 2, second', eq(N(2, k1), mul(F(2), mul(s, t))), nb_def(U, k, x, 2, k1))
    d.ob('degree 2, third', eq(N(2, k), mul(t, t)), nb_def(U, k, x, 2, k))
    return c.obs + d.obs


@lemma('arc')
def _():
    """rational quadratic with control points (r; -a), (r/cos a; 0), (r; a) (polar) and weights 1, cos a, 1:
    positive weight, distance r from the centre, polar angle increasing with a > 0; turned by any angle the same holds"""
    (r, C, S, t, t2, A_, B_) = reals('r cosa sina t t2 cosb sinb')
    b = lambda t: (mul(sub(F(1), t), sub(F(1), t)), mul(F(2), mul(t, sub(F(1), t))), mul(t, t))

    def pt(t):
        b0, b1, b2 = b(t)
        X = mul(r, add(mul(C, add(b0, b2)), b1))
        Y = mul(r, mul(S, sub(b2, b0)))
        return X, Y, add(add(b0, b2), mul(C, b1))
    X, Y, W = pt(t)
    c = Case(C * C + S * S == 1, C > 0)
    vac(c)
    # C^2 = 1 - S^2 as substitution: the identity is linear in C^2 + S^2
    b0, b1, b2 = b(t)
    one = C * C + S * S
    lhs = add(mul(X, X), mul(Y, Y))
    c2 = Case()
    q = mul(r, r)
    res = sub(lhs, mul(q, mul(W, W)))
    # X^2 + Y^2 - r^2 W^2 = r^2 (C^2 + S^2 - 1)(b0 - b2)^2 , using b1^2 = 4 b0 b2
    dif = mul(mul(q, sub(one, F(1))), mul(sub(b0, b2), sub(b0, b2)))
    c2.ob('distance', eq(res, dif))
    c.ob('distance is the radius', eq(mul(q, sub(one, F(1))), F(0)))
    inside = land(le(F(0), t), le(t, F(1)))
    c.ob('positive weight', imp(inside, lt(F(0), W)))
    # sense of rotation: the cross product of two points
    X2, Y2, _ = pt(t2)
    cross = sub(mul(Y2, X), mul(Y, X2))
    u, v = sub(mul(F(2), t), F(1)), sub(mul(F(2), t2), F(1))
    fac = mul(mul(q, S), mul(sub(t2, t), add(mul(F(2), C), mul(sub(F(1), C), add(F(1), mul(u, v))))))
    c2.ob('cross product', eq(cross, fac))
    c3 = Case(land(lt(F(0), C), le(C, F(1))), land(le(F(-1), u), le(u, F(1))), land(le(F(-1), v), le(v, F(1))))
    uv = z3.Real('uv')
    c4 = Case(land(lt(F(0), C), le(C, F(1))), le(F(-1), uv))
    c3.ob('product', le(F(-1), mul(u, v)), le(F(0), mul(add(F(1), u), add(F(1), v))), le(F(0), mul(sub(F(1), u), sub(F(1), v))))
    c4.ob('sense of rotation', lt(F(0), add(mul(F(2), C), mul(sub(F(1), C), add(F(1), uv)))))
    # ends
    for tt, sg in ((F(0), -1), (F(1), 1)):
        x, y, w = pt(tt)
        c.ob('end %s' % tt, land(eq(x, mul(r, C)), eq(y, mul(r, mul(F(sg), S))), eq(w, F(1))))
    # turning by b keeps distances and cross products
    x1, y1, x2, y2 = reals('x1 y1 x2 y2')
    rot = lambda x, y: (sub(mul(A_, x), mul(B_, y)), add(mul(B_, x), mul(A_, y)))
    n = A_ * A_ + B_ * B_
    (p1, q1), (p2, q2) = rot(x1, y1), rot(x2, y2)
    c2.ob('turned: distance', eq(add(mul(p1, p1), mul(q1, q1)), mul(n, add(mul(x1, x1), mul(y1, y1)))))
    c2.ob('turned: cross product', eq(sub(mul(q2, p1), mul(q1, p2)), mul(n, sub(mul(y2, x1), mul(y1, x2)))))
    return c.obs + c2.obs + c3.obs + c4.obs


@lemma('linear_precision')
def _():
    """d x = sum_i s(d, i) N_{i,d}(x), s(d, i) = U_{i+1} + ... + U_{i+d}: with the Greville abscissae s/d as coefficients the spline is the identity"""
    U, (x,), (kx, d, i) = A('u'), reals('x'), ints('kx d i')
    S = z3.Function('knotsum', INT, INT, REAL)
    s = lambda d, i: S(tz(d), tz(i))
    one = F(1)
    w = lambda i: wgt(U, x, d, i)
    c = Case(le(1, d), inspan(kx, sub(d, 1), i), mono(U, 0, add(kx, d)), le(0, sub(kx, d)), lt(U(kx), U(add(kx, 1))))
    vac(c)
    c.ob('coefficient', eq(add(mul(s(d, i), w(i)), mul(s(d, sub(i, 1)), sub(one, w(i)))), add(s(sub(d, 1), i), x)),
         eq(s(d, i), add(s(sub(d, 1), i), U(add(i, d)))), eq(s(d, sub(i, 1)), add(U(i), s(sub(d, 1), i))))
    # summation by parts, as for basis_unity: T = Q + s_m (1 - w_{m+1}) N_{m+1}
    T, Q, sm, s1, w1, w2, n1, n2 = reals('T Q sm s1 w1 w2 n1 n2')
    st = Case(eq(T, add(Q, mul(mul(sm, sub(one, w1)), n1))))
    Q1 = add(Q, mul(add(mul(s1, w1), mul(sm, sub(one, w1))), n1))
    st.ob('step', eq(add(T, mul(s1, add(mul(w1, n1), mul(sub(one, w2), n2)))), add(Q1, mul(mul(s1, sub(one, w2)), n2))))
    B, dr = reals('B d')
    en = Case(eq(T, mul(sub(dr, one), x)), eq(B, one))
    en.ob('sum', eq(add(T, mul(x, B)), mul(dr, x)))
    return c.obs + st.obs + en.obs


if __name__ == '__main__':
    import sys, time, prover
    for n in L:
        if len(sys.argv) > 1 and not any(a in n for a in sys.argv[1:]):
            continue
        t0 = time.time()
        for ob in L[n][0]():
            t = time.time()
            if ob.kind == 'vacuity':
                print(n, 'vacuous' if prover.vacuous(ob.hyps) else 'not vacuous')
                continue
            r = prover.prove(ob)
            print(n, ob.name, r[0], r[1], '%.2f' % (time.time() - t), '' if r[0] == 'proved' else str(r[2])[:400], flush=True)
