"""Contracts, loop invariants and lemmas of the kernels in igakit/igalib.f90 (engine A).

Everything is keyed by module.procedure; invariants by (procedure, loop ordinal in source order).
Specification functions are uninterpreted symbols with defining equations which are instantiated where
needed ("lemmas"); the facts about them that need induction are proved in flemmas.py.
"""
from fractions import Fraction
import z3
from terms import *
from fexec import Arr, EPSR, Unsupported, View

C = {}


def contract(key, **kw):
    C[key] = kw
    return kw


def F(v):
    return Fraction(v)


def symname(a):
    if a.sym is None:
        raise Unsupported('knot array is not a plain argument')
    return a.sym.name()


# ------------------------------------------------------------------ knot vectors
def mono(U, lo, hi):
    return forall(lambda i, j: (land(le(lo, i), le(i, j), le(j, hi)), le(U(i), U(j))))


def valid(U, n, p, ends=True):
    """non-decreasing knots, non-empty first and last span of the domain"""
    out = [('p>=1', le(1, p)), ('n>=p', le(p, n)), ('sorted', mono(U, 0, add(add(n, p), 1)))]
    if ends:
        out += [('first span', lt(U(p), U(add(p, 1)))), ('last span', lt(U(n), U(add(n, 1))))]
    return out


def sort_of(typ):
    return {'int': INT, 'real': REAL, 'log': BOOL}[typ]


# ------------------------------------------------------------------ FindSpan
def span_f(U, n, p, uu):
    f = z3.Function('span:' + symname(U), INT, INT, REAL, INT)
    return f(tz(n), tz(p), tz(toreal(uu)))


def span_facts(U, n, p, uu, k):
    return [le(p, k), le(k, n),
            imp(le(U(add(n, 1)), uu), eq(k, n)),
            imp(le(uu, U(p)), eq(k, p)),
            imp(land(lt(U(p), uu), lt(uu, U(add(n, 1)))), land(le(U(k), uu), lt(uu, U(add(k, 1))))),
            # consequences used by the callers
            lt(U(k), U(add(k, 1)))]


contract('bspline.findspan',
         pre=lambda v: valid(v.U, v.n, v.p),
         out=lambda v: {'result': span_f(v.U, v.n, v.p, v.uu)},
         relational=('result',),
         facts=lambda v, o: span_facts(v.U, v.n, v.p, v.uu, o.result),
         loops={1: dict(
             inv=lambda s: [('low', land(le(s.p, s.low), le(s.low, s.n))),
                            ('high', land(lt(s.low, s.high), le(s.high, add(s.n, 1)))),
                            ('mid', land(le(s.low, s.span), lt(s.span, s.high))),
                            ('left', le(s.U(s.low), s.uu)),
                            ('right', lt(s.uu, s.U(s.high))),
                            ('is mid', land(le(mul(2, s.span), add(s.low, s.high)),
                                            le(add(s.low, s.high), add(mul(2, s.span), 1))))],
             variant=lambda s: sub(s.high, s.low))})


# ------------------------------------------------------------------ FindMult, FindSpanMult
def match(U, uu, x):
    d = sub(uu, U(x))
    return lt(ite(le(0, d), d, neg(d)), EPSR)


def cnt(U, uu, x):
    """number of knots with index <= x (from an arbitrary origin) which match uu"""
    f = z3.Function('cnt:' + symname(U), REAL, INT, INT)
    return f(tz(toreal(uu)), tz(x))


def cnt_def(U, uu, x):
    """defining equation at x"""
    return eq(cnt(U, uu, x), add(cnt(U, uu, sub(x, 1)), ite(match(U, uu, x), 1, 0)))


contract('bspline.findmult',
         pre=lambda v: [('p>=0', le(0, v.p)), ('i>=p', le(v.p, v.i))],
         out=lambda v: {'result': sub(cnt(v.U, v.uu, add(add(v.i, v.p), 1)), cnt(v.U, v.uu, sub(sub(v.i, v.p), 1)))},
         loops={1: dict(
             inv=lambda s: [('count', eq(s.mult, sub(cnt(s.U, s.uu, sub(add(s.i, s.j), 1)),
                                                     cnt(s.U, s.uu, sub(sub(s.i, s.p), 1)))))],
             lemmas=lambda s: [cnt_def(s.U, s.uu, add(s.i, s._i))])})


def sep(U, n, p, uu):
    """ghost: uu is a knot or at least eps away from all of them, and no knot of the interior has multiplicity above p"""
    f = z3.Function('sep:' + symname(U), INT, INT, REAL, BOOL)
    return f(tz(n), tz(p), tz(toreal(uu)))


def sep_cond(U, n, p, uu):
    m = add(add(n, p), 1)
    return [(lambda j: (land(le(0, j), le(j, m)), imp(match(U, uu, j), eq(U(j), uu)))),
            (lambda i: (land(le(1, i), le(i, n)), lt(U(i), U(add(i, p)))))]


def sep_elim(U, n, p, uu):
    out = []
    for f in sep_cond(U, n, p, uu):
        i = fint('i')
        g, b = f(i)
        out.append(Forall([i], land(sep(U, n, p, uu), g), b))
    return out


def sep_intro(U, n, p, uu):
    """the definition, from right to left (skolem form)"""
    bad = []
    for f in sep_cond(U, n, p, uu):
        g, b = f(fint('w'))
        bad.append(land(g, lnot(b)))
    return [lor(sep(U, n, p, uu), *bad)]


def sep_pre(U, n, p, uu):
    out = []
    for nm, f in zip(('separated', 'multiplicities'), sep_cond(U, n, p, uu)):
        out.append((nm, forall(lambda i: f(i))))
    return out


def first_f(U, m, uu):
    f = z3.Function('first:' + symname(U), INT, REAL, INT)
    return f(tz(m), tz(toreal(uu)))


def first_not_below(U, m, uu):
    """flemmas.py: U(0..m) sorted"""
    l = first_f(U, m, uu)
    return [le(0, l), le(l, add(m, 1)), forall(lambda i: (land(le(0, i), lt(i, l)), lt(U(i), uu))),
            forall(lambda i: (land(le(l, i), le(i, m)), le(uu, U(i))))]


def count_run(U, uu, y, x, all_):
    """flemmas.py (skolem form)"""
    w = fint('w')
    bad = land(lt(y, w), le(w, x), lnot(match(U, uu, w)) if all_ else match(U, uu, w))
    return imp(le(y, x), lor(eq(cnt(U, uu, x), add(cnt(U, uu, y), sub(x, y)) if all_ else cnt(U, uu, y)), bad))


def run_lemmas(v):
    U, n, p, uu = v.U, v.n, v.p, v.uu
    m, sp = add(add(n, p), 1), span_f(U, n, p, uu)
    l = first_f(U, m, uu)
    lo, hi, l1 = sub(sub(sp, p), 1), add(add(sp, p), 1), sub(l, 1)
    cl = ite(le(lo, l1), l1, lo)
    k = v.k
    ck = ite(le(k, hi), k, hi)
    ck = ite(le(cl, ck), ck, cl)
    return sep_elim(U, n, p, uu) + first_not_below(U, m, uu) + \
        [count_run(U, uu, lo, cl, False), count_run(U, uu, cl, ck, True), count_run(U, uu, ck, hi, False)]


contract('bspline.findspanmult',
         pre=lambda v: valid(v.U, v.n, v.p),
         out=lambda v: {'k': spanmult_f(v.U, v.n, v.p, v.uu, 'k'), 's': spanmult_f(v.U, v.n, v.p, v.uu, 's')},
         relational=('k', 's'),
         facts=lambda v, o: spanmult_facts(v.U, v.n, v.p, v.uu, o.k, o.s),
         facts_lemmas=run_lemmas,
         loops={1: dict(
             inv=lambda s: [('range', land(le(span_f(s.U, s.n, s.p, s.uu), s.k), le(s.k, add(add(s.n, s.p), 1)))),
                            ('matching', forall(lambda j: (land(lt(span_f(s.U, s.n, s.p, s.uu), j), le(j, s.k)),
                                                           match(s.U, s.uu, j))))],
             variant=lambda s: sub(add(add(s.n, s.p), 1), s.k))})


def spanmult_f(U, n, p, uu, which):
    f = z3.Function('spanmult_%s:%s' % (which, symname(U)), INT, INT, REAL, INT)
    return f(tz(n), tz(p), tz(toreal(uu)))


def spanmult_facts(U, n, p, uu, k, s):
    sp = span_f(U, n, p, uu)
    m = add(add(n, p), 1)
    dom = land(sep(U, n, p, uu), le(U(p), uu), le(uu, U(add(n, 1))))
    return span_facts(U, n, p, uu, sp) + [
        le(sp, k), le(k, m),
        forall(lambda j: (land(lt(sp, j), le(j, k)), match(U, uu, j))),
        imp(lt(k, m), lnot(match(U, uu, add(k, 1)))),
        eq(s, sub(cnt(U, uu, add(add(sp, p), 1)), cnt(U, uu, sub(sub(sp, p), 1)))),
        # for a value of the domain which is a knot or away from the knots: k is the last knot <= uu, s the exact multiplicity
        imp(dom, land(le(U(k), uu), imp(lt(k, m), lt(uu, U(add(k, 1)))))),
        imp(dom, land(le(0, s), le(s, add(k, 1)), le(sub(k, s), n))),
        forall(lambda j: (land(dom, lt(sub(k, s), j), le(j, k)), eq(U(j), uu))),
        imp(land(dom, le(0, sub(k, s))), lt(U(sub(k, s)), uu))]


# ------------------------------------------------------------------ Cox-de Boor
def nb(U, k, uu, d, i):
    """basis function i of degree d at uu, uu in span k"""
    f = z3.Function('nb:' + symname(U), INT, REAL, INT, INT, REAL)
    return f(tz(k), tz(toreal(uu)), tz(d), tz(i))


def nb0(U, k, uu, i):
    return eq(nb(U, k, uu, 0, i), ite(eq(i, k), F(1), F(0)))


def wgt(U, uu, d, i):
    """(uu-U_i)/(U_{i+d}-U_i), only used where the denominator is positive"""
    return rdiv(sub(toreal(uu), U(i)), sub(U(add(i, d)), U(i)))


def nb_def(U, k, uu, d, i):
    """Cox-de Boor recursion; terms with vanishing basis functions are zero whatever their factor is"""
    a, b = nb(U, k, uu, sub(d, 1), i), nb(U, k, uu, sub(d, 1), add(i, 1))
    ta = ite(inspan(k, sub(d, 1), i), mul(wgt(U, uu, d, i), a), F(0))
    tb = ite(inspan(k, sub(d, 1), add(i, 1)), mul(sub(F(1), wgt(U, uu, d, add(i, 1))), b), F(0))
    return eq(nb(U, k, uu, d, i), add(ta, tb))


def inspan(k, d, i):
    return land(le(sub(k, d), i), le(i, k))


def basis_pre(v):
    U, i, p = v.U, v.i, v.p
    return [('p>=0', le(0, p)), ('i>=p', le(p, i)), ('sorted', mono(U, 0, add(i, p))),
            ('span', lt(U(i), U(add(i, 1))))]


def in_b(U):
    return lambda s: True


contract('bspline.basisfuns',
         pre=lambda v: [('p>=0', le(0, v.p)), ('i>=p', le(v.p, v.i)), ('sorted', mono(v.U, 0, add(v.i, v.p))),
                        ('span', imp(le(1, v.p), lt(v.U(v.i), v.U(add(v.i, 1)))))],
         out=lambda v: {'n': lambda r: nb(v.U, v.i, v.uu, v.p, add(sub(v.i, v.p), r))},
         post_lemmas=lambda s, n, r: [nb0(s.U, s.i, s.uu, add(sub(s.i, s.p), r))],
         loops={
             1: dict(
                 inv=lambda s: [('N', forall(lambda q: (rng(0, sub(s.j, 1), q),
                                                        eq(s.N(q), nb(s.U, s.i, s.uu, sub(s.j, 1), add(sub(s.i, sub(s.j, 1)), q)))))),
                                ('left', forall(lambda q: (rng(1, sub(s.j, 1), q), eq(s.left(q), sub(s.uu, s.U(sub(add(s.i, 1), q))))))),
                                ('right', forall(lambda q: (rng(1, sub(s.j, 1), q), eq(s.right(q), sub(s.U(add(s.i, q)), s.uu)))))],
                 defined={'n': lambda s, q: rng(0, sub(s.j, 1), q),
                          'left': lambda s, q: rng(1, sub(s.j, 1), q),
                          'right': lambda s, q: rng(1, sub(s.j, 1), q)},
                 init_lemmas=lambda s: [nb0(s.U, s.i, s.uu, s.i)],
                 lemmas=lambda s: [nb_def(s.U, s.i, s.uu, s._i, s.i)]),
             2: dict(
                 inv=lambda s: [('new', forall(lambda q: (rng(0, sub(s.r, 1), q),
                                                          eq(s.N(q), nb(s.U, s.i, s.uu, s.j, add(sub(s.i, s.j), q)))))),
                                ('old', forall(lambda q: (rng(s.r, sub(s.j, 1), q), eq(s.N(q), s.old.N(q))))),
                                ('saved', eq(s.saved, ite(eq(s.r, 0), F(0),
                                                          mul(wgt(s.U, s.uu, s.j, add(sub(s.i, s.j), s.r)),
                                                              nb(s.U, s.i, s.uu, sub(s.j, 1), add(sub(s.i, s.j), s.r))))))],
                 defined={'n': lambda s, q: rng(0, sub(s.j, 1), q)},
                 lemmas=lambda s: [nb_def(s.U, s.i, s.uu, s.j, add(sub(s.i, s.j), s._i))])})


def rng(lo, hi, i):
    return land(le(lo, i), le(i, hi))


# ------------------------------------------------------------------ evaluation kernels
def pt1(U, n, p, uu, val):
    """sum_j N_{k-p+j}(uu) val(k-p+j), k the span"""
    k = span_f(U, n, p, uu)
    return SUM(0, p, lambda j: mul(nb(U, k, uu, p, add(sub(k, p), j)), val(add(sub(k, p), j))))


contract('bspline.curvepoint',
         pre=lambda v: valid(v.U, v.n, v.p),
         out=lambda v: {'c': lambda a: pt1(v.U, v.n, v.p, v.uu, lambda i: v.Pw(a, i))})

def pt(axes, val):
    """tensor product: sum over all axes of prod N * val(indices); axes = [(U, n, p, uu)] outermost first"""
    def rec(a, w, ix):
        if a == len(axes):
            return mul(w, val(*ix))
        U, n, p, uu = axes[a]
        k = span_f(U, n, p, uu)

        def body(j):
            i = add(sub(k, p), j)
            b = nb(U, k, uu, p, i)
            return rec(a + 1, b if w is None else mul(w, b), ix + [i])
        return SUM(0, p, body)
    return rec(0, None, [])


contract('bspline.surfacepoint',
         pre=lambda v: valid(v.U, v.n, v.p) + valid(v.V, v.m, v.q),
         out=lambda v: {'s': lambda a: pt([(v.U, v.n, v.p, v.uu), (v.V, v.m, v.q, v.vv)], lambda i, j: v.Pw(a, j, i))})


# ------------------------------------------------------------------ module BSp: argument adapters and evaluation
def nn(v):
    return sub(v.m, add(v.p, 1))


contract('bsp.findspan', pre=lambda v: valid(v.U, nn(v), v.p),
         out=lambda v: {'span': span_f(v.U, nn(v), v.p, v.uu)},
         facts=lambda v, o: span_facts(v.U, nn(v), v.p, v.uu, o.span))


def given_span(v):
    return [('span', land(imp(le(0, v.span), land(le(v.p, v.span), le(v.span, nn(v))))))]


contract('bsp.findmult', pre=lambda v: valid(v.U, nn(v), v.p) + given_span(v),
         out=lambda v: {'mult': ite(le(0, v.span), mult_at(v, v.span), mult_at(v, span_f(v.U, nn(v), v.p, v.uu)))})


def mult_at(v, k):
    return sub(cnt(v.U, v.uu, add(add(k, v.p), 1)), cnt(v.U, v.uu, sub(sub(k, v.p), 1)))


contract('bsp.findspanmult', pre=lambda v: valid(v.U, nn(v), v.p),
         out=lambda v: {'k': spanmult_f(v.U, nn(v), v.p, v.uu, 'k'), 's': spanmult_f(v.U, nn(v), v.p, v.uu, 's')},
         facts=lambda v, o: spanmult_facts(v.U, nn(v), v.p, v.uu, o.k, o.s))


def used_span(v):
    return ite(le(0, v.span), v.span, span_f(v.U, nn(v), v.p, v.uu))


contract('bsp.evalbasisfuns',
         pre=lambda v: valid(v.U, nn(v), v.p) + given_span(v) +
         [('span not empty', imp(le(0, v.span), lt(v.U(v.span), v.U(add(v.span, 1)))))],
         out=lambda v: {'n': lambda r: nb(v.U, used_span(v), v.uu, v.p, add(sub(used_span(v), v.p), r))})

contract('bsp.greville',
         pre=lambda v: [('p>=1', le(1, v.p)), ('m', le(v.p, nn(v)))],
         out=lambda v: {'x': lambda i: rdiv(SUM(add(i, 1), add(i, v.p), lambda k: v.U(k)), v.p)})

contract('bsp.evaluate0', out=lambda v: {'cw': lambda a: v.Pw(a)})
contract('bsp.evaluate1',
         pre=lambda v: valid(v.U, v.n, v.p),
         out=lambda v: {'cw': lambda a, i: pt([(v.U, v.n, v.p, v.X(i))], lambda j: v.Pw(a, j))})
contract('bsp.evaluate2',
         pre=lambda v: valid(v.Ux, v.nx, v.px) + valid(v.Uy, v.ny, v.py),
         out=lambda v: {'cw': lambda a, j, i: pt([(v.Ux, v.nx, v.px, v.X(i)), (v.Uy, v.ny, v.py, v.Y(j))],
                                                 lambda ix, iy: v.Pw(a, iy, ix))})
contract('bsp.evaluate3',
         pre=lambda v: valid(v.Ux, v.nx, v.px) + valid(v.Uy, v.ny, v.py) + valid(v.Uz, v.nz, v.pz),
         out=lambda v: {'cw': lambda a, k, j, i: pt([(v.Ux, v.nx, v.px, v.X(i)), (v.Uy, v.ny, v.py, v.Y(j)),
                                                     (v.Uz, v.nz, v.pz, v.Z(k))],
                                                    lambda ix, iy, iz: v.Pw(a, iz, iy, ix))})


# ------------------------------------------------------------------ derivatives of the basis functions
def nbd(U, k, uu, m, d, i):
    """m-th derivative of basis function i of degree d at uu, uu in span k"""
    f = z3.Function('nbd:' + symname(U), INT, REAL, INT, INT, INT, REAL)
    return f(tz(k), tz(toreal(uu)), tz(m), tz(d), tz(i))


def nbd0(U, k, uu, d, i):
    return eq(nbd(U, k, uu, 0, d, i), nb(U, k, uu, d, i))


def acoef(U, I, p, k, j):
    f = z3.Function('acoef:' + symname(U), INT, INT, INT, INT, REAL)
    return f(tz(I), tz(p), tz(k), tz(j))


def acoef_def(U, I, p, k, j):
    """a_k(j) = (a_{k-1}(j) - a_{k-1}(j-1)) / (U_{I+j+p-k+1} - U_{I+j}),  a_{k-1} = 0 outside 0..k-1"""
    x = ite(land(le(0, j), le(j, sub(k, 1))), acoef(U, I, p, sub(k, 1), j), F(0))
    y = ite(land(le(1, j), le(j, k)), acoef(U, I, p, sub(k, 1), sub(j, 1)), F(0))
    den = sub(U(add(sub(add(add(I, j), p), k), 1)), U(add(I, j)))
    return eq(acoef(U, I, p, k, j), rdiv(sub(x, y), den))


def dlo(r, k):
    return ite(le(0, sub(k, r)), sub(k, r), 0)


def dhi(p, r, k):
    return ite(le(k, sub(p, r)), k, sub(p, r))


def dsum(U, i, uu, p, r, k, J):
    """partial sum over j = max(0,k-r) .. J of a_k(j) N_{I+j,p-k}(uu),  I = i-p+r"""
    f = z3.Function('dsum:' + symname(U), INT, REAL, INT, INT, INT, INT, REAL)
    return f(tz(i), tz(toreal(uu)), tz(p), tz(r), tz(k), tz(J))


def dsum_def(U, i, uu, p, r, k, J):
    I = add(sub(i, p), r)
    return [eq(dsum(U, i, uu, p, r, k, sub(dlo(r, k), 1)), F(0)),
            imp(le(dlo(r, k), J), eq(dsum(U, i, uu, p, r, k, J),
                                     add(dsum(U, i, uu, p, r, k, sub(J, 1)),
                                         mul(acoef(U, I, p, k, J), nb(U, i, uu, sub(p, k), add(I, J))))))]


def dfull(U, i, uu, p, r, k):
    """sum over the whole range; empty (zero) when k > p"""
    return ite(le(dlo(r, k), dhi(p, r, k)), dsum(U, i, uu, p, r, k, dhi(p, r, k)), F(0))


FFALL = z3.Function('ffall', INT, INT, INT)


def ffall(p, k):
    """p (p-1) ... (p-k+1)"""
    return FFALL(tz(p), tz(k))


def ffall_def(p, k):
    return [eq(ffall(p, 0), 1), eq(ffall(p, k), mul(ffall(p, sub(k, 1)), add(sub(p, k), 1)))]


def ders_closed(U, i, uu, p, r, k):
    """lemma (flemmas.py: derivative formula): the closed form of the repeated derivative recursion"""
    return eq(nbd(U, i, uu, k, p, add(sub(i, p), r)),
              ite(eq(k, 0), nb(U, i, uu, p, add(sub(i, p), r)),
                  mul(toreal(ffall(p, k)), dfull(U, i, uu, p, r, k))))


def _up(s, a, b):
    return eq(s.ndu(a, b), nb(s.U, s.i, s.uu, b, add(sub(s.i, b), a)))


def _lo(s, a, b):
    return eq(s.ndu(a, b), sub(s.U(add(add(s.i, b), 1)), s.U(add(sub(add(s.i, 1), a), b))))


def _ndu_inv(s, hi):
    """both halves of the table for indices <= hi"""
    return [('ndu basis', forall(lambda a, b: (land(le(0, a), le(a, b), le(b, hi)), _up(s, a, b)))),
            ('ndu differences', forall(lambda a, b: (land(le(0, b), lt(b, a), le(a, hi)), _lo(s, a, b))))]


def _tri(hi, a, b):
    return land(le(0, a), le(a, hi), le(0, b), le(b, hi))


def _acoef_row(s, row, k):
    I = add(sub(s.i, s.p), s.r)
    return forall(lambda q: (rng(dlo(s.r, k), dhi(s.p, s.r, k), q), eq(s.a(row, q), acoef(s.U, I, s.p, k, q))))


contract('bspline.dersbasisfuns',
         pre=lambda v: [('p>=0', le(0, v.p)), ('n>=0', le(0, v.n)), ('i>=p', le(v.p, v.i)),
                        ('sorted', mono(v.U, 0, add(v.i, v.p))),
                        ('span', imp(le(1, v.p), lt(v.U(v.i), v.U(add(v.i, 1)))))],
         out=lambda v: {'ders': lambda r, k: nbd(v.U, v.i, v.uu, k, v.p, add(sub(v.i, v.p), r))},
         post_lemmas=lambda s, n, r, k: [ders_closed(s.U, s.i, s.uu, s.p, r, k), nbd0(s.U, s.i, s.uu, s.p, add(sub(s.i, s.p), r))],
         loops={
             1: dict(inv=lambda s: _ndu_inv(s, sub(s.j, 1)) + [
                         ('left', forall(lambda q: (rng(1, sub(s.j, 1), q), eq(s.left(q), sub(s.uu, s.U(sub(add(s.i, 1), q))))))),
                         ('right', forall(lambda q: (rng(1, sub(s.j, 1), q), eq(s.right(q), sub(s.U(add(s.i, q)), s.uu)))))],
                     defined={'ndu': lambda s, a, b: _tri(sub(s.j, 1), a, b),
                              'left': lambda s, q: rng(1, sub(s.j, 1), q), 'right': lambda s, q: rng(1, sub(s.j, 1), q)},
                     init_lemmas=lambda s: [nb0(s.U, s.i, s.uu, s.i)],
                     lemmas=lambda s: [nb_def(s.U, s.i, s.uu, s._i, s.i)]),
             2: dict(inv=lambda s: [
                         ('new basis', forall(lambda q: (rng(0, sub(s.r, 1), q), _up(s, q, s.j)))),
                         ('new difference', forall(lambda q: (rng(0, sub(s.r, 1), q), _lo(s, s.j, q)))),
                         ('old', forall(lambda a, b: (_tri(sub(s.j, 1), a, b), eq(s.ndu(a, b), s.old.ndu(a, b))))),
                         ('saved', eq(s.saved, ite(eq(s.r, 0), F(0),
                                                   mul(wgt(s.U, s.uu, s.j, add(sub(s.i, s.j), s.r)),
                                                       nb(s.U, s.i, s.uu, sub(s.j, 1), add(sub(s.i, s.j), s.r))))))],
                     defined={'ndu': lambda s, a, b: lor(_tri(sub(s.j, 1), a, b), land(eq(b, s.j), rng(0, sub(s.r, 1), a)),
                                                         land(eq(a, s.j), rng(0, sub(s.r, 1), b)))},
                     lemmas=lambda s: [nb_def(s.U, s.i, s.uu, s.j, add(sub(s.i, s.j), s._i))]),
             3: dict(inv=lambda s: [
                         ('values', forall(lambda q: (rng(0, s.p, q), eq(s.ders(q, 0), s.ndu(q, s.p))))),
                         ('rows done', forall(lambda q, m: (land(rng(0, sub(s.r, 1), q), rng(1, s.n, m)),
                                                            eq(s.ders(q, m), dfull(s.U, s.i, s.uu, s.p, q, m)))))],
                     defined={'ders': lambda s, q, m: lor(eq(m, 0), le(q, sub(s.r, 1)))}),
             4: dict(inv=lambda s: [
                         ('rows', land(le(0, s.s1), le(s.s1, 1), eq(s.s2, sub(1, s.s1)))),
                         ('coefficients', _acoef_row(s, s.s1, sub(s.k, 1))),
                         ('row', forall(lambda m: (rng(1, sub(s.k, 1), m), eq(s.ders(s.r, m), dfull(s.U, s.i, s.uu, s.p, s.r, m))))),
                         ('others', forall(lambda q, m: (land(lor(eq(m, 0), lnot(eq(q, s.r)))), eq(s.ders(q, m), s.old.ders(q, m)))))],
                     defined={'ders': lambda s, q, m: lor(eq(m, 0), le(q, sub(s.r, 1)), land(eq(q, s.r), le(m, sub(s.k, 1)))),
                              'a': lambda s, w, q: land(eq(w, s.s1), rng(dlo(s.r, sub(s.k, 1)), dhi(s.p, s.r, sub(s.k, 1)), q))},
                     init_lemmas=lambda s: [eq(acoef(s.U, add(sub(s.i, s.p), s.r), s.p, 0, 0), F(1))],
                     lemmas=lambda s: [acoef_def(s.U, add(sub(s.i, s.p), s.r), s.p, s._i, 0),
                                       acoef_def(s.U, add(sub(s.i, s.p), s.r), s.p, s._i, s._i),
                                       dsum_def(s.U, s.i, s.uu, s.p, s.r, s._i, 0),
                                       dsum_def(s.U, s.i, s.uu, s.p, s.r, s._i, s._i)]),
             5: dict(inv=lambda s: [
                         ('coefficients', forall(lambda q: (rng(dlo(s.r, s.k), sub(s.j, 1), q),
                                                            eq(s.a(s.s2, q), acoef(s.U, add(sub(s.i, s.p), s.r), s.p, s.k, q))))),
                         ('previous', forall(lambda q: (True, eq(s.a(s.s1, q), s.old.a(s.s1, q))))),
                         ('sum', eq(s.d, dsum(s.U, s.i, s.uu, s.p, s.r, s.k, sub(s.j, 1))))],
                     defined={'a': lambda s, w, q: lor(land(eq(w, s.s1), rng(dlo(s.r, sub(s.k, 1)), dhi(s.p, s.r, sub(s.k, 1)), q)),
                                                       land(eq(w, s.s2), rng(dlo(s.r, s.k), sub(s.j, 1), q)))},
                     init_lemmas=lambda s: [acoef_def(s.U, add(sub(s.i, s.p), s.r), s.p, s.k, 0)] +
                     dsum_def(s.U, s.i, s.uu, s.p, s.r, s.k, 0),
                     lemmas=lambda s: [acoef_def(s.U, add(sub(s.i, s.p), s.r), s.p, s.k, s._i)] +
                     dsum_def(s.U, s.i, s.uu, s.p, s.r, s.k, s._i)),
             6: dict(inv=lambda s: [
                         ('factor', eq(s.r, ffall(s.p, s.k))),
                         ('scaled', forall(lambda q, m: (land(rng(0, s.p, q), rng(1, sub(s.k, 1), m)),
                                                         eq(s.ders(q, m), mul(toreal(ffall(s.p, m)), s.old.ders(q, m)))))),
                         ('rest', forall(lambda q, m: (land(rng(0, s.p, q), lor(eq(m, 0), rng(s.k, s.n, m))),
                                                       eq(s.ders(q, m), s.old.ders(q, m)))))],
                     defined={'ders': lambda s, q, m: True},
                     init_lemmas=lambda s: ffall_def(s.p, 1),
                     lemmas=lambda s: ffall_def(s.p, add(s._i, 1)))})


# ------------------------------------------------------------------ module bspeval
OPT = ['n2', 'n3', 'n4']


def order_configs(opt, extra=None, dims=None):
    out = []
    for o in range(len(opt) + 1):
        base = {'name': 'order %d' % (o + 1), 'absent': tuple(opt[o:]), 'order': o + 1}
        if dims:
            for d in dims:
                out.append(dict(base, name='dim %d, order %d' % (d, o + 1), values={'dim': d}))
        else:
            out.append(base)
    return out


def vorder(v, opt):
    return 1 + sum(1 for x in opt if x in v)


def tp(v, names, ind, pos):
    """product over the axes of table(index, how often the axis occurs in ind)"""
    out = None
    for ax, (nm, q) in enumerate(zip(names, pos)):
        c = 0
        for x in ind:
            c = add(c, ite(eq(x, ax + 1), 1, 0))
        if not isc(c):
            c = simp(tz(c))
        t = v._e[nm](q, c)
        out = t if out is None else mul(out, t)
    return out


def tensorprod(dim):
    names = ['in', 'jn', 'kn'][:dim]

    def out(v):
        r = {}
        for o, nm in enumerate(['n0', 'n1', 'n2', 'n3', 'n4']):
            r[nm] = lambda *a, o=o: tp(v, names, a[:o], a[o:])
        return r
    return dict(out=out, configs=order_configs(OPT),
                reads={n: (lambda v, i, m: le(m, vorder(v, OPT))) for n in names})


for _d in (1, 2, 3):
    contract('bspeval.tensorprod%d' % _d, **tensorprod(_d))
C['bspeval.tensorprod1']['known'] = {'post:n4': ('F1', 'recorded:n4')}
C['bspeval.tensorprod1']['recorded'] = {'n4': lambda v: (lambda *a: v._e['in'](a[4], 3))}


def subsets(I):
    """non-empty sub-multisets of the positions of I, as (chosen, rest)"""
    n = len(I)
    for m in range(1, 2 ** n):
        yield ([I[k] for k in range(n) if m >> k & 1], [I[k] for k in range(n) if not m >> k & 1])


def leibniz(A, w):
    """quotient rule: R with  w R = A differentiated: R_I = (A_I - sum_{S<=I, S not empty} w_S R_{I-S}) / w"""
    memo = {}

    def R(I):
        key = str(list(I))
        if key not in memo:
            x = A(I)
            for S, rest in subsets(list(I)):
                x = sub(x, mul(w(S), R(rest)))
            memo[key] = rdiv(x, w([]))
        return memo[key]
    return R


ROPT = ['r2', 'r3', 'r4']


def flat_sum(v, nm, f):
    """sum over the last (possibly flattened) dimension of argument nm"""
    from fexec import gsum
    return gsum(v._e[nm], 0, f)


def ratio_out(v):
    def old(I, a):
        return v._e['r%d' % len(I)](*(list(I) + [a]))
    memo = {}

    def wsum(I):
        k = str(list(I))
        if k not in memo:
            memo[k] = flat_sum(v, 'w', lambda a: mul(v.W(a), old(I, a)))
        return memo[k]
    r = {}
    for o in range(5):
        if 'r%d' % o in v:
            r['r%d' % o] = lambda *J, o=o: leibniz(lambda I: mul(v.W(J[o]), old(I, J[o])), wsum)(list(J[:o]))
    return r


contract('bspeval.rationalize',
         pre=lambda v: [('weight function', lnot(eq(flat_sum(v, 'w', lambda a: mul(v.W(a), v.R0(a))), F(0))))],
         out=ratio_out, configs=order_configs(ROPT, dims=(1, 2, 3)))


# ------------------------------------------------------------------ knot insertion
def bo(U, P, a, p, uu, k, s, r, q):
    """coefficient q after r insertions of uu (k: last knot <= uu, s: multiplicity), component a: Boehm's rule r times"""
    f = z3.Function('boehm:%s:%s' % (symname(U), symname(P)), INT, INT, REAL, INT, INT, INT, INT, REAL)
    return f(tz(a), tz(p), tz(toreal(uu)), tz(k), tz(s), tz(r), tz(q))


def bo_co(U, p, uu, k, s, r, q):
    """weight of coefficient q in the r-th insertion"""
    return ite(le(q, sub(add(sub(k, p), r), 1)), F(1),
               ite(lt(sub(k, s), q), F(0), rdiv(sub(toreal(uu), U(q)), sub(U(add(sub(add(q, p), r), 1)), U(q)))))


def bo_def(v, r, q, k=None, s=None, uu=None):
    """defining equations at (r, q), r > 0"""
    k, s, uu = v.k if k is None else k, v.s if s is None else s, v.uu if uu is None else uu
    U, P, p = v.U, v.Pw, v.p
    c = bo_co(U, p, uu, k, s, r, q)
    return forall(lambda a: (True, eq(bo(U, P, a, p, uu, k, s, r, q),
                                      add(mul(c, bo(U, P, a, p, uu, k, s, sub(r, 1), q)),
                                          mul(sub(F(1), c), bo(U, P, a, p, uu, k, s, sub(r, 1), sub(q, 1)))))))


def bo_base(v, k=None, s=None, uu=None):
    k, s, uu = v.k if k is None else k, v.s if s is None else s, v.uu if uu is None else uu
    return forall(lambda a, q: (True, eq(bo(v.U, v.Pw, a, v.p, uu, k, s, 0, q), v.Pw(a, q))))


def bo_stable(v, r, k=None, s=None, uu=None):
    """flemmas.py: insertions leave the coefficients to the left of the affected window alone and shift those to the right"""
    k, s, uu = v.k if k is None else k, v.s if s is None else s, v.uu if uu is None else uu
    b = lambda a, r, q: bo(v.U, v.Pw, a, v.p, uu, k, s, r, q)
    return [forall(lambda a, j, q: (land(le(0, j), le(j, r), le(q, add(sub(k, v.p), j))), eq(b(a, r, q), b(a, j, q)))),
            forall(lambda a, j, q: (land(le(0, j), le(j, r), le(sub(k, s), q)), eq(b(a, r, add(q, sub(r, j))), b(a, j, q))))]


def insert_pre(v):
    U, n, p, k, s, r, uu = v.U, v.n, v.p, v.k, v.s, v.r, v.uu
    m = add(add(n, p), 1)
    return [('p>=1', le(1, p)), ('n>=p', le(p, n)), ('counts', land(le(0, r), le(0, s), le(add(r, s), p))),
            ('k', land(le(p, k), le(k, m), le(sub(k, s), n))), ('sorted', mono(U, 0, m)),
            ('at k', land(le(U(k), uu), imp(lt(k, m), lt(uu, U(add(k, 1)))))),
            ('copies', forall(lambda j: (land(lt(sub(k, s), j), le(j, k)), eq(U(j), uu)))),
            ('next lower', imp(le(0, sub(k, s)), lt(U(sub(k, s)), uu)))]


def inserted(U, k, r, uu, i):
    return ite(le(i, k), U(i), ite(le(i, add(k, r)), toreal(uu), U(sub(i, r))))


def comp(s, a):
    return rng(1, s.d, a)


contract('bspline.insertknot',
         pre=insert_pre,
         out=lambda v: {'v': lambda i: inserted(v.U, v.k, v.r, v.uu, i),
                        'qw': lambda a, q: bo(v.U, v.Pw, a, v.p, v.uu, v.k, v.s, v.r, q)},
         loops={
             1: dict(
                 inv=lambda s: [
                     ('row', forall(lambda a, i: (land(comp(s, a), rng(0, add(sub(sub(s.p, s.s), s.j), 1), i)),
                                                  eq(s.Rw(a, i), bo(s.U, s.Pw, a, s.p, s.uu, s.k, s.s, sub(s.j, 1),
                                                                    add(sub(add(sub(s.k, s.p), s.j), 1), i)))))),
                     ('below', forall(lambda a, q: (land(comp(s, a), rng(0, sub(add(sub(s.k, s.p), s.j), 1), q)),
                                                    eq(s.Qw(a, q), bo(s.U, s.Pw, a, s.p, s.uu, s.k, s.s, s.r, q))))),
                     ('above', forall(lambda a, q: (land(comp(s, a), rng(add(sub(sub(add(s.k, s.r), s.j), s.s), 1), add(s.n, s.r), q)),
                                                    eq(s.Qw(a, q), bo(s.U, s.Pw, a, s.p, s.uu, s.k, s.s, s.r, q)))))],
                 defined={'rw': lambda s, a, i: rng(0, add(sub(sub(s.p, s.s), s.j), 1), i),
                          'qw': lambda s, a, q: lor(rng(0, sub(add(sub(s.k, s.p), s.j), 1), q),
                                                    rng(add(sub(sub(add(s.k, s.r), s.j), s.s), 1), add(s.n, s.r), q))},
                 init_lemmas=lambda s: [bo_base(s)] + bo_stable(s, s.r),
                 lemmas=lambda s: bo_stable(s, s.r)),
             2: dict(
                 inv=lambda s: [
                     ('new', forall(lambda a, q: (land(comp(s, a), rng(0, sub(s.i, 1), q)),
                                                  eq(s.Rw(a, q), bo(s.U, s.Pw, a, s.p, s.uu, s.k, s.s, s.j,
                                                                    add(add(sub(s.k, s.p), s.j), q)))))),
                     ('old', forall(lambda a, q: (land(comp(s, a), rng(s.i, add(sub(sub(s.p, s.s), s.j), 1), q)),
                                                  eq(s.Rw(a, q), bo(s.U, s.Pw, a, s.p, s.uu, s.k, s.s, sub(s.j, 1),
                                                                    add(sub(add(sub(s.k, s.p), s.j), 1), q))))))],
                 defined={'rw': lambda s, a, i: rng(0, add(sub(sub(s.p, s.s), s.j), 1), i)},
                 lemmas=lambda s: [bo_def(s, s.j, add(add(sub(s.k, s.p), s.j), s._i))]),
             3: dict(
                 inv=lambda s: [
                     ('copied', forall(lambda a, q: (land(comp(s, a), lor(rng(0, sub(s.i, 1), q), rng(sub(s.k, s.s), add(s.n, s.r), q))),
                                                     eq(s.Qw(a, q), bo(s.U, s.Pw, a, s.p, s.uu, s.k, s.s, s.r, q)))))],
                 defined={'qw': lambda s, a, q: lor(rng(0, sub(s.i, 1), q), rng(sub(s.k, s.s), add(s.n, s.r), q))})})


def ins_args(v):
    return dict(k=spanmult_f(v.U, v.n, v.p, v.uu, 'k'), s=spanmult_f(v.U, v.n, v.p, v.uu, 's'))


contract('bsp.insertknot',
         pre=lambda v: valid(v.U, v.n, v.p) + sep_pre(v.U, v.n, v.p, v.uu) +
         [('domain', land(le(v.U(v.p), v.uu), le(v.uu, v.U(add(v.n, 1))))), ('r', le(0, v.r)),
          ('multiplicity', imp(lt(0, v.r), le(add(v.r, spanmult_f(v.U, v.n, v.p, v.uu, 's')), v.p)))],
         pre_lemmas=lambda v: sep_intro(v.U, v.n, v.p, v.uu),
         out=lambda v: {'v': lambda i: inserted(v.U, ins_args(v)['k'], v.r, v.uu, i),
                        'qw': lambda a, q: bo(v.U, v.Pw, a, v.p, v.uu, ins_args(v)['k'], ins_args(v)['s'], v.r, q)},
         post_lemmas=lambda s, n, *I: [bo_base(s, **ins_args(s))])


# ------------------------------------------------------------------ mapped gradient
def det_of(A, d):
    """Leibniz formula"""
    import itertools
    t = F(0)
    for pm in itertools.permutations(range(d)):
        sg = 1
        for i in range(d):
            for j in range(i):
                sg = -sg if pm[j] > pm[i] else sg
        x = F(sg)
        for i in range(d):
            x = mul(x, A(i + 1, pm[i] + 1))
        t = add(t, x)
    return t


def cofactor(A, d, i, j):
    rows, cols = [r for r in range(1, d + 1) if r != i], [c for c in range(1, d + 1) if c != j]
    return mul(F((-1) ** (i + j)), det_of(lambda r, c: A(rows[r - 1], cols[c - 1]), d - 1))


def pick2(d, i, j, f):
    """f(i,j) for symbolic i, j in 1..d"""
    out = f(d, d)
    for a in range(1, d + 1):
        for b in range(1, d + 1):
            out = ite(land(eq(i, a), eq(j, b)), f(a, b), out)
    return out


def inverse_of(A, d):
    return lambda i, j: pick2(d, i, j, lambda a, b: rdiv(cofactor(A, d, b, a), det_of(A, d)))


DIMS = [{'name': 'dim %d' % d, 'values': {'dim': d}} for d in (1, 2, 3)]
contract('bspeval.determinant', out=lambda v: {'result': det_of(v.A, v.dim)}, configs=DIMS)
contract('bspeval.inverse', pre=lambda v: [('invertible', lnot(eq(det_of(v.A, v.dim), F(0))))],
         out=lambda v: {'result': inverse_of(v.A, v.dim)}, configs=DIMS)


def flat_last(v, nm, f):
    from fexec import gsum
    return gsum(v._e[nm], 1, f)


def jac(v):
    """X1(i,j) = sum over the local functions of X(i,e) dN_e/du_j"""
    from fexec import gsum
    return lambda i, j: gsum(v._e['n1'], 1, lambda e: mul(v.X(i, e), v.N1(j, e)))


contract('bspeval.interpolate',
         out=lambda v: {'v': lambda i, f: flat_last(v, 'n', lambda e: mul(v.N(i, e), v.U(f, e)))})


def mapped(v):
    E = inverse_of(jac(v), v.dim)

    def g(a, f):
        t = F(0)
        for b in range(1, v.dim + 1):
            t = add(t, mul(E(b, a), v.G(b, f)))
        return t
    return g


contract('bspeval.geometrymap', pre=lambda v: [('invertible', lnot(eq(det_of(jac(v), v.dim), F(0))))],
         out=lambda v: {'g': mapped(v)}, configs=DIMS)


# ------------------------------------------------------------------ derivatives of the evaluated map
def rational(axes, W):
    """R(I, pos): the derivative with indices I of the rational basis function at pos (one index per axis);
    axes = [(U, n, p, x)]; W the weights of the control points"""
    ks = [span_f(U, n, p, x) for U, n, p, x in axes]

    def D(I, pos):
        t = None
        for a, ((U, n, p, x), k, q) in enumerate(zip(axes, ks, pos)):
            c = 0
            for i in I:
                c = add(c, ite(eq(i, a + 1), 1, 0))
            if not isc(c):
                c = simp(tz(c))
            b = nbd(U, k, x, c, p, add(sub(k, p), q))
            t = b if t is None else mul(t, b)
        return t

    def nodes(pos):
        return [add(sub(k, p), q) for (U, n, p, x), k, q in zip(axes, ks, pos)]

    def total(f):
        def rec(a, pos):
            if a == len(axes):
                return f(pos)
            return SUM(0, axes[a][2], lambda q: rec(a + 1, pos + [q]))
        return rec(0, [])
    memo = {}

    def wsum(I):
        key = str(list(I))
        if key not in memo:
            memo[key] = total(lambda pos: mul(W(*nodes(pos)), D(I, pos)))
        return memo[key]

    def R(I, pos):
        return leibniz(lambda J: mul(W(*nodes(pos)), D(J, pos)), wsum)(list(I))
    return R, total, nodes, wsum


AX = 'xyz'


def kernel_axes(v, dim, at):
    """at: the parameter indices, first axis first"""
    out = []
    for a in range(dim):
        c = AX[a]
        out.append((v._e['u' + c], v._e['n' + c], v._e['p' + c], v._e[c](at[a])))
    return out


def deriv_contract(dim, order, arg):
    def out(v):
        def val(*J):
            if order == 4:                # one index for all four differentiations, the first one fastest
                from fexec import unflatten
                if isc(J[0]):
                    d = tuple((J[0] - 1) // dim ** k % dim + 1 for k in range(4))
                else:
                    d = unflatten(sub(J[0], 1), [(1, dim)] * 4) if dim > 1 else (1, 1, 1, 1)
                J = tuple(d) + tuple(J[1:])
            I, f, at = J[:order], J[order], list(reversed(J[order + 1:]))
            axes = kernel_axes(v, dim, at)
            R, total, nodes, wsum = rational(axes, lambda *ix: v.Pw(4, *reversed(ix)))

            def part(I):
                return total(lambda pos: mul(R(I, pos), v.F(f, *reversed(nodes(pos)))))
            if order > 1 or eq(v.map, 0) is True:
                return part(I)
            X = lambda i, pos: rdiv(v.Pw(i, *reversed(nodes(pos))), v.Pw(4, *reversed(nodes(pos))))
            E = inverse_of(lambda i, j: total(lambda pos: mul(X(i, pos), R([j], pos))), dim)
            t = F(0)
            for b in range(1, dim + 1):
                t = add(t, mul(E(b, I[0]), part([b])))
            return t
        return {arg: val}

    def pre(v):
        o = [('order', land(*[le(0, v._e['r' + AX[a]]) for a in range(dim)]))]
        for a in range(dim):
            c = AX[a]
            o += valid(v._e['u' + c], v._e['n' + c], v._e['p' + c])
        vs = [fint('i') for _ in range(dim)]
        g = land(*[rng(0, v._e['r' + AX[a]], vs[a]) for a in range(dim)])
        R, total, nodes, wsum = rational(kernel_axes(v, dim, vs), lambda *ix: v.Pw(4, *reversed(ix)))
        o.append(('weight function', Forall(vs, g, lnot(eq(wsum([]), F(0))))))
        if order == 1 and eq(v.map, 0) is not True:
            ix = [fint('i') for _ in range(dim)]
            o.append(('weights', Forall(ix, land(*[rng(0, v._e['n' + AX[a]], ix[a]) for a in range(dim)]),
                                        lnot(eq(v.Pw(4, *reversed(ix)), F(0))))))
            X = lambda i, pos: rdiv(v.Pw(i, *reversed(nodes(pos))), v.Pw(4, *reversed(nodes(pos))))
            o.append(('invertible', Forall(vs, g, lnot(eq(det_of(lambda i, j: total(lambda pos: mul(X(i, pos), R([j], pos))), dim), F(0))))))
        return o
    return dict(pre=pre, out=out, enum=90,
                configs=[{'name': 'parametric', 'values': {'map': 0}}] + ([{'name': 'mapped', 'values': {'map': 1}}] if order == 1 else []))


for _d in (1, 2, 3):
    for _o, _nm, _a in ((1, 'gradient', 'g'), (2, 'hessian', 'h'), (3, 'thirdder', 'd3'), (4, 'fourthder', 'd4')):
        contract('bsp.%s%d' % (_nm, _d), **deriv_contract(_d, _o, _a))


# ------------------------------------------------------------------ nonempty spans
def nz(U, k):
    d = sub(U(k), U(add(k, 1)))
    return lt(EPSR, ite(le(0, d), d, neg(d)))


def ncnt(U, p, k):
    """number of nonempty spans with index p .. k-1"""
    return z3.Function('ncnt:' + symname(U), INT, INT, INT)(tz(p), tz(k))


def ncnt_def(U, p, k):
    return [eq(ncnt(U, p, p), 0), eq(ncnt(U, p, add(k, 1)), add(ncnt(U, p, k), ite(nz(U, k), 1, 0)))]


def ncnt_mono(U, p, a, b):
    """lemma (flemmas.py: span_count)"""
    return imp(land(le(p, a), le(a, b)), le(ncnt(U, p, a), ncnt(U, p, b)))


def span_list(v, I, r, off=0):
    """I(1..r) lists the nonempty spans of the domain in order"""
    at = lambda j: add(I(j), off)
    return forall(lambda j: (rng(1, r, j), land(le(v.p, at(j)), le(at(j), nn(v)), nz(v.U, at(j)),
                                                eq(ncnt(v.U, v.p, at(j)), sub(j, 1)))))


def span_count(v):
    return [('p>=1', le(1, v.p)), ('n>=p', le(v.p, nn(v))), ('r>=1', le(1, v.r)), ('r', eq(v.r, ncnt(v.U, v.p, add(nn(v), 1))))]


def span_loop(arr, cntr, k, off):
    """invariant of the scans which list the nonempty spans"""
    I = lambda s: (lambda j: add(s._e[arr](j), off(s)))
    return dict(
        inv=lambda s: [('counter', eq(s._e[cntr], add(ncnt(s.U, s.p, s._e[k]), 1))), ('within', land(le(1, s._e[cntr]), le(s._e[cntr], add(s.r, 1)))),
                       ('room', imp(le(s._e[k], nn(s)), le(add(ncnt(s.U, s.p, s._e[k]), ite(nz(s.U, s._e[k]), 1, 0)), s.r))),
                       ('listed', forall(lambda j: (rng(1, sub(s._e[cntr], 1), j), land(
                           le(s.p, I(s)(j)), lt(I(s)(j), s._e[k]), nz(s.U, I(s)(j)), eq(ncnt(s.U, s.p, I(s)(j)), sub(j, 1))))))],
        defined={arr: lambda s, j: rng(1, sub(s._e[cntr], 1), j)},
        init_lemmas=lambda s: ncnt_def(s.U, s.p, s.p) + [ncnt_mono(s.U, s.p, add(s.p, 1), add(nn(s), 1))],
        lemmas=lambda s: ncnt_def(s.U, s.p, s._i) + ncnt_def(s.U, s.p, add(s._i, 1)) +
        [ncnt_mono(s.U, s.p, add(s._i, 2), add(nn(s), 1))])


def span_fun(v, j):
    return z3.Function('spanlist:' + symname(v.U), INT, INT, INT)(tz(v.p), tz(j))


contract('bsp.spanindex', pre=span_count, out=lambda v: {'i': lambda j: span_fun(v, j)}, relational=('i',),
         facts=lambda v, o: [span_list(v, o.i, v.r)],
         loops={1: dict(span_loop('i', 's', 'k', lambda s: 0))})

contract('bsp.evalbasisfunsders',
         pre=lambda v: valid(v.U, nn(v), v.p) + given_span(v) + [('d', land(le(0, v.d), le(v.d, v.p)))] +
         [('span not empty', imp(le(0, v.span), lt(v.U(v.span), v.U(add(v.span, 1)))))],
         out=lambda v: {'dn': lambda r, k: nbd(v.U, used_span(v), v.uu, k, v.p, add(sub(used_span(v), v.p), r))})

contract('iga.greville', **C['bsp.greville'])


# ------------------------------------------------------------------ quadrature rules
ROUND = Fraction(1, 10 ** 15)


def rule(name, q, i):
    return z3.Function(name, INT, INT, REAL)(tz(q), tz(i))


def exactness(lobatto):
    def facts(v, o):
        q = v.q
        if not isc(q):                    # the rule as a function of its size; exactness is shown per size
            return []
        X, W = [o.x(i) for i in range(q)], [o.w(i) for i in range(q)]
        out = []
        for k in range(2 * q - 2 if lobatto else 2 * q):
            s = F(0)
            for x, w in zip(X, W):
                t = w
                for _ in range(k):
                    t = mul(t, x)
                s = add(s, t)
            e = sub(s, F(2) / (k + 1) if k % 2 == 0 else F(0))
            out.append(land(le(neg(ROUND), e), le(e, ROUND)))
        out += [lt(a, b) for a, b in zip(X, X[1:])] + [lt(F(0), w) for w in W]
        out += [eq(X[0], F(-1)), eq(X[-1], F(1))] if lobatto else [lt(F(-1), X[0]), lt(X[-1], F(1))]
        return out
    return facts


for _nm, _l in (('gausslegendrerule', False), ('gausslobattorule', True)):
    contract('iga.' + _nm, pre=lambda v: [('q>=1', le(1, v.q))],
             out=lambda v, n=_nm: {'x': lambda i: rule(n + ':x', v.q, i), 'w': lambda i: rule(n + ':w', v.q, i)},
             relational=('x', 'w'), facts=exactness(_l),
             configs=[{'name': 'size %d' % q, 'values': {'q': q}} for q in range(2 if _l else 1, 11)] + [{'name': 'any size'}])


# ------------------------------------------------------------------ tables of basis functions
def gl(v, nm, i):
    return rule('gausslegendrerule:' + nm, v.q, sub(i, 1))


def element_point(v, o, iq, ir):
    k = add(o(ir), v.p)
    a, b = v.U(k), v.U(add(k, 1))
    return add(mul(add(gl(v, 'x', iq), F(1)), rdiv(sub(b, a), F(2))), a)


contract('iga.basisdata',
         pre=lambda v: span_count(v) + [('d', land(le(0, v.d), le(v.d, v.p))), ('q', le(1, v.q)),
                                        ('sorted', mono(v.U, 0, v.m))],
         out=lambda v: {'o': lambda j: sub(span_fun(v, j), v.p), 'j': lambda j: None, 'w': lambda i: gl(v, 'w', i),
                        'x': lambda a, b: None, 'n': lambda *I: None},
         relational=('o', 'j', 'x', 'n'),
         facts=lambda v, o: [
             span_list(v, o.o, v.r, v.p),
             forall(lambda j: (rng(1, v.r, j), eq(o.j(j), rdiv(sub(v.U(add(add(o.o(j), v.p), 1)), v.U(add(o.o(j), v.p))), F(2))))),
             forall(lambda i, j: (land(rng(1, v.q, i), rng(1, v.r, j)), eq(o.x(i, j), element_point(v, o.o, i, j)))),
             forall(lambda k, a, i, j: (land(rng(0, v.d, k), rng(0, v.p, a), rng(1, v.q, i), rng(1, v.r, j)),
                                        eq(o.n(k, a, i, j), nbd(v.U, add(o.o(j), v.p), element_point(v, o.o, i, j), k, v.p, add(o.o(j), a)))))],
         loops={1: dict(span_loop('o', 'ir', 'i', lambda s: s.p))})

contract('iga.basisdatacol',
         pre=lambda v: valid(v.U, nn(v), v.p) + [('d', land(le(0, v.d), le(v.d, v.p))), ('r>=1', le(1, v.r))],
         out=lambda v: {'o': lambda i: sub(span_f(v.U, nn(v), v.p, v.X(i)), v.p),
                        'n': lambda k, a, i: (lambda s: nbd(v.U, s, v.X(i), k, v.p, add(sub(s, v.p), a)))(span_f(v.U, nn(v), v.p, v.X(i)))})


# ------------------------------------------------------------------ uniform knot vectors
def block(s, x):
    """floor division of x by s"""
    return z3.Function('block', INT, INT, INT)(tz(s), tz(x))


def block_def(s, i, j):
    """s*(i-1) + (j-1) lies in block i-1  (0-based), 1 <= j <= s"""
    return imp(land(le(1, j), le(j, s)), eq(block(s, add(mul(s, sub(i, 1)), sub(j, 1))), sub(i, 1)))


def uniform(v, x):
    s = sub(v.p, v.C)
    d = rdiv(sub(v.Uf, v.Ui), toreal(v._e['e']))
    return add(v.Ui, mul(toreal(add(block(s, sub(x, add(v.p, 1))), 1)), d))


def kv_inv(s):
    return [('inner', forall(lambda x: (land(le(add(s.p, 1), x), lt(x, s.k)), eq(s.U(x), uniform(s, x)))))]


def kv_count(s, i, j):
    return eq(s.k, add(add(add(s.p, 1), mul(sub(s.p, s.C), sub(i, 1))), sub(j, 1)))


def kv_final(v, o):
    n = sub(v.m, add(v.p, 1))
    L = sub(v.Uf, v.Ui)
    w = v.wrap
    U = o.u
    return [forall(lambda x: (land(le(add(v.p, 1), x), lt(x, sub(v.m, v.p))), eq(U(x), uniform(v, x)))),
            forall(lambda x: (land(le(0, x), le(x, v.p), lor(lnot(w), lt(v.C, x))), eq(U(x), v.Ui))),
            forall(lambda x: (land(le(sub(v.m, v.p), x), le(x, v.m), lor(lnot(w), lt(x, sub(v.m, v.C)))), eq(U(x), v.Uf))),
            imp(w, forall(lambda k: (rng(0, v.C, k), land(
                eq(U(sub(v.C, k)), sub(U(sub(n, k)), L)), eq(U(add(sub(v.m, v.C), k)), add(U(add(add(v.p, 1), k)), L))))))]


def kv_final(v, o):
    n = sub(v.m, add(v.p, 1))
    L = sub(v.Uf, v.Ui)
    w = v.wrap
    U = o.u
    return [forall(lambda x: (land(le(add(v.p, 1), x), lt(x, sub(v.m, v.p))), eq(U(x), uniform(v, x)))),
            forall(lambda x: (land(le(0, x), le(x, v.p), lor(lnot(w), lt(v.C, x))), eq(U(x), v.Ui))),
            forall(lambda x: (land(le(sub(v.m, v.p), x), le(x, v.m), lor(lnot(w), lt(x, sub(v.m, v.C)))), eq(U(x), v.Uf))),
            forall(lambda k: (land(w, rng(0, v.C, k)), eq(U(sub(v.C, k)), sub(U(sub(n, k)), L)))),
            forall(lambda k: (land(w, rng(0, v.C, k)), eq(U(add(sub(v.m, v.C), k)), add(U(add(add(v.p, 1), k)), L))))]


def kv_ends(s):
    """end knots written so far; everything between as before"""
    return [('left', forall(lambda x: (land(le(0, x), lt(x, s.k)), eq(s.U(x), s.Ui)))),
            ('right', forall(lambda x: (land(lt(sub(s.m, s.k), x), le(x, s.m)), eq(s.U(x), s.Uf)))),
            ('between', forall(lambda x: (land(le(add(s.p, 1), x), lt(x, sub(s.m, s.p))), eq(s.U(x), s.old.U(x)))))]


def kv_wrap(s):
    L = sub(s.Uf, s.Ui)
    n = sub(s.m, add(s.p, 1))
    U, V = s.U, s.old.U
    return [('left', forall(lambda q: (land(le(0, q), lt(q, s.k)), eq(U(sub(s.C, q)), sub(U(sub(n, q)), L))))),
            ('right', forall(lambda q: (land(le(0, q), lt(q, s.k)), eq(U(add(sub(s.m, s.C), q)), add(U(add(add(s.p, 1), q)), L))))),
            ('kept', forall(lambda x: (land(le(0, x), le(x, s.m), lor(le(x, sub(s.C, s.k)), land(lt(s.C, x), lt(x, sub(s.m, s.C))),
                                                                     le(add(sub(s.m, s.C), s.k), x))), eq(U(x), V(x)))))]


contract('iga.knotvector',
         pre=lambda v: [('E', le(1, v._e['e'])), ('p', le(1, v.p)), ('C', land(le(0, v.C), lt(v.C, v.p))),
                        ('m', eq(v.m, add(add(mul(2, v.p), 1), mul(sub(v.p, v.C), sub(v._e['e'], 1)))))],
         pre_lemmas=lambda v: [le(0, mul(sub(v.p, v.C), sub(v._e['e'], 1)))],
         out=lambda v: {'u': lambda x: None}, relational=('u',), facts=kv_final,
         loops={
             1: dict(inv=lambda s: kv_inv(s) + [('position', kv_count(s, s.i, 1))],
                     defined={'u': lambda s, x: land(le(add(s.p, 1), x), lt(x, s.k))}),
             2: dict(inv=lambda s: kv_inv(s) + [
                 ('position', kv_count(s, s.i, s.j)),
                 ('room', le(mul(sub(s.p, s.C), s.i), mul(sub(s.p, s.C), sub(s._e['e'], 1))))],
                 defined={'u': lambda s, x: land(le(add(s.p, 1), x), lt(x, s.k))},
                 init_lemmas=lambda s: [imp(le(s.i, sub(s._e['e'], 1)), le(mul(sub(s.p, s.C), s.i), mul(sub(s.p, s.C), sub(s._e['e'], 1))))],
                 lemmas=lambda s: [block_def(sub(s.p, s.C), s.i, s._i)]),
             3: dict(inv=kv_ends, defined={'u': lambda s, x: lor(lt(x, s.k), lt(sub(s.m, s.k), x),
                                                                land(le(add(s.p, 1), x), lt(x, sub(s.m, s.p))))}),
             4: dict(inv=kv_wrap)})


# ------------------------------------------------------------------ corner cutting
def above_f(U, m, uu):
    f = z3.Function('firstabove:' + symname(U), INT, REAL, INT)
    return f(tz(m), tz(toreal(uu)))


def first_above(U, m, uu):
    """flemmas.py: U(0..m) sorted"""
    l = above_f(U, m, uu)
    return [le(0, l), le(l, add(m, 1)), forall(lambda i: (land(le(0, i), lt(i, l)), le(U(i), uu))),
            forall(lambda i: (land(le(l, i), le(i, m)), lt(uu, U(i))))]


def end_mult(U, n, p, right):
    """multiplicity at an end of the domain as FindMult counts it"""
    uu, i = (U(add(n, 1)), n) if right else (U(p), p)
    return sub(cnt(U, uu, add(add(i, p), 1)), cnt(U, uu, sub(sub(i, p), 1)))


def end_lemmas(U, n, p):
    m = add(add(n, p), 1)
    a, b = U(p), U(add(n, 1))
    l, h = first_f(U, m, a), above_f(U, m, b)
    return first_not_below(U, m, a) + first_above(U, m, b) + [
        count_run(U, a, -1, sub(l, 1), False), count_run(U, a, sub(l, 1), p, True), count_run(U, a, p, add(mul(2, p), 1), False),
        count_run(U, b, sub(sub(n, p), 1), n, False), count_run(U, b, n, sub(h, 1), True), count_run(U, b, sub(h, 1), m, False)]


def end_facts(U, n, p):
    """consequences, proved in the contract of each function which relies on them (facts of end_lemmas)"""
    sL, sR = end_mult(U, n, p, False), end_mult(U, n, p, True)
    return [land(le(1, sL), le(sL, add(p, 1)), le(1, sR), le(sR, add(p, 1)))]


def separated_at(U, n, p, uu, name):
    return [(name + ': ' + nm, g) for nm, g in sep_pre(U, n, p, uu)]


def cornercut(v):
    U, P, n, p, x = v.U, v.Pw, v.n, v.p, v.x
    sL, sR = end_mult(U, n, p, False), end_mult(U, n, p, True)
    k, s = spanmult_f(U, n, p, x, 'k'), spanmult_f(U, n, p, x, 's')
    a, b = U(p), U(add(n, 1))

    def cw(c):
        left = ite(le(p, sL), P(c, 0), bo(U, P, c, p, a, p, sL, sub(p, sL), sub(p, sL)))
        right = ite(le(p, sR), P(c, n), bo(U, P, c, p, b, add(n, sR), sR, sub(p, sR), n))
        mid = ite(le(p, s), P(c, sub(k, p)), bo(U, P, c, p, x, k, s, sub(p, s), sub(k, s)))
        return ite(le(x, a), left, ite(le(b, x), right, mid))
    return {'cw': cw}


def row(s, k, j, mult, uu):
    """Rw holds row j of the triangle"""
    return forall(lambda a, i: (land(comp(s, a), rng(0, sub(s.r, j), i)),
                                eq(s.Rw(a, i), bo(s.U, s.Pw, a, s.p, uu, k, mult, j, add(add(sub(k, s.p), j), i)))))


CC = dict(
    pre=lambda v: valid(v.U, v.n, v.p) + separated_at(v.U, v.n, v.p, v.U(v.p), 'left end') +
    separated_at(v.U, v.n, v.p, v.U(add(v.n, 1)), 'right end') +
    [(nm, Forall(g.vars, land(lt(v.U(v.p), v.x), lt(v.x, v.U(add(v.n, 1))), g.guard), g.body)) for nm, g in separated_at(v.U, v.n, v.p, v.x, 'inside')],
    pre_lemmas=lambda v: end_lemmas(v.U, v.n, v.p) + [imp(land(lt(v.U(v.p), v.x), lt(v.x, v.U(add(v.n, 1)))), f) for f in sep_intro(v.U, v.n, v.p, v.x)])

contract('bspline.curvepntbycornercut', out=cornercut, loops={
    2: dict(inv=lambda s: [('row', row(s, s.k, sub(s.j, 1), s.s, s.uu))],
            defined={'rw': lambda s, a, i: rng(0, add(sub(s.r, s.j), 1), i)},
            init_lemmas=lambda s: [bo_base(s)]),
    3: dict(inv=lambda s: [
        ('new', forall(lambda a, q: (land(comp(s, a), rng(0, sub(s.i, 1), q)),
                                     eq(s.Rw(a, q), bo(s.U, s.Pw, a, s.p, s.uu, s.k, s.s, s.j, add(add(sub(s.k, s.p), s.j), q)))))),
        ('old', forall(lambda a, q: (land(comp(s, a), rng(s.i, add(sub(s.r, s.j), 1), q)),
                                     eq(s.Rw(a, q), bo(s.U, s.Pw, a, s.p, s.uu, s.k, s.s, sub(s.j, 1),
                                                       add(sub(add(sub(s.k, s.p), s.j), 1), q))))))],
            defined={'rw': lambda s, a, i: rng(0, add(sub(s.r, s.j), 1), i)},
            lemmas=lambda s: [bo_def(s, s.j, add(add(sub(s.k, s.p), s.j), s._i))])}, **CC)
contract('bsp.extract', out=cornercut, **CC)


# ------------------------------------------------------------------ clamping
def kntins_out(v):
    uu, k, r, p, U, P = v.uu, v.k, v.r, v.p, v.U, v.Pw
    b = lambda a, q: bo(U, P, a, p, uu, k, sub(p, r), r, q)
    return {'pw': lambda a, i: ite(eq(k, p), b(a, add(i, r)), b(a, i))}


def kntins_pre(v):
    n, p, k, r, U, uu = v.n, v.p, v.k, v.r, v.U, v.uu
    s, m = sub(p, r), add(add(n, p), 1)
    return [('counts', land(le(1, r), le(1, s), le(p, n))), ('where', lor(eq(k, p), land(eq(k, add(n, s)), lt(p, k)))),
            ('sorted', mono(U, 0, m)), ('last copy', eq(U(k), uu)), ('next lower', lt(U(sub(k, s)), uu))]


def kntins_row(s, j):
    return forall(lambda a, i: (land(comp(s, a), rng(0, sub(s.r, j), i)),
                                eq(s.Rw(a, i), bo(s.U, s.Pw, a, s.p, s.uu, s.k, sub(s.p, s.r), j, add(add(sub(s.k, s.p), j), i)))))


def kntins_done(s, hi):
    """Qw(0..hi) and its mirror image hold the coefficients after all insertions"""
    return forall(lambda a, q: (land(comp(s, a), lor(rng(0, hi, q), land(lt(sub(add(s.r, s.r), add(hi, 1)), q), le(q, sub(add(s.r, s.r), 1))))),
                                eq(s.Qw(a, q), bo(s.U, s.Pw, a, s.p, s.uu, s.k, sub(s.p, s.r), s.r, add(sub(s.k, s.p), q)))))


contract('bspline.clampknot.kntins', pre=kntins_pre, out=kntins_out, loops={
    1: dict(inv=lambda s: [('row', kntins_row(s, sub(s.j, 1))), ('done', kntins_done(s, sub(s.j, 1)))],
            defined={'rw': lambda s, a, i: rng(0, add(sub(s.r, s.j), 1), i),
                     'qw': lambda s, a, q: lor(rng(0, sub(s.j, 1), q), land(lt(sub(add(s.r, s.r), s.j), q), le(q, sub(add(s.r, s.r), 1))))},
            init_lemmas=lambda s: [bo_base(s, s=sub(s.p, s.r))] + bo_stable(s, s.r, s=sub(s.p, s.r)),
            lemmas=lambda s: bo_stable(s, s.r, s=sub(s.p, s.r))),
    2: dict(inv=lambda s: [
        ('new', forall(lambda a, q: (land(comp(s, a), rng(0, sub(s.i, 1), q)),
                                     eq(s.Rw(a, q), bo(s.U, s.Pw, a, s.p, s.uu, s.k, sub(s.p, s.r), s.j, add(add(sub(s.k, s.p), s.j), q)))))),
        ('old', forall(lambda a, q: (land(comp(s, a), rng(s.i, add(sub(s.r, s.j), 1), q)),
                                     eq(s.Rw(a, q), bo(s.U, s.Pw, a, s.p, s.uu, s.k, sub(s.p, s.r), sub(s.j, 1),
                                                       add(sub(add(sub(s.k, s.p), s.j), 1), q))))))],
            defined={'rw': lambda s, a, i: rng(0, add(sub(s.r, s.j), 1), i)},
            lemmas=lambda s: [bo_def(s, s.j, add(add(sub(s.k, s.p), s.j), s._i), s=sub(s.p, s.r))])},
    post_lemmas=lambda s, n, a, i: [bo_base(s.old, s=sub(s.p, s.r))] + bo_stable(s.old, s.r, s=sub(s.p, s.r)))


class NamedArr:
    """an auxiliary array of a contract: a function symbol with a definition"""
    def __init__(self, name, rank=1):
        self.sym = z3.Function(name, *([INT] * rank + [REAL]))

    def __call__(self, *i):
        return self.sym(*[tz(x) for x in i])


def left_clamped(v):
    """knots and coefficients after clamping at the left end"""
    return NamedArr('clamped:%s' % symname(v.U)), NamedArr('clamped:%s:%s' % (symname(v.U), symname(v.Pw)), 2)


def clamp_left(v):
    U, P, n, p = v.U, v.Pw, v.n, v.p
    s = end_mult(U, n, p, False)
    r = sub(p, s)
    return (lambda i: ite(lt(i, p), U(p), U(i))), \
        (lambda a, i: ite(lt(s, p), bo(U, P, a, p, U(p), p, s, r, r if i is None else add(i, r)), P(a, i)))


def clamp_right(U, P, n, p):
    s = end_mult(U, n, p, True)
    return (lambda i: ite(lt(add(n, 1), i), U(add(n, 1)), U(i))), \
        (lambda a, i: ite(lt(s, p), bo(U, P, a, p, U(add(n, 1)), add(n, s), s, sub(p, s), i), P(a, i)))


def clamp_defs(v):
    if v.l is not True:
        return []
    U1, P1 = left_clamped(v)
    u, pw = clamp_left(v)
    m = add(add(v.n, v.p), 1)
    return [forall(lambda i: (True, eq(U1(i), u(i)))), forall(lambda a, i: (True, eq(P1(a, i), pw(a, i))))]


def clamp_out(v):
    if not (isinstance(v.l, bool) and isinstance(v.r, bool)):
        raise Unsupported('the sides are enumerated')
    U, P = (v.U, v.Pw) if not v.l else left_clamped(v)
    u, pw = clamp_right(U, P, v.n, v.p) if v.r else ((lambda i: U(i)), (lambda a, i: P(a, i)))
    return u, pw


def clamp_lemmas(v):
    U1 = left_clamped(v)[0] if v.l else v.U
    a, b = end_lemmas(v.U, v.n, v.p), end_lemmas(U1, v.n, v.p)
    return (a[:4] + a[8:11] if v.l else []) + (b[4:8] + b[11:] if v.r else [])


def clamp_snap(key, e):
    if 'u' not in e or e.U.sym is not None or key not in ('bspline.findmult', 'bspline.clampknot.kntins'):
        return {}
    nm = {'u': z3.Function('clamped:u', INT, REAL)}
    if key.endswith('kntins'):
        nm['pw'] = z3.Function('clamped:u:pw', INT, INT, REAL)
    return nm


SIDES = [{'name': 'l=%s r=%s' % (l, r), 'values': {'l': l, 'r': r}} for l in (False, True) for r in (False, True)]
CLAMP = dict(
    pre=lambda v: valid(v.U, v.n, v.p) + separated_at(v.U, v.n, v.p, v.U(v.p), 'left end') +
    separated_at(v.U, v.n, v.p, v.U(add(v.n, 1)), 'right end'))
contract('bspline.clampknot', defs=clamp_defs,
         side=lambda v: [mono(left_clamped(v)[0], 0, add(add(v.n, v.p), 1))] if v.l else [],
         pre_lemmas=clamp_lemmas, snap=clamp_snap, configs=SIDES,
         out=lambda v: dict(zip(('u', 'pw'), clamp_out(v))), facts=lambda v, o: [], **CLAMP)
contract('bsp.clamp', snap=lambda key, e: {'u': z3.Function('u', INT, REAL), 'pw': z3.Function('pw', INT, INT, REAL)},
         configs=SIDES, out=lambda v: dict(zip(('v', 'qw'), clamp_out(v))), **CLAMP)


# ------------------------------------------------------------------ unclamping
def unl_knots(v):
    """knots after unclamping at the left end; over the current ones at the right end"""
    return NamedArr('unclampedl:%s' % symname(v.U))


def unr_knots(v):
    return NamedArr('unclampedr:%s' % symname(v.U))


def un(v, side, a, i, j):
    f = z3.Function('un%s:%s:%s' % (side, symname(v.U), symname(v.Pw)), INT, INT, INT, INT, INT, INT, REAL)
    return f(tz(v.n), tz(v.p), tz(v.C), tz(a), tz(i), tz(j))


def un_knots_defs(v):
    U, n, p, C = v.U, v.n, v.p, v.C
    m, per, sh = add(add(n, p), 1), sub(U(add(n, 1)), U(p)), sub(n, C)
    V1, V2 = unl_knots(v), unr_knots(v)
    W = V1 if v.l else U
    out = []
    if v.l:
        out += [forall(lambda x: (lt(C, x), eq(V1(x), U(x)))),
                forall(lambda x: (land(le(0, x), le(x, C)), eq(V1(x), sub(V1(add(x, sh)), per))))]
    if v.r:
        out += [forall(lambda x: (lt(x, sub(m, C)), eq(V2(x), W(x)))),
                forall(lambda x: (land(le(sub(m, C), x), le(x, m)), eq(V2(x), add(V2(sub(x, sh)), per))))]
    return out


def un_alpha(v, side, i, j):
    n, p = v.n, v.p
    if side == 'l':
        V = unl_knots(v)
        b = V(sub(sub(add(p, j), i), 1))
        return rdiv(sub(V(p), b), sub(V(add(add(p, j), 1)), b))
    V = unr_knots(v)
    b = V(sub(n, j))
    return rdiv(sub(V(add(n, 1)), b), sub(V(add(sub(add(n, i), j), 2)), b))


def un_start(v, side):
    """coefficients the steps start from"""
    if side == 'r' and v.l:
        return lambda a, j: un(v, 'l', a, sub(v.p, 2), sub(v.n, j))
    return (lambda a, j: v.Pw(a, j)) if side == 'l' else (lambda a, j: v.Pw(a, sub(v.n, j)))


def un_base(v, side):
    f = un_start(v, side)
    return forall(lambda a, j: (True, eq(un(v, side, a, sub(sub(v.p, v.C), 2), j), f(a, j))))


def un_def(v, side, i, j):
    """step i > p-C-2; the coefficients beyond j = i stay"""
    al = un_alpha(v, side, i, j)
    w = (al, sub(F(1), al)) if side == 'l' else (sub(F(1), al), al)
    return forall(lambda a: (True, eq(un(v, side, a, i, j), ite(lt(i, j), un(v, side, a, sub(i, 1), j), rdiv(
        sub(un(v, side, a, sub(i, 1), j), mul(w[0], un(v, side, a, i, add(j, 1)))), w[1])))))


def un_keep(v, side, i):
    """un_def at j > i"""
    return forall(lambda a, j: (lt(i, j), eq(un(v, side, a, i, j), un(v, side, a, sub(i, 1), j))))


def un_at(s, side, j):
    return j if side == 'l' else sub(s.n, j)


def un_loops(side, k0):
    V = unl_knots if side == 'l' else unr_knots
    o = lambda s: s.old
    at = un_at
    me = lambda s: View(dict(s._e, u=s0u(s), pw=s0p(s)))
    if side == 'l':
        head = lambda s: [('set', forall(lambda x: (land(lt(sub(s.C, s.i), x), le(x, add(add(s.n, s.p), 1))), eq(s.U(x), V(me(s))(x))))),
                          ('kept', forall(lambda x: (land(le(0, x), le(x, sub(s.C, s.i))), eq(s.U(x), s.old.U(x))))),
                          ('below', forall(lambda x: (land(le(0, x), le(x, s.n)), le(s.U(x), s.U(s.n))))),
                          ('strict', forall(lambda x: (land(le(0, x), le(x, s.C), lt(sub(s.C, s.i), x)), lt(s.U(x), s.U(s.p)))))]
    else:
        M = lambda s: sub(add(add(s.n, s.p), 1), s.C)
        head = lambda s: [('set', forall(lambda x: (land(le(0, x), lt(x, add(M(s), s.i))), eq(s.U(x), V(me(s))(x))))),
                          ('kept', forall(lambda x: (land(le(add(M(s), s.i), x), le(x, add(add(s.n, s.p), 1))), eq(s.U(x), s.old.U(x))))),
                          ('above', forall(lambda x: (land(le(add(s.p, 1), x), le(x, add(add(s.n, s.p), 1))), lt(s.U(s.p), s.U(x))))),
                          ('strict', forall(lambda x: (land(le(M(s), x), lt(x, add(M(s), s.i))), lt(s.U(add(s.n, 1)), s.U(x)))))]
    return {
        k0: dict(inv=head),
        k0 + 1: dict(inv=lambda s: [('step', forall(lambda a, j: (land(comp(s, a), rng(0, s.n, j)),
                                                                  eq(s.Pw(a, at(s, side, j)), un(me(s), side, a, sub(s.i, 1), j)))))],
                     init_lemmas=lambda s: [un_base(me(s), side)],
                     lemmas=lambda s: [un_keep(me(s), side, s._i)]),
        k0 + 2: dict(inv=lambda s: [
            ('new', forall(lambda a, j: (land(comp(s, a), rng(add(s.j, 1), s.n, j)), eq(s.Pw(a, at(s, side, j)), un(me(s), side, a, s.i, j))))),
            ('old', forall(lambda a, j: (land(comp(s, a), rng(0, s.j, j)),
                                         eq(s.Pw(a, at(s, side, j)), un(me(s), side, a, sub(s.i, 1), j)))))],
            init_lemmas=lambda s: [un_keep(me(s), side, s.i)],
            lemmas=lambda s: [un_def(me(s), side, s.i, s._i)])}


UNARGS = {}


def s0u(s):
    return UNARGS['u']


def s0p(s):
    return UNARGS['pw']


def clamped_at(v):
    m = add(add(v.n, v.p), 1)
    return ([('clamped at the left end', forall(lambda i: (rng(0, v.p, i), eq(v.U(i), v.U(v.p)))))] if v.l else []) + \
        ([('clamped at the right end', forall(lambda i: (rng(add(v.n, 1), m, i), eq(v.U(i), v.U(add(v.n, 1))))))] if v.r else [])


def un_pre(v):
    if not (isinstance(v.l, bool) and isinstance(v.r, bool)):
        raise Unsupported('the sides are enumerated')
    UNARGS.update(u=v.U, pw=v.Pw)
    return valid(v.U, v.n, v.p) + [('C', land(le(0, v.C), lt(v.C, v.p)))] + clamped_at(v)


def un_out(v):
    U = unr_knots(v) if v.r else unl_knots(v) if v.l else v.U
    if v.r:
        P = lambda a, x: un(v, 'r', a, sub(v.p, 2), sub(v.n, x))
    else:
        P = (lambda a, x: un(v, 'l', a, sub(v.p, 2), x)) if v.l else (lambda a, x: v.Pw(a, x))
    return (lambda x: U(x)), P


contract('bspline.unclampknot', pre=un_pre, defs=un_knots_defs, configs=SIDES, out=lambda v: dict(zip(('u', 'pw'), un_out(v))),
         loops=dict(list(un_loops('l', 1).items()) + list(un_loops('r', 4).items())),
         post_lemmas=lambda s, n, *I: [un_base(s.old, 'l'), un_base(s.old, 'r')])


def all_clamped(v):
    return View(dict(v._e, u=NamedArr('clampedall:u'), pw=NamedArr('clampedall:u:pw', 2)))


def unclamp_defs(v):
    u, pw = clamp_out(v)
    w = all_clamped(v)
    return clamp_defs(v) + [forall(lambda i: (True, eq(w.U(i), u(i)))), forall(lambda a, i: (True, eq(w.Pw(a, i), pw(a, i))))]


def unclamp_snap(key, e):
    if key == 'bspline.clampknot':
        return {'u': z3.Function('u', INT, REAL), 'pw': z3.Function('pw', INT, INT, REAL)}
    if key == 'bspline.unclampknot':
        return {'u': z3.Function('clampedall:u', INT, REAL), 'pw': z3.Function('clampedall:u:pw', INT, INT, REAL)}
    return {}


contract('bsp.unclamp', pre=lambda v: CLAMP['pre'](v) + [('C', land(le(0, v.C), lt(v.C, v.p)))], defs=unclamp_defs, snap=unclamp_snap,
         configs=SIDES, out=lambda v: dict(zip(('v', 'qw'), un_out(all_clamped(v)))))
