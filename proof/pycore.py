"""Symbolic objects, comparison of results, discharge of obligations (engine B)."""
import time
import z3
from terms import *
from sym import *
import sym, symnp, kern, prover
from symnp import SArr, fresh_arr
from kern import RANGES, opaque, lam


# ------------------------------------------------------------------ inputs
class Obj:
    """a symbolic valid object and its specification-level view"""
    def __init__(self, c, mod, dim, comps=None, tag='', weights='positive', valid=True, mult=True):
        self.dim, self.tag = dim, tag
        self.p = [z3.Int('p%s%d' % (tag, k)) for k in range(dim)]
        self.N = [z3.Int('N%s%d' % (tag, k)) for k in range(dim)]
        self.comps = comps if comps is not None else z3.Int('comps%s' % tag)
        A = z3.Function('A%s' % tag, *([INT] * (dim + 1) + [REAL]))
        Us = [z3.Function('U%s%d' % (tag, k), INT, REAL) for k in range(dim)]
        self.A = lambda *ix: A(*[tz(i) for i in ix])
        self.U = [(lambda i, f=f: f(tz(i))) for f in Us]
        self.facts = []
        if comps is None:
            self.facts.append(self.comps >= 4)
        for p, N, U in zip(self.p, self.N, self.U):
            n = N - 1
            i, j = fint('i'), fint('j')
            self.facts += [p >= 1, N >= p + 1,
                           Forall([i, j], land(le(0, i), le(i, j), le(j, add(N, p))), le(U(i), U(j))),
                           U(p) < U(p + 1), U(n) < U(N)]
            if mult:
                k = fint('i')
                self.facts.append(Forall([k], land(le(1, k), lt(k, sub(N, 0))), lt(U(k), U(add(k, p)))))
        if weights:
            vs = [fint('i') for _ in range(dim)]
            g = land(*[land(le(0, v), lt(v, N)) for v, N in zip(vs, self.N)])
            self.facts.append(Forall(vs, g, lt(Fraction(0), self.A(*(vs + [3])))))
        c.assume(*self.facts)
        self.arr = fresh_arr(self.N + [self.comps], lambda ix: A(*[tz(i) for i in ix]), 'd', 'array' + tag)
        self.kn = [fresh_arr([N + p + 1], lambda ix, f=f: f(tz(ix[0])), 'd', 'knots%s%d' % (tag, k))
                   for k, (N, p, f) in enumerate(zip(self.N, self.p, Us))]
        self.nrb = mod.NURBS.__new__(mod.NURBS)
        self.nrb._array = self.arr
        self.nrb._knots = tuple(self.kn)
        self.arr0, self.kn0 = self.arr, tuple(self.kn)

    def lo(self, k):
        return self.U[k](self.p[k])

    def hi(self, k):
        return self.U[k](self.N[k])

    def axes(self):
        return [(sub(N, 1), p, U) for N, p, U in zip(self.N, self.p, self.U)]


def vec(name, n, real=True, origin='argument'):
    f = z3.Function(name, INT, REAL if real else INT)
    return fresh_arr([n], lambda ix: f(tz(ix[0])), 'd' if real else 'i', origin and origin + ' ' + name), (lambda i: f(tz(i)))


def frame(c, what='frame'):
    """inputs and previously visible arrays keep their contents"""
    for b in c.inputs:
        if not b.written:
            c.ob('%s: %s not written' % (what, b.origin), True, 'frame')
            continue
        vs = [fint('i') for _ in b.ext]
        g = land(*[land(le(0, v), lt(v, e)) for v, e in zip(vs, b.ext)])
        c.ob('%s: %s unchanged' % (what, b.origin), Forall(vs, g, eq(b.get(tuple(vs)), b.get0(tuple(vs)))), 'frame')


def unchanged(c, o, what='object unchanged'):
    nrb = o.nrb
    c.ob('%s: array kept' % what, nrb._array is o.arr0, 'frame')
    c.ob('%s: knots kept' % what, len(nrb._knots) == len(o.kn0) and all(a is b for a, b in zip(nrb._knots, o.kn0)), 'frame')


def bad(c, name, what):
    c.ob('%s: %s' % (name, what), False)


def array_is(c, name, arr, ext, val, hints=None):
    """arr has the extents ext (one term per python dimension) and contents val(i, j, ..., one term each)"""
    if not isinstance(arr, SArr):
        if not ext and isinstance(arr, (SNum, int, Fraction)):
            c.ob(name, eq(toreal(term(arr)), toreal(val())))
            return
        return bad(c, name, 'is not an array (%s)' % type(arr).__name__)
    if arr.ndim != len(ext):
        return bad(c, name, 'has %d dimensions instead of %d' % (arr.ndim, len(ext)))
    for d, e in enumerate(ext):
        c.ob('%s: extent %d' % (name, d), eq(arr.dext(d), e), 'post', hints)
    vs, ix, g = [], [], True
    for d, e in enumerate(ext):
        if isc(e) and e == 1:
            ix.append(0)
            continue
        if len(arr.dims[d]) > 1:
            return bad(c, name, 'grouped dimension %d' % d)
        v = fint('i')
        vs.append(v)
        ix.append(v)
        g = land(g, le(0, v), lt(v, e))
    small = [k for k, e in enumerate(ext) if isc(e) and 1 < e <= 4]
    # constant small extents are enumerated
    import itertools
    rng_ = [range(ext[k]) for k in small]
    for combo in itertools.product(*rng_):
        jx = list(ix)
        for k, q in zip(small, combo):
            jx[k] = q
        left = [v for v in vs if any(v is x for x in jx)]
        gg = land(*[land(le(0, x), lt(x, e)) for x, e in zip(jx, ext) if not isc(x)])
        l, r = arr.el(*jx), val(*jx)
        if arr.buf.dtype == 'd':
            l, r = toreal(l), toreal(r)
        g2 = eq(l, r)
        nm = name + ''.join('[%d]' % q for q in combo)
        c.ob('%s: contents' % nm, Forall(left, gg, g2) if left and not isinstance(g2, bool) else imp(gg, g2), 'post', hints)


def valid_result(c, name, knots, p, N, U=None, hints=None):
    """class invariant of one direction of a result: knots function U, degree p, N control points"""
    i, j = fint('i'), fint('j')
    c.ob('%s: degree' % name, le(1, p), 'invariant', hints)
    c.ob('%s: enough control points' % name, le(add(p, 1), N), 'invariant', hints)
    c.ob('%s: knots sorted' % name, Forall([i], land(le(0, i), lt(i, add(N, p))), le(U(i), U(add(i, 1)))), 'invariant', hints)
    c.ob('%s: first span' % name, lt(U(p), U(add(p, 1))), 'invariant', hints)
    c.ob('%s: last span' % name, lt(U(sub(N, 1)), U(N)), 'invariant', hints)


def spline_at(axes, val, params):
    """tensor-product spline; axes = [(n, p, U)]"""
    d = len(axes)
    a = []
    for n, p, U in axes:
        a += [n, p, lam(1, U)]
    return opaque('point%d' % d, REAL, *(a + [lam(d, val)] + [toreal(x) for x in params]), ranges=kern.ev_ranges(d, 1))


# ------------------------------------------------------------------ discharge
def kernel_apps(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(z3.is_quantifier(a) for a in x.children()):
                out.append(x)
                continue
            st.extend(x.children())
    return out


def apps_equal(a, b, hyps, depth):
    if a.eq(b):
        return True
    if not a.decl().eq(b.decl()) or depth > 5:
        return False
    if a.decl().name() in ('SUM', 'ISUM'):
        ok = all(x.eq(y) or dis(hyps, x == y, depth + 1) for x, y in ((a.arg(1), b.arg(1)), (a.arg(2), b.arg(2))))
        if not ok:
            return False
        k = fint('k')
        l, r = z3.substitute_vars(a.arg(0).body(), k), z3.substitute_vars(b.arg(0).body(), k)
        return dis(hyps + [a.arg(1) <= k, k <= a.arg(2)], norm(l) == norm(r), depth + 1)
    rg = RANGES.get(a.decl().name())
    ranges = rg(a.children()) if rg else {}
    # plain arguments first: ranges may then be taken from either side
    for k in range(a.num_args()):
        x, y = a.arg(k), b.arg(k)
        if z3.is_quantifier(x) or z3.is_quantifier(y):
            continue
        if not x.eq(y) and not dis(hyps, x == y, depth + 1):
            return False
    for k in range(a.num_args()):
        x, y = a.arg(k), b.arg(k)
        if not (z3.is_quantifier(x) and z3.is_quantifier(y)):
            if z3.is_quantifier(x) != z3.is_quantifier(y):
                return False
            continue
        if x.eq(y):
            continue
        nv = x.num_vars()
        ks = [fint('k') for _ in range(nv)]
        l = z3.substitute_vars(x.body(), *ks[::-1])
        r = z3.substitute_vars(y.body(), *ks[::-1])
        g = []
        for q, v in zip(ranges.get(k, []), ks):
            g += [v >= 0, v < tz(q)]
        if not dis(hyps + g, norm(l) == norm(r), depth + 1):
            return False
    return True


def dis(hyps, goal, depth=0):
    """discharge goal under hyps, kernel results equal when their arguments are"""
    if isinstance(goal, bool):
        return goal
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    if z3.is_eq(goal):
        l, r = goal.arg(0), goal.arg(1)
        L, R = kernel_apps(l), kernel_apps(r)
        if L and R:
            pairs = []
            rest = list(R)
            for a in L:
                for b in rest:
                    if apps_equal(a, b, hyps, depth):
                        c = fresh('k', a.sort())
                        pairs += [(a, c), (b, c)]
                        rest.remove(b)
                        break
            if pairs:
                goal = z3.substitute(goal, *pairs)
                if z3.is_true(z3.simplify(goal)):
                    return True
    ob = Obl('', hyps, goal, '')
    return prover.prove(ob)[0] == 'proved'


def has_kernel(t):
    return bool(kernel_apps(t))


def direct(hyps, g, vs):
    ng = z3.Not(g)
    ground = [h for h in hyps if z3.is_expr(h)] + [ng]
    fas = [h for h in hyps if isinstance(h, Forall)]
    for rounds, cap, ms in ((1, 600, 600), (2, 1500, 1500), (3, 4000, 2500)):
        inst = prover.instantiate(ground, fas, rounds, cap, ints=vs)
        if prover.check(ground + inst, ms)[0] == 'unsat':
            return 'z3/named'
    if prover.check(ground + [f.z3() for f in fas], 1500)[0] == 'unsat':
        return 'z3/named-quant'
    return None


def discharge(ob):
    """('proved', by) / ('open', why, model)"""
    g = ob.goal
    hyps = [h for h in ob.hyps]
    vs = [v for v in g.vars if v.sort() == INT] if isinstance(g, Forall) else []
    if isinstance(g, Forall):
        if isinstance(g.body, bool) and g.body:
            return 'proved', 'trivial'
        if g.guard is not True:
            hyps = hyps + [tz(g.guard)] if not isinstance(g.guard, bool) else hyps
        g = g.body
    if isinstance(g, bool):
        if g:
            return 'proved', 'evaluation'
        g = z3.BoolVal(False)
    s = z3.simplify(g)
    if z3.is_true(s):
        return 'proved', 'evaluation'
    if ob.hints.get('ring') and z3.is_eq(g):
        # an identity of polynomials modulo the equations of the hypotheses
        import ratfun
        try:
            if ratfun.identity(g, [h for h in hyps if z3.is_expr(h)], prover.check):
                return 'proved', 'ratfun'
        except ratfun.Giveup:
            pass
        r = prover.check([h for h in hyps if z3.is_expr(h)] + [z3.Not(g)], 1500)
        return ('proved', 'z3') if r[0] == 'unsat' else ('open', 'no polynomial identity; %s' % r[0], r[1])
    if ob.hints.get('using'):
        # first with the hypotheses the specification names
        sel = [h for h in ob.hints['using'] if not isinstance(h, bool)] + hyps[len(ob.hyps):]
        r = direct(sel, g, vs)
        if r:
            return 'proved', r
    ground = [h for h in hyps if z3.is_expr(h)]
    fas = [h for h in hyps if isinstance(h, Forall)]
    if any(h is False for h in hyps):
        return 'proved', 'contradiction'
    ng = z3.Not(g)
    lin = [h for h in ground if not prover.nonlinear(h)]
    if len(lin) < len(ground):
        # most goals do not depend on the nonlinear facts
        if prover.check(lin + [ng], 300)[0] == 'unsat':
            return 'proved', 'z3'
        inst = [h for h in prover.instantiate(lin + [ng], fas, 1, 600, ints=vs) if not prover.nonlinear(h)]
        if inst and prover.check(lin + inst + [ng], 600)[0] == 'unsat':
            return 'proved', 'z3/inst1'
    if prover.check(ground + [ng], 300)[0] == 'unsat':
        return 'proved', 'z3'
    inst = prover.instantiate(ground + [ng], fas, 1, 600, ints=vs)
    if inst and prover.check(ground + inst + [ng], 600)[0] == 'unsat':
        return 'proved', 'z3/inst1'
    inst = prover.instantiate(ground + [ng], fas, 2, 1500, ints=vs)
    if inst and prover.check(ground + inst + [ng], 1500)[0] == 'unsat':
        return 'proved', 'z3/inst'
    if z3.is_eq(g):
        if has_kernel(g) and dis(hyps, g):
            return 'proved', 'congruence'
        if cases(ground, fas, inst, g):
            return 'proved', 'cases'
    o = Obl(ob.name, hyps, g, ob.kind, ob.hints)
    return prover.prove(o)


def ites(t, acc, seen, depth=0):
    if t.get_id() in seen or z3.is_quantifier(t):
        return
    seen.add(t.get_id())
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_ITE:
            acc.append(t.arg(0))
        for x in t.children():
            ites(x, acc, seen)


def cases(ground, fas, inst, g, depth=0):
    """case distinction over the conditions of an equation, congruence at the leaves"""
    while True:
        acc = []
        ites(g, acc, set())
        if not acc:
            return depth > 0 and dis(ground + fas, g)
        cnd = acc[0]
        open_ = [v for v in (cnd, z3.Not(cnd)) if prover.check(ground + inst + [v], 400)[0] != 'unsat']
        if not open_:
            return True
        if len(open_) == 2:
            break
        g = z3.simplify(z3.substitute(g, (cnd, z3.BoolVal(open_[0] is cnd))))
        depth += 0.01
        if z3.is_true(g):
            return True
    if depth > 7:
        return False
    for v in (cnd, z3.Not(cnd)):
        g2 = z3.simplify(z3.substitute(g, (cnd, z3.BoolVal(v is cnd))))
        if z3.is_true(g2):
            continue
        b = ground + [v]
        if prover.check(b + inst + [z3.Not(g2)], 500)[0] == 'unsat':
            continue
        if not z3.is_eq(g2):
            return False
        if not cases(b, fas, inst, g2, depth + 1):
            return False
    return True
