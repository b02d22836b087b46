"""Equality of real terms as a polynomial identity.

goal  l == r  under ground equalities: atoms (variables, uninterpreted applications, quotients that are
not folded) are generators; fractions are brought over a common denominator after every denominator has
been shown non-zero from the hypotheses.  Equations  atom == term  among the hypotheses are used as
rewrite rules for the atoms of the goal.
"""
from fractions import Fraction
import z3
from terms import *


class Giveup(Exception):
    pass


LIMIT = 20000


def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        x = r.get(k, 0) + s * v
        if x:
            r[k] = x
        else:
            r.pop(k, None)
    return r


def mmul(m, n):
    d = dict(m)
    for k, e in n:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > LIMIT:
        raise Giveup
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + x * y
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


class Conv:
    def __init__(self, rules):
        self.atoms, self.rules, self.dens = {}, rules, {}
        self.cache = {}
        self.depth = 0

    def atom(self, t):
        k = t.get_id()
        self.atoms[k] = t
        return {((k, 1),): Fraction(1)}, ONE

    def go(self, t):
        """(num, den) polynomials"""
        k = t.get_id()
        if k in self.cache:
            return self.cache[k]
        r = self.go1(t)
        self.cache[k] = r
        return r

    def go1(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = norm(t)
            return ({(): Fraction(v)} if v else {}), ONE
        if z3.is_app(t):
            d = t.decl().kind()
            if d == z3.Z3_OP_ADD or d == z3.Z3_OP_SUB:
                acc = None
                for n, c in enumerate(t.children()):
                    p = self.go(c)
                    if acc is None:
                        acc = p
                    else:
                        acc = self.plus(acc, p, -1 if d == z3.Z3_OP_SUB else 1)
                return acc
            if d == z3.Z3_OP_UMINUS:
                n, e = self.go(t.arg(0))
                return {k: -v for k, v in n.items()}, e
            if d == z3.Z3_OP_MUL:
                n, e = ONE, ONE
                for c in t.children():
                    a, b = self.go(c)
                    n, e = pmul(n, a), pmul(e, b)
                return n, e
            if d == z3.Z3_OP_DIV:
                a, b = self.go(t.arg(0))
                c, e = self.go(t.arg(1))
                if not c:
                    raise Giveup
                self.dens[t.arg(1).get_id()] = t.arg(1)
                return pmul(a, e), pmul(b, c)
            if d == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
                n = norm(t.arg(1))
                if n == int(n) and 0 <= n <= 8:
                    a, b = self.go(t.arg(0))
                    x, y = ONE, ONE
                    for _ in range(int(n)):
                        x, y = pmul(x, a), pmul(y, b)
                    return x, y
        if t.get_id() in self.rules:
            if self.depth > 40:
                raise Giveup
            self.depth += 1
            r = self.go(self.rules[t.get_id()])
            self.depth -= 1
            return r
        return self.atom(t)

    def plus(self, a, b, s):
        if a[1] == b[1]:
            return padd(a[0], b[0], s), a[1]
        return padd(pmul(a[0], b[1]), pmul(b[0], a[1]), s), pmul(a[1], b[1])


def identity(goal, hyps, check, tmo=2000):
    goal = z3.simplify(goal, som=False, arith_lhs=False)
    if z3.is_true(goal):
        return True
    if not z3.is_eq(goal):
        return False
    base = [h for h in hyps]
    if find_ite(goal) is None:
        # without rewriting first
        try:
            c = Conv({})
            ln, ld = c.go(goal.arg(0))
            rn, rd = c.go(goal.arg(1))
            if not padd(pmul(ln, rd), pmul(rn, ld), -1):
                if all(nonzero(t, base, check, tmo) for t in c.dens.values()):
                    return True
        except Giveup:
            pass
    # resolve if-then-else in the goal with the hypotheses
    goal = resolve_ite(goal, base, check)
    if z3.is_true(goal):
        return True
    rules = {}
    simplified = []
    for h in hyps:
        h = z3.simplify(h, arith_lhs=False)
        if z3.is_implies(h) or z3.is_or(h):
            h2 = strip(h, base, check)
            if h2 is None:
                continue
            h = h2
        stack = [h]
        while stack:
            x = stack.pop()
            if z3.is_and(x):
                stack.extend(x.children())
            elif z3.is_eq(x) and x.arg(0).sort() == REAL:
                simplified.append(x)
    for x in simplified:
        a, b = x.arg(0), x.arg(1)
        for l, r in ((a, b), (b, a)):
            if isatom(l) and l.get_id() not in rules and not occurs(l, r):
                r = resolve_ite(r, base, check)
                rules[l.get_id()] = r
                keep.append(l)
                keep.append(r)
                break
    c = Conv(rules)
    ln, ld = c.go(goal.arg(0))
    rn, rd = c.go(goal.arg(1))
    d = padd(pmul(ln, rd), pmul(rn, ld), -1)
    if d:
        d = reduce_squares(d, squares(base))
    if d:
        return False
    return all(nonzero(t, base, check, tmo) for t in c.dens.values())


def squares(hyps):
    """atoms a with a hypothesis a^2 + b^2 == 1 (sines and cosines): a -> polynomial equal to a^2"""
    out = {}
    for h in hyps:
        h = z3.simplify(h, arith_lhs=False)
        if not z3.is_eq(h) or h.arg(0).sort() != REAL:
            continue
        try:
            c = Conv({})
            l, r = c.go(h.arg(0)), c.go(h.arg(1))
        except Giveup:
            continue
        if l[1] != ONE or r[1] != ONE:
            continue
        p = padd(l[0], r[0], -1)
        m = [k for k in p if k]
        if len(p) == 3 and len(m) == 2 and all(len(k) == 1 and k[0][1] == 2 for k in m) and \
                p[m[0]] == p[m[1]] == -p.get((), 0):
            a, b = sorted(k[0][0] for k in m)
            if a not in out:
                out[a] = {(): Fraction(1), ((b, 2),): Fraction(-1)}
                keep.append(h)
    return out


def reduce_squares(p, sq):
    for _ in range(40):
        hit = None
        for m in p:
            for a, e in m:
                if e >= 2 and a in sq:
                    hit = a
                    break
            if hit:
                break
        if hit is None:
            return p
        out = {}
        for m, x in p.items():
            e = dict(m).get(hit, 0)
            if e < 2:
                out = padd(out, {m: x})
                continue
            rest = tuple(sorted([(k, v) for k, v in m if k != hit] + ([(hit, e - 2)] if e > 2 else [])))
            out = padd(out, pmul({rest: x}, sq[hit]))
        p = out
    return p


def nonzero(t, base, check, tmo):
    ids = {z3.simplify(t == 0).get_id(), (t == 0).get_id(), z3.simplify(0 == t).get_id()}
    for h in base:
        h = h if z3.is_not(h) else z3.simplify(h)
        if z3.is_not(h) and (h.arg(0).get_id() in ids or z3.simplify(h.arg(0)).get_id() in ids):
            return True
    return check(base + [t == 0], tmo)[0] == 'unsat'


keep = []


def isatom(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0


def occurs(l, r):
    st, seen = [r], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(l):
            return True
        if not z3.is_quantifier(x):
            st.extend(x.children())
    return False


def resolve_ite(t, base, check):
    for _ in range(40):
        i = find_ite(t)
        if i is None:
            return t
        c = i.arg(0)
        r, _ = check(base + [z3.Not(c)], 1000)
        if r == 'unsat':
            t = z3.substitute(t, (i, i.arg(1)))
            continue
        r, _ = check(base + [c], 1000)
        if r == 'unsat':
            t = z3.substitute(t, (i, i.arg(2)))
            continue
        raise Giveup
    return t


def find_ite(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return x
        st.extend(x.children())
    return None


def strip(h, base, check):
    """h with its antecedent removed if the hypotheses imply the antecedent"""
    if z3.is_implies(h):
        r, _ = check(base + [z3.Not(h.arg(0))], 500)
        return h.arg(1) if r == 'unsat' else None
    lits = h.children()
    pos = [l for l in lits if z3.is_eq(l) or z3.is_and(l)]
    if len(pos) != 1:
        return None
    rest = [l for l in lits if not l.eq(pos[0])]
    r, _ = check(base + [z3.Or(*rest)] if rest else base, 500)
    return pos[0] if r == 'unsat' else None
