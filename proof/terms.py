"""Term layer: python numbers are folded, everything else is z3 (mathematical Int/Real/Bool)."""
from fractions import Fraction
import itertools
import z3

_ctr = itertools.count()


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_ctr)), sort)


def fint(n):
    return fresh(n, z3.IntSort())


def ffun(name, *sorts):
    return z3.Function('%s!%d' % (name, next(_ctr)), *sorts)


INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SORT = {'int': INT, 'real': REAL, 'log': BOOL}


def isc(x):
    return isinstance(x, (int, Fraction, bool))


def isint(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (z3.is_expr(x) and x.sort() == INT)


def tz(x, real=None):
    """to z3"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.RealVal(x) if real else z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if real and x.sort() == INT:
        return z3.ToReal(x)
    return x


def norm(x):
    """python number if x is a numeral"""
    if z3.is_expr(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def simp(x):
    if isc(x):
        return x
    return norm(z3.simplify(x))


def simpi(x):
    """simplify integer index terms only (cheap, keeps them canonical)"""
    if isc(x):
        return x
    return norm(z3.simplify(x, som=True)) if x.sort() == INT else x


def both(a, b):
    real = isinstance(a, Fraction) or isinstance(b, Fraction) or \
        (z3.is_expr(a) and a.sort() == REAL) or (z3.is_expr(b) and b.sort() == REAL)
    return tz(a, real), tz(b, real)


def add(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0 and not (isinstance(a, Fraction) and isint(b)):
        return b
    if isc(b) and b == 0 and not (isinstance(b, Fraction) and isint(a)):
        return a
    x, y = both(a, b)
    return simpi(x + y)


def sub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0 and not (isinstance(b, Fraction) and isint(a)):
        return a
    x, y = both(a, b)
    return simpi(x - y)


def mul(a, b):
    if isc(a) and isc(b):
        return a * b
    for p, q in ((a, b), (b, a)):
        if isc(p) and not isinstance(p, bool):
            if p == 1 and not (isinstance(p, Fraction) and isint(q)):
                return q
            if p == 0:
                return Fraction(0) if (isinstance(p, Fraction) or not isint(q)) else 0
    x, y = both(a, b)
    return simpi(x * y)


def neg(a):
    return -a if isc(a) else simpi(-a)


def toreal(a):
    if isinstance(a, bool):
        raise TypeError('logical as number')
    if isinstance(a, int):
        return Fraction(a)
    if isinstance(a, Fraction):
        return a
    return z3.ToReal(a) if a.sort() == INT else a


def rdiv(a, b):
    a, b = toreal(a), toreal(b)
    if isc(a) and isc(b):
        return a / b
    if isc(b):
        return mul(a, 1 / b)
    if isc(a) and a == 0:
        return a
    return tz(a) / tz(b)


def idiv(a, b):
    """Fortran integer division: truncation"""
    if isc(a) and isc(b):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b > 0) else -q
    a, b = tz(a), tz(b)
    if z3.is_int_value(b) and b.as_long() > 0:
        return z3.If(a >= 0, a / b, -((-a) / b))
    raise NotImplementedError('integer division by a non-constant')


def imod(a, b):
    return sub(a, mul(b, idiv(a, b)))


_cmpmemo = {}


def cmp(op, a, b):
    if isc(a) and isc(b):
        return cmp0(op, a, b)
    k = (op, (type(a), a) if isc(a) else a.get_id(), (type(b), b) if isc(b) else b.get_id())
    r = _cmpmemo.get(k)
    if r is None:
        if len(_cmpmemo) > 400000:
            _cmpmemo.clear()
        r = _cmpmemo[k] = (cmp0(op, a, b), a, b)
    return r[0]


def cmp0(op, a, b):
    if isc(a) and isc(b):
        return {'==': a == b, '/=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    x, y = both(a, b)
    if x.sort() == INT:
        d = z3.simplify(x - y, som=True)
        if z3.is_int_value(d):
            return cmp0(op, d.as_long(), 0)
    if x.eq(y):
        return op in ('==', '<=', '>=')
    return {'==': x == y, '/=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]


def eq(a, b):
    return cmp('==', a, b)


def le(a, b):
    return cmp('<=', a, b)


def lt(a, b):
    return cmp('<', a, b)


def land(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def lnot(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def imp(a, b):
    if isinstance(a, bool):
        return b if a else True
    if isinstance(b, bool):
        return True if b else z3.Not(a)
    return z3.Implies(a, b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isc(a) and isc(b) and a == b and type(a) == type(b):
        return a
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and a.sort() == BOOL):
        return z3.If(c, tz(a), tz(b))
    x, y = both(a, b)
    return z3.If(c, x, y)


# ------------------------------------------------------------------ sums
SUMR = z3.Function('SUM', z3.ArraySort(INT, REAL), INT, INT, REAL)
SUMI = z3.Function('ISUM', z3.ArraySort(INT, INT), INT, INT, INT)


def SUM(lo, hi, f, isreal=True):
    """sum_{k=lo}^{hi} f(k), 0 if empty"""
    if isc(lo) and isc(hi) and hi - lo < 64:
        t = Fraction(0) if isreal else 0
        for k in range(lo, hi + 1):
            t = add(t, f(k))
        return t
    if not (isc(lo) and lo == 0):
        return SUM(0, sub(hi, lo), lambda k: f(add(lo, k)), isreal)
    k = fint('k')
    b = f(k)
    if isc(b) and b == 0:
        return Fraction(0) if isreal else 0
    b = tz(b, isreal)
    b = in_range(b, k, lo, hi)
    b = z3.simplify(b, som=True) if not has_quant(b) else b
    q = z3.Int('sumk')           # one name for all: equal sums are equal terms
    return (SUMR if isreal else SUMI)(z3.Lambda([q], z3.substitute(b, (k, q))), tz(lo), tz(hi))


def pure_int(c):
    """only integer arithmetic over constants"""
    st = [c]
    while st:
        x = st.pop()
        if z3.is_quantifier(x) or z3.is_var(x) or x.sort() == REAL:
            return False
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                return False
            st += x.children()
    return True


def in_range(b, k, lo, hi):
    """b for lo <= k <= hi: conditions on k which the range decides are replaced by their value"""
    return under(b, [tz(lo) <= k, k <= tz(hi)], {k.decl().name()})


def under(b, facts, names):
    """b where the facts (integer arithmetic) hold: conditions mentioning the names which they decide are replaced"""
    conds, seen, st = [], set(), [b]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and consts_in(x.arg(0)) & names and pure_int(x.arg(0)):
                conds.append(x.arg(0))
            st += x.children()
    if not conds:
        return b
    rep = []
    s = z3.Solver()
    s.set('timeout', 500)
    s.add(*facts)
    for c in conds:
        if s.check(z3.Not(c)) == z3.unsat:
            rep.append((c, z3.BoolVal(True)))
        elif s.check(c) == z3.unsat:
            rep.append((c, z3.BoolVal(False)))
    return drop_ite(z3.substitute(b, *rep)) if rep else b


def drop_ite(e):
    memo = {}

    def go(x):
        r = memo.get(x.get_id())
        if r is not None:
            return r
        if z3.is_quantifier(x) and x.is_lambda():
            vs = [z3.Const(x.var_name(i), x.var_sort(i)) for i in range(x.num_vars())]
            b = x.body()
            nb = go(b)
            r = x
            if not nb.eq(b):
                fv = [z3.FreshConst(x.var_sort(i), 'dv') for i in range(x.num_vars())]
                inst = z3.substitute_vars(nb, *reversed(fv))
                r = z3.Lambda([z3.Int('sumk')], z3.substitute(inst, (fv[0], z3.Int('sumk')))) if len(fv) == 1 else x
        elif z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_ITE and (z3.is_true(x.arg(0)) or z3.is_false(x.arg(0))):
                r = go(x.arg(1) if z3.is_true(x.arg(0)) else x.arg(2))
            else:
                ch = x.children()
                nc = [go(c) for c in ch]
                r = x if all(p.eq(q) for p, q in zip(ch, nc)) else x.decl()(*nc)
        else:
            r = x
        memo[x.get_id()] = r
        return r
    return go(e)


def has_quant(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def subst(e, pairs):
    if isc(e):
        return e
    pairs = [(a, tz(b)) for a, b in pairs]
    return norm(z3.substitute(e, *pairs)) if pairs else e


def consts_in(e, acc=None):
    """names of uninterpreted constants and functions occurring in e"""
    acc = set() if acc is None else acc
    if isc(e):
        return acc
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            st.extend(x.children())
    return acc


class Forall:
    """forall vars. guard -> body     (vars: z3 constants)"""
    __slots__ = ('vars', 'guard', 'body', 'label')

    def __init__(self, vars, guard, body, label=''):
        self.vars, self.guard, self.body, self.label = list(vars), guard, body, label

    def at(self, vals):
        p = list(zip(self.vars, vals))
        return imp(subst(self.guard, p), subst(self.body, p))

    def subst(self, pairs):
        return Forall(self.vars, subst(self.guard, pairs), subst(self.body, pairs), self.label)

    def z3(self):
        b = imp(self.guard, self.body)
        if isc(b):
            return tz(b)
        return z3.ForAll(self.vars, b)

    def skolem(self):
        """(guard, body) over the variables as constants"""
        return self.guard, self.body


def forall(f, n=None, guard=None):
    """forall(lambda i, j: (guard, body))"""
    n = n or f.__code__.co_argcount
    vs = [fint(f.__code__.co_varnames[k]) for k in range(n)]
    r = f(*vs)
    if isinstance(r, tuple):
        return Forall(vs, r[0], r[1])
    return Forall(vs, True, r)


def fsubst(h, pairs):
    return h.subst(pairs) if isinstance(h, Forall) else subst(h, pairs)
