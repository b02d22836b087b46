"""Discharges obligations: ground instantiation of quantified hypotheses + z3, then z3 with
quantifiers, then cvc5, then a rational-function normal form.  Every strategy is sound
(hypotheses are only weakened); 'unknown' and 'sat' both leave the obligation open."""
import itertools, os, subprocess, time
from fractions import Fraction
import z3
from terms import *

z3.set_param('memory_max_size', 6000)


def apps(e, out, seen):
    """ground applications of uninterpreted functions in e, {name: {args}}"""
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                out.setdefault(x.decl().name(), {})[x.get_id()] = x
            st.extend(x.children())


def vars_in(e, vs):
    """subset of constants vs in e"""
    ids = {v.get_id(): n for n, v in enumerate(vs)}
    r, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            r.add(ids[x.get_id()])
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return r


class Pat:
    """patterns of one Forall"""
    def __init__(self, fa):
        self.fa = fa
        self.vs = fa.vars
        tr = []
        for f in (fa.guard, fa.body):
            if z3.is_expr(f):
                self.collect(f, tr)
        self.cover, self.single = [], {}
        for a in tr:
            sol = {}
            for pos in range(a.num_args()):
                arg = a.arg(pos)
                if arg.sort() != INT:
                    continue
                vv = vars_in(arg, self.vs)
                if len(vv) != 1:
                    continue
                n = vv.pop()
                v = self.vs[n]
                for sg in (1, -1):
                    c = z3.simplify(arg - v if sg == 1 else arg + v, som=True)
                    if not vars_in(c, [v]):
                        sol.setdefault(n, (pos, sg, c))
                        break
            if len(sol) == len(self.vs):
                self.cover.append((a.decl().name(), sol))
            for n, x in sol.items():
                self.single.setdefault(n, []).append((a.decl().name(), x))
        if self.cover:
            k = {}
            for f, s in self.cover:
                k[(f, tuple((n, x[0], x[1], x[2].get_id()) for n, x in s.items()))] = (f, s)
            self.cover = list(k.values())

    def collect(self, e, tr):
        seen, st = set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and vars_in(x, self.vs):
                    tr.append(x)
                st.extend(x.children())

    def cands(self, ground, extra):
        """tuples of terms to instantiate with"""
        out = {}

        def key(x):
            return (type(x), x) if isc(x) else x.get_id()      # terms are hash-consed and kept in out

        def solve(t, sol, n):
            pos, sg, c = sol
            return simpi(sub(t.arg(pos), norm(c)) if sg == 1 else sub(norm(c), t.arg(pos)))
        if self.cover:
            for f, sol in self.cover:
                for t in ground.get(f, {}).values():
                    tup = [solve(t, sol[n], n) for n in range(len(self.vs))]
                    out[tuple([key(x) for x in tup])] = tup
            return out
        per = []
        for n in range(len(self.vs)):
            c = {}
            for f, s in self.single.get(n, []):
                for t in ground.get(f, {}).values():
                    x = solve(t, s, n)
                    c[key(x)] = x
            if not c:
                for x in extra:
                    c[key(x)] = x
            per.append(list(c.values()))
        tot = 1
        for p in per:
            tot *= len(p)
        if tot > 1600:
            per = [p[:int(1600 ** (1.0 / len(per)))] for p in per]
        for tup in itertools.product(*per):
            out[tuple([key(x) for x in tup])] = list(tup)
        return out


_pats = {}


def pattern(fa):
    if id(fa) not in _pats:
        if len(_pats) > 3000:
            _pats.clear()
        _pats[id(fa)] = (fa, Pat(fa))
    return _pats[id(fa)][1]


def prepare(hyps, goal):
    """(ground list, foralls) for hyps and not goal"""
    ground, fas = [], []
    for h in hyps:
        if isinstance(h, Forall):
            fas.append(h)
        elif h is False:
            return None
        elif h is not True:
            flat(h, ground)
    if isinstance(goal, Forall):
        if goal.guard is not True:
            flat(tz(goal.guard), ground)
        goal = goal.body
    ground.append(z3.Not(tz(goal)))
    return ground, fas, goal


def flat(h, out):
    if z3.is_and(h):
        for c in h.children():
            flat(c, out)
    else:
        out.append(h)


def instantiate(ground, fas, rounds=2, cap=4000, seedterms=(), ints=()):
    pats = [pattern(f) for f in fas]
    alive = []
    done = [set() for _ in fas]
    g, seen = {}, set()
    for x in list(ground) + list(seedterms):
        apps(x, g, seen)
    inst = []
    for r in range(rounds):
        new = []
        for k, p in enumerate(pats):
            for key, tup in p.cands(g, ints).items():
                if key in done[k]:
                    continue
                done[k].add(key)
                alive.append(tup)
                f = p.fa.at(tup)
                if isc(f):
                    if f is False:
                        new.append(z3.BoolVal(False))
                    continue
                new.append(f)
                if len(inst) + len(new) > cap:
                    break
        inst += new
        if not new or len(inst) > cap:
            break
        for x in new:
            apps(x, g, seen)
    return inst


RL = 3500        # z3 resource units per nominal millisecond: limits do not depend on the machine


def check(fs, timeout, tactic=None):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('rlimit', int(timeout * RL))
    s.set('timeout', int(timeout * 15 + 2000))
    for f in fs:
        s.add(f)
    try:
        r = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        try:
            return 'sat', s.model()
        except z3.Z3Exception:
            return 'sat', None
    return 'unknown', None


_nl = {}


def nonlinear(t):
    """does t contain a product of two non-constant terms (outside functions and sums)?"""
    if not z3.is_expr(t):
        return False
    k = t.get_id()
    if k in _nl and _nl[k][0].eq(t):
        return _nl[k][1]
    r = False
    if z3.is_quantifier(t):
        r = False
    elif z3.is_app(t):
        if z3.is_mul(t) and sum(not (z3.is_rational_value(x) or z3.is_int_value(x)) for x in t.children()) > 1:
            r = True
        elif z3.is_div(t) and not z3.is_rational_value(t.arg(1)):
            r = True
        else:
            r = any(nonlinear(x) for x in t.children())
    if len(_nl) > 200000:
        _nl.clear()
    _nl[k] = (t, r)
    return r


def realeq(goal):
    return z3.is_expr(goal) and z3.is_eq(goal) and goal.arg(0).sort() == REAL


def undecided_ite(goal, base):
    """first if-then-else of the goal which the hypotheses leave open (decided ones are resolved)"""
    import ratfun
    for _ in range(60):
        i = ratfun.find_ite(goal)
        if i is None:
            return goal, None
        c = i.arg(0)
        if check(base + [z3.Not(c)], 300)[0] == 'unsat':
            goal = z3.substitute(goal, (i, i.arg(1)))
        elif check(base + [c], 300)[0] == 'unsat':
            goal = z3.substitute(goal, (i, i.arg(2)))
        else:
            return goal, c
    return goal, None


def split_eq(goal, ground, fas, extra, rounds, depth=0):
    """case distinction over the conditions in a real equation, rational-function identity at the leaves"""
    import ratfun
    base = ground + extra
    if depth and check(base, 300)[0] == 'unsat':
        return True
    goal, c = undecided_ite(goal, base)
    if c is not None and depth < 7:
        for d in (c, z3.Not(c)):
            e = z3.simplify(d)
            eqs = [e] if z3.is_eq(e) and e.arg(0).sort() == INT else []
            g2 = goal
            if not split_eq(g2, ground + [d], fas, extra, rounds, depth + 1):
                return False
        return True
    if z3.is_true(z3.simplify(goal)):
        return True
    inst = instantiate(ground + [z3.Not(goal)], fas, rounds)
    if check(ground + inst + extra + [z3.Not(goal)], 400)[0] == 'unsat':
        return True
    try:
        return ratfun.identity(goal, ground + inst + extra, check)
    except ratfun.Giveup:
        return False


def sum_lemmas(fs, ground, fas, tmo=600):
    """equalities between SUM terms with provably equal bodies"""
    tab, seen = {}, set()
    for f in fs:
        apps(f, tab, seen)
    out = []
    for nm in ('SUM', 'ISUM'):
        ts = list(tab.get(nm, {}).values())
        if len(ts) > 14:
            ts = ts[-14:]
        for a, b in itertools.combinations(ts, 2):
            la, lb = a.arg(0), b.arg(0)
            if not (z3.is_quantifier(la) and z3.is_quantifier(lb)):
                continue
            if a.arg(1).eq(b.arg(1)) and a.arg(2).eq(b.arg(2)) and la.eq(lb):
                continue
            k = fint('k')
            ba = z3.substitute_vars(la.body(), k)
            bb = z3.substitute_vars(lb.body(), k)
            base = [f for f in ground if z3.is_expr(f)]
            # bounds equal and bodies equal on the range
            q = base[:-1] + [z3.Or(a.arg(1) != b.arg(1), a.arg(2) != b.arg(2),
                                   z3.And(a.arg(1) <= k, k <= a.arg(2), ba != bb))]
            inst = instantiate(q, fas, 2, 800)
            r, _ = check(q + inst, tmo)
            if r == 'unsat':
                out.append(a == b)
    return out


def outer_sums(e):
    """outermost SUM applications of e"""
    out, seen, st = {}, set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() in ('SUM', 'ISUM') and x.num_args() == 3 and z3.is_quantifier(x.arg(0)):
                out[x.get_id()] = x
                continue
            st.extend(x.children())
    return list(out.values())


def equal(l, r, ground, fas, rounds, depth=0):
    """l == r by sum extensionality (recursively) and the equation provers at the leaves"""
    if l.eq(r):
        return True
    g = l == r
    L, R = outer_sums(l), outer_sums(r)
    if L or R:
        rest = [b for b in R if not any(a.eq(b) for a in L)]
        sub = []
        for a in L:
            if any(a.eq(b) for b in R):
                continue
            for b in list(rest):
                if a.decl().eq(b.decl()) and sum_equal(a, b, ground, fas, rounds, depth):
                    c = fresh('sum', a.sort())
                    sub.append((a, c))
                    sub.append((b, c))
                    rest.remove(b)
                    break
        if sub:
            g = z3.substitute(g, *sub)
        if z3.is_true(z3.simplify(g)):
            return True
        if not sub and depth and not (L and R):
            return False
    if g.arg(0).sort() == REAL and quick(g, ground):
        return True
    inst = instantiate(ground + [z3.Not(g)], fas, rounds)
    if check(ground + inst + [z3.Not(g)], 500)[0] == 'unsat':
        return True
    return g.arg(0).sort() == REAL and split_eq(g, ground, fas, [], rounds)


def quick(g, ground):
    """polynomial identity without using any hypothesis but non-zero denominators"""
    import ratfun
    if ratfun.find_ite(g) is not None:
        return False
    try:
        c = ratfun.Conv({})
        ln, ld = c.go(g.arg(0))
        rn, rd = c.go(g.arg(1))
        if ratfun.padd(ratfun.pmul(ln, rd), ratfun.pmul(rn, ld), -1):
            return False
        return all(ratfun.nonzero(t, ground, check, 600) for t in c.dens.values())
    except ratfun.Giveup:
        return False


def sum_equal(a, b, ground, fas, rounds, depth):
    if depth > 6:
        return False
    for p, q in ((a.arg(1), b.arg(1)), (a.arg(2), b.arg(2))):
        if not p.eq(q) and check(ground + [p != q], 300)[0] != 'unsat':
            return False
    k = fint('k')
    x = z3.substitute_vars(a.arg(0).body(), k)
    y = z3.substitute_vars(b.arg(0).body(), k)
    return equal(x, y, ground + [a.arg(1) <= k, k <= a.arg(2)], fas, rounds, depth + 1)


def consts(e):
    """integer constants occurring in e"""
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == INT:
                out.append(x)
            st += x.children()
    return out


def resum(e):
    """the innermost sums with their bodies in normal form"""
    rep, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x) and not z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if x.is_lambda() and x.num_vars() == 1 and not has_quant(x.body()):
                k = z3.Int('sumk')
                rep.append((x, z3.Lambda([k], z3.simplify(z3.substitute_vars(x.body(), k), som=True))))
            else:
                st.append(x.body())
        else:
            st += x.children()
    return z3.substitute(e, *rep) if rep else e


def prove(ob, tmo=4000, want_model=False):
    """('proved', by) or ('open', reason, model)"""
    p = prepare(ob.hyps, ob.goal)
    if p is None:
        return 'proved', 'contradiction'
    ground, fas, goal = p
    h = ob.hints or {}
    rounds = h.get('rounds', 2)
    if realeq(goal) and quick(goal, ground[:-1]):
        return 'proved', 'identity'
    if realeq(goal) and outer_sums(goal):
        inst = instantiate(ground, fas, rounds)
        if check(ground + inst, 60)[0] == 'unsat':
            return 'proved', 'z3/inst'
        if equal(goal.arg(0), goal.arg(1), ground[:-1], fas, rounds):
            return 'proved', 'sum-ext'
    inst = instantiate(ground, fas, rounds)
    if z3.is_expr(goal) and not z3.is_quantifier(goal) and has_quant(goal) and not realeq(goal):
        cs = sorted({str(c): c for c in consts(goal) if '!' in str(c)}.items())
        sums = []
        for f in fas:
            if z3.is_expr(f.body) and has_quant(f.body) and len(f.vars) <= 4 and len(cs) ** len(f.vars) <= 300:
                for combo in itertools.product([c for _, c in cs], repeat=len(f.vars)):
                    sub_ = list(zip(f.vars, combo))
                    sums.append(resum(tz(imp(subst(f.guard, sub_), subst(f.body, sub_)))))
        if check([resum(z3.Not(goal))] + [g for g in ground if not has_quant(g)] + sums, 700)[0] == 'unsat':
            return 'proved', 'z3/sums'
    fs = ground + inst
    r, m = check(fs, 700 if realeq(goal) else tmo)
    if r == 'unsat':
        return 'proved', 'z3/inst'
    first = r
    if realeq(goal):
        if outer_sums(goal):
            if equal(goal.arg(0), goal.arg(1), ground[:-1], fas, rounds):
                return 'proved', 'sum-ext'
        elif split_eq(goal, ground[:-1], fas, [], rounds):
            return 'proved', 'ratfun'
        r, m = check(fs, tmo)
        if r == 'unsat':
            return 'proved', 'z3/inst'
    lem = sum_lemmas(fs, ground, fas)
    if lem:
        r, m = check(fs + lem, tmo)
        if r == 'unsat':
            return 'proved', 'z3/sum-ext'
        if realeq(goal) and split_eq(goal, ground[:-1], fas, lem, rounds):
            return 'proved', 'ratfun/sum-ext'
    inst3 = instantiate(ground, fas, 3, 6000)
    if len(inst3) > len(inst):
        r, m2 = check(ground + inst3 + lem, 2 * tmo)
        if r == 'unsat':
            return 'proved', 'z3/inst3'
        if realeq(goal) and split_eq(goal, ground[:-1], fas, lem, 3):
            return 'proved', 'ratfun/inst3'
    q = ground + [f.z3() for f in fas] + lem
    r, m3 = check(q, 2 * tmo)
    if r == 'unsat':
        return 'proved', 'z3/quant'
    r2 = cvc5(q, 6)
    if r2 == 'unsat':
        return 'proved', 'cvc5'
    return 'open', '%s/%s' % (first, r), m


def cvc5(fs, secs):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = s.to_smt2()
    if 'lambda' in txt:
        return 'unknown'
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (secs * 1000), '-q', '-'], input=txt, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=secs + 5)
        return p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except (OSError, subprocess.TimeoutExpired):
        return 'unknown'


def vacuous(hyps):
    """can a contradiction be derived from the hypotheses?  (must not be)"""
    p = prepare(hyps, False)
    if p is None:
        return True
    ground, fas, _ = p
    if check(ground, 500)[0] == 'unsat':
        return True
    inst = instantiate(ground, fas, 2, 1500)
    return check(ground + inst, 700)[0] == 'unsat'
