"""Verification-condition generator for the Fortran subset of fparse.py.

Symbolic execution of the parsed source, function by function.  Integers and reals are mathematical.
 * calls: the callee's contract is used (precondition = obligation, postcondition = assumption);
   a callee without a contract is inlined (so extracted helpers need no annotation)
 * loops: (1) constant bounds -> unrolled; (2) `map` and `reduction` loops are summarised exactly by a
   side-condition-checked rule (no annotation); (3) otherwise a loop invariant from the contract file is
   required (initialisation, preservation, variant = obligations)
 * arrays: functions from index tuples; every access yields a bounds obligation and a
   definite-assignment obligation, every division a non-zero obligation
"""
from fractions import Fraction
import z3
from terms import *
from fparse import FrontendError, S

EPSR = Fraction(1, 2 ** 52)


class Unsupported(Exception):
    pass


class Lost(Unsupported):
    """a variable whose value after a loop is not tracked is read"""


def lost_arr(a, why):
    def bad(I):
        raise Lost(why)
    return Arr(a.typ, a.bounds, bad, bad)


class LostScalar:
    def __init__(self, why):
        self.why = why


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


def ikey(i):
    return i if isc(i) else ('g',) + tuple(ikey(x) for x in i) if isinstance(i, tuple) else ('t', i.get_id())


def memo(f):
    """f(idx) remembered per index terms (array values are immutable)"""
    if f is None or hasattr(f, 'memo'):
        return f
    tab = {}

    def g(I):
        k = tuple([ikey(i) for i in I])
        if k in tab:
            return tab[k][1]
        r = f(I)
        tab[k] = (tuple(I), r)        # the terms stay alive: their ids are not reused
        return r
    g.memo = tab
    return g


class Arr:
    """array value: bounds [(lo,hi)], get(idx)->term, dfn(idx)->bool"""
    def __init__(self, typ, bounds, get, dfn=None, sym=None):
        self.typ, self.bounds, self._get, self._dfn, self.sym = typ, list(bounds), memo(get), memo(dfn), sym

    rank = property(lambda s: len(s.bounds))

    def get(self, idx):
        return self._get(tuple(idx))

    def dfn(self, idx):
        return True if self._dfn is None else self._dfn(tuple(idx))

    def ext(self, d):
        lo, hi = self.bounds[d]
        return add(sub(hi, lo), 1)

    def rel(self, idx):
        """0-based access"""
        return self.get([add(lo, i) for (lo, hi), i in zip(self.bounds, idx)])

    def reldfn(self, idx):
        return self.dfn([add(lo, i) for (lo, hi), i in zip(self.bounds, idx)])

    def inside(self, idx):
        return land(*[land(le(lo, i), le(i, hi)) for (lo, hi), i in zip(self.bounds, idx)])

    def store(self, idx, v):
        old, oldd = self._get, self._dfn
        idx = tuple(idx)

        def get(I):
            c = land(*[eq(a, b) for a, b in zip(I, idx)])
            if c is True:
                return v
            if c is False:
                return old(I)
            return ite(c, v, old(I))

        def dfn(I):
            return lor(land(*[eq(a, b) for a, b in zip(I, idx)]), True if oldd is None else oldd(I))
        return Arr(self.typ, self.bounds, get, None if oldd is None else dfn)

    def __call__(self, *idx):
        return self.get(idx)


def rng(lo, hi, i):
    return land(le(lo, i), le(i, hi))


class State:
    def __init__(self, env, hyps):
        self.env, self.hyps = env, hyps

    def copy(self):
        return State(dict(self.env), list(self.hyps))

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.assume(*f)
            elif f is not True:
                self.hyps.append(f)


class Obligation:
    def __init__(self, name, kind, hyps, goal, hints=None):
        self.name, self.kind, self.hyps, self.goal, self.hints = name, kind, hyps, goal, hints or {}


class View:
    """what contract/invariant functions see: s.name -> scalar or Arr, s.old.name, s('name')"""
    def __init__(self, env, old=None, extra=None):
        self.__dict__['_e'] = dict(env, **(extra or {}))
        self.__dict__['old'] = old

    def __getattr__(self, n):
        try:
            return self._e[n.lower()]
        except KeyError:
            raise Unsupported('no variable %s' % n)

    def __contains__(self, n):
        return n in self._e and self._e[n] is not None


class Engine:
    def __init__(self, mods, contracts, opts=None):
        self.mods, self.contracts = mods, contracts
        self.obs = []
        self.mute = 0
        self.opts = opts or {}
        self.used = set()          # contracts assumed at call sites
        self.inlined = set()

    # ------------------------------------------------------------ obligations
    def ob(self, st, kind, goal, what, line=None, hints=None):
        if kind == 'pre' and z3.is_expr(goal) and has_quant(goal):
            goal = self.on_path(goal, st)
        if goal is True:
            if kind == 'post' and not self.mute and 'post-fact' in what:      # decided while it was generated (a table)
                self.obs.append(Obligation('%s/%s' % (self.fname, what), kind, [], True, hints))
            return
        if z3.is_expr(goal) and any(goal is h or (z3.is_expr(h) and goal.eq(h)) for h in st.hyps):
            return                    # demanded before on this path
        if not self.mute:
            self.obs.append(Obligation('%s/%s%s' % (self.fname, what, '@%s' % line if line else ''), kind,
                                       list(st.hyps), goal, hints))
        # what has been demanded may be assumed afterwards
        if isinstance(goal, Forall) or z3.is_expr(goal):
            st.hyps.append(goal)

    def on_path(self, goal, st):
        """the conditions inside sums which the path decides"""
        facts = [h for h in st.hyps if z3.is_expr(h) and pure_int(h)]
        names = set()
        for f in facts:
            names |= consts_in(f)
        g = under(goal, facts, names)
        return g

    # ------------------------------------------------------------ names
    def resolve(self, unit, name):
        u = unit
        while u is not None:
            if name in u.contains:
                return u.contains[name]
            u2 = u
            for mod, ren, only in u2.uses:
                if mod not in self.mods:
                    raise FrontendError('unknown module %s' % mod)
                for a, b in ren.items():
                    if name == a:
                        return self.mods[mod][b]
                if name in self.mods[mod] and name not in ren.values() and (only is None or name in only):
                    return self.mods[mod][name]
            u = u.parent
        top = unit
        while top.parent is not None:
            top = top.parent
        m = self.mods[top.module]
        return m.get(name)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        k = e[0]
        if k == 'int':
            return e[1]
        if k == 'real':
            return e[1]
        if k == 'log':
            return e[1]
        if k == 'name':
            n = e[1]
            if n not in st.env:
                d = self.unit.decls.get(n)
                raise FrontendError('%s: undeclared name %s' % (self.fname, n))
            v = st.env[n]
            if isinstance(v, LostScalar):
                raise Lost(v.why)
            if v is UNDEF:
                self.ob(st, 'defined', False, 'defined:%s' % n, self.line)
                t = self.unit.decls[n].typ
                return fresh(n, SORT[t])
            if isinstance(v, Arr) and v._dfn is not None:
                self.arrdef(v, st, n)
            return v
        if k == 'un':
            v = self.ev(e[2], st)
            if e[1] == '-':
                return self.lift1(neg, v)
            return self.lift1(lnot, v)
        if k == 'bin':
            op = e[1]
            a = self.ev(e[2], st)
            if op in ('.and.', '.or.'):
                b = self.ev(e[3], st)      # Fortran does not short-circuit: both must be safe
                return self.lift2(land if op == '.and.' else lor, a, b, st)
            b = self.ev(e[3], st)
            if op == '+':
                return self.lift2(add, a, b, st)
            if op == '-':
                return self.lift2(sub, a, b, st)
            if op == '*':
                return self.lift2(mul, a, b, st)
            if op == '/':
                return self.div(a, b, st)
            if op == '**':
                if isinstance(b, int) and 0 <= b <= 8:
                    r = a
                    if b == 0:
                        return 1
                    for _ in range(b - 1):
                        r = self.lift2(mul, r, a, st)
                    return r
                raise Unsupported('power')
            if op in ('.eqv.', '.neqv.'):
                r = eq(a, b) if not (isinstance(a, bool) or isinstance(b, bool)) else \
                    (a if b is True else lnot(a) if b is False else b if a is True else lnot(b))
                return r if op == '.eqv.' else lnot(r)
            return self.lift2(lambda x, y: cmp(op, x, y), a, b, st)
        if k == 'ref':
            return self.ref(e, st)
        if k == 'arr':
            vs = [self.ev(x, st) for x in e[1]]
            def get(I):
                r = vs[-1]
                for n in range(len(vs) - 2, -1, -1):
                    r = ite(eq(I[0], n + 1), vs[n], r)
                return r
            return Arr('int' if isint(vs[0]) else 'real', [(1, len(vs))], get)
        raise Unsupported('expression %s' % (k,))

    def arrdef(self, v, st, n):
        I = [fint('x') for _ in v.bounds]
        g, b = v.inside(I), v.dfn(I)
        if b is not True and g is not False:
            self.ob(st, 'defined', Forall(I, g, b), 'defined:%s' % n, self.line)

    def lift1(self, f, v):
        if isinstance(v, Arr):
            return Arr(v.typ, v.bounds, lambda I: f(v.get(I)))
        return f(v)

    def lift2(self, f, a, b, st):
        A, B = isinstance(a, Arr), isinstance(b, Arr)
        if not A and not B:
            return f(a, b)
        if A and B:
            self.conform(a, b, st)
            bb = [(1, a.ext(d)) for d in range(a.rank)]
            return Arr(self.jt(a.typ, b.typ), bb,
                       lambda I: f(a.rel([sub(i, 1) for i in I]), b.rel([sub(i, 1) for i in I])))
        if A:
            return Arr(self.jt(a.typ, 'real' if not isint(b) and not isinstance(b, bool) else 'int'),
                       a.bounds, lambda I: f(a.get(I), b))
        return Arr(self.jt(b.typ, 'real' if not isint(a) and not isinstance(a, bool) else 'int'),
                   b.bounds, lambda I: f(a, b.get(I)))

    def jt(self, a, b):
        return 'real' if 'real' in (a, b) else a

    def conform(self, a, b, st):
        if a.rank != b.rank:
            raise Unsupported('rank mismatch (line %s)' % self.line)
        for d in range(a.rank):
            x, y = a.ext(d), b.ext(d)
            self.ob(st, 'bounds', lor(eq(x, y), land(le(x, 0), le(y, 0))), 'conform', self.line)

    def div(self, a, b, st):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(b, Arr):
                I = [fint('x') for _ in b.bounds]
                self.ob(st, 'nonzero', Forall(I, b.inside(I), lnot(eq(b.get(I), 0))), 'divisor', self.line)
                if isint(b.get(I)):
                    raise Unsupported('integer array division')
            else:
                self.ob(st, 'nonzero', lnot(eq(b, 0)), 'divisor', self.line)
            return self.lift2(rdiv, a, b, st)
        self.ob(st, 'nonzero', lnot(eq(b, 0)), 'divisor', self.line)
        if isint(a) and isint(b):
            if isc(b) and b == 0:
                return 0
            try:
                return idiv(a, b)
            except NotImplementedError:
                q = fint('q')      # trunc(a/b) for b > 0, a >= 0 (demanded), else unsupported
                self.ob(st, 'nonzero', land(le(0, a), lt(0, b)), 'idiv-sign', self.line)
                st.assume(le(mul(q, b), a), lt(a, mul(add(q, 1), b)), le(0, q))
                return q
        if isc(b) and b == 0:
            return toreal(a)
        return rdiv(a, b)

    def ref(self, e, st):
        name, args = e[1], e[2]
        v = st.env.get(name)
        if isinstance(v, Arr):
            return self.element(v, args, st, name)
        if v is None and name in st.env:
            raise FrontendError('%s: absent optional %s used' % (self.fname, name))
        u = self.resolve(self.unit, name)
        if u is not None and u.kind == 'function':
            return self.call(u, args, st)
        return self.intrinsic(name, args, st)

    def index(self, arr, args, st):
        """list of ('i', term) / ('s', lo, ext)"""
        if len(args) != arr.rank:
            raise FrontendError('%s line %s: rank' % (self.fname, self.line))
        out = []
        for d, a in enumerate(args):
            lo, hi = arr.bounds[d]
            if a[0] == 'slice':
                if a[3] is not None:
                    raise Unsupported('strided section')
                s = self.ev(a[1], st) if a[1] is not None else lo
                t = self.ev(a[2], st) if a[2] is not None else hi
                out.append(('s', s, t))
            else:
                i = self.ev(a, st)
                if isinstance(i, Arr):
                    raise Unsupported('vector subscript')
                out.append(('i', i))
        return out

    def element(self, arr, args, st, name):
        ix = self.index(arr, args, st)
        self.check_bounds(arr, ix, st, name)
        if all(x[0] == 'i' for x in ix):
            I = [x[1] for x in ix]
            d = arr.dfn(I)
            if d is not True:
                self.ob(st, 'defined', d, 'defined:%s' % name, self.line)
            return arr.get(I)
        sec = self.section(arr, ix)
        if arr._dfn is not None:
            self.arrdef(sec, st, name)
        return sec

    def check_bounds(self, arr, ix, st, name):
        if any(x[0] == 's' for x in ix):
            empty = lor(*[lt(x[2], x[1]) for x in ix if x[0] == 's'])
        else:
            empty = False
        for d, x in enumerate(ix):
            lo, hi = arr.bounds[d]
            if x[0] == 'i':
                self.ob(st, 'bounds', lor(empty, land(le(lo, x[1]), le(x[1], hi))), 'index:%s' % name, self.line)
            else:
                self.ob(st, 'bounds', lor(empty, land(le(lo, x[1]), le(x[2], hi))), 'section:%s' % name, self.line)

    def section(self, arr, ix):
        ds = [d for d, x in enumerate(ix) if x[0] == 's']

        def full(I):
            J = [x[1] if x[0] == 'i' else None for x in ix]
            for d, i in zip(ds, I):
                J[d] = add(ix[d][1], sub(i, 1))
            return J
        return Arr(arr.typ, [(1, add(sub(ix[d][2], ix[d][1]), 1)) for d in ds],
                   lambda I: arr.get(full(I)), None if arr._dfn is None else (lambda I: arr.dfn(full(I))))

    def intrinsic(self, name, args, st):
        if name == 'present':
            n = args[0][1]
            return st.env.get(n) is not None
        if name == 'epsilon':
            return EPSR
        vs = [self.ev(a, st) for a in args]
        if name == 'abs':
            return self.lift1(lambda x: abs(x) if isc(x) else z3.If(x >= 0, x, -x), vs[0])
        if name in ('min', 'max'):
            r = vs[0]
            for v in vs[1:]:
                r = ite(le(r, v) if name == 'min' else le(v, r), r, v)
            return r
        if name == 'mod':
            self.ob(st, 'nonzero', lnot(eq(vs[1], 0)), 'divisor', self.line)
            return imod(vs[0], vs[1])
        if name == 'sum':
            v = vs[0]
            return self.total(v)
        if name in ('real', 'dble'):
            return self.lift1(toreal, vs[0])
        if name == 'sqrt':
            x = toreal(vs[0])
            self.ob(st, 'nonzero', le(0, x), 'sqrt', self.line)
            r = fresh('sqrt', REAL)
            st.assume(le(0, r), eq(mul(r, r), x))
            return r
        if name == 'transpose':
            v = vs[0]
            return Arr(v.typ, [v.bounds[1], v.bounds[0]], lambda I: v.get((I[1], I[0])))
        if name == 'matmul':
            a, b = vs
            if a.rank == 2 and b.rank == 2:
                self.ob(st, 'bounds', eq(a.ext(1), b.ext(0)), 'conform', self.line)
                lo, hi = a.bounds[1]
                off = sub(b.bounds[0][0], lo)
                return Arr('real', [a.bounds[0], b.bounds[1]],
                           lambda I: gsum(a, 1, lambda k: mul(a.get((I[0], k)), b.get((gshift(k, off), I[1])))))
        if name == 'size' and len(args) == 1:
            r = 1
            for d in range(vs[0].rank):
                r = mul(r, vs[0].ext(d))
            return r
        raise FrontendError('%s line %s: unknown function %s' % (self.fname, self.line, name))

    def total(self, v):
        def rec(d, I):
            if d == v.rank:
                return v.get(I)
            return gsum(v, d, lambda k: rec(d + 1, I + [k]))
        return rec(0, [])

    # ------------------------------------------------------------ calls
    def bind_actual(self, a, st):
        """value of an actual argument plus a writer (or None)"""
        if a[0] == 'kw':
            raise Unsupported('keyword actual')
        if a[0] == 'name':
            n = a[1]
            if n not in st.env:
                raise FrontendError('%s line %s: unknown %s' % (self.fname, self.line, n))
            if isinstance(st.env[n], LostScalar):
                raise Lost(st.env[n].why)
            return st.env[n], ('var', n)
        if a[0] == 'ref' and isinstance(st.env.get(a[1]), Arr):
            arr = st.env[a[1]]
            ix = self.index(arr, a[2], st)
            self.check_bounds(arr, ix, st, a[1])
            if all(x[0] == 'i' for x in ix):
                I = [x[1] for x in ix]
                return arr.get(I), ('elem', a[1], I, arr.dfn(I))
            return self.section(arr, ix), ('sec', a[1], ix)
        return self.ev(a, st), None

    def call(self, u, actuals, st):
        """execute a call; returns the function value (functions)"""
        line = self.line
        vals, writers = [], []
        for a in actuals:
            v, w = self.bind_actual(a, st)
            vals.append(v)
            writers.append(w)
        if len(vals) > len(u.args):
            raise FrontendError('%s line %s: too many arguments' % (self.fname, line))
        env = {}
        for i, n in enumerate(u.args):
            d = u.decls.get(n)
            if d is None:
                raise FrontendError('%s: argument %s not declared' % (u.name, n))
            if i >= len(vals):
                if not d.optional:
                    raise FrontendError('%s line %s: missing argument %s' % (self.fname, line, n))
                env[n] = None
                continue
            env[n] = vals[i]
        # scalars first, they occur in the dimensions of the arrays
        for i, n in enumerate(u.args):
            d = u.decls[n]
            v = env[n]
            if v is None or d.dims:
                continue
            if isinstance(v, Arr):
                raise FrontendError('%s line %s: array actual for scalar %s' % (self.fname, line, n))
            if d.intent != 'out':
                if v is UNDEF:
                    self.ob(st, 'defined', False, 'defined:%s' % n, line)
                    env[n] = fresh(n, SORT[d.typ])
                w = writers[i]
                if w and w[0] == 'elem' and w[3] is not True:
                    self.ob(st, 'defined', w[3], 'defined:%s' % w[1], line)
                if d.typ == 'real' and not isinstance(v, Undef) and isint(v):
                    raise FrontendError('%s line %s: integer actual for real %s' % (self.fname, line, n))
        self.params(u, env, st)
        for i, n in enumerate(u.args):
            d = u.decls[n]
            v = env[n]
            if v is None or not d.dims:
                continue
            if not isinstance(v, Arr):
                raise Unsupported('element actual for array %s (line %s)' % (n, line))
            bnds = self.dims(u, d, env, st)
            env[n] = self.rebase(v, bnds, st, u, n, d.intent)
        key = self.key(u)
        c = self.contracts.get(key)
        if c is not None and not c.get('inline'):
            self.used.add(key)
            return self.apply(u, c, env, writers, st)
        return self.inline(u, env, writers, st)

    def key(self, u):
        return (u.parent.module + '.' + u.parent.name if u.parent else u.module) + '.' + u.name

    def params(self, u, env, st):
        for n, d in u.decls.items():
            if d.value is not None:
                s2 = State(env, st.hyps)
                env[n] = self.ev(d.value, s2)

    def dims(self, u, d, env, st):
        s2 = State(dict(env), st.hyps)
        return [(self.ev(a, s2), self.ev(b, s2)) for a, b in d.dims]

    def rebase(self, v, bnds, st, u, n, intent):
        """view of actual v with the dummy's bounds; sequence association for equal storage only"""
        line = self.line
        if len(bnds) == v.rank:
            okd = []
            for d in range(v.rank):
                ext = add(sub(bnds[d][1], bnds[d][0]), 1)
                c = eq(ext, v.ext(d))
                okd.append(c)
            last = v.rank - 1
            for d in range(v.rank):
                if okd[d] is True or d == last:
                    continue
                self.ob(st, 'bounds', okd[d], 'shape:%s.%s' % (u.name, n), line)
            restrict = None
            if okd[last] is not True:
                ext = add(sub(bnds[last][1], bnds[last][0]), 1)
                r = simp(tz(lt(v.ext(last), ext)))
                fewer = le(ext, v.ext(last))
                if r is True or (isc(ext) and isc(v.ext(last))):
                    # dummy larger than the actual: only the actual's part may be touched
                    restrict = True
                else:
                    # dummy not larger than actual in its last dimension (leading part passed)
                    self.ob(st, 'bounds', fewer, 'shape:%s.%s' % (u.name, n), line)
            offs = [sub(v.bounds[d][0], bnds[d][0]) for d in range(v.rank)]

            def tr(I):
                return [gshift(i, o) for i, o in zip(I, offs)]
            dfn = None
            if v._dfn is not None or restrict:
                def dfn(I):
                    r = True if v._dfn is None else v.dfn(tr(I))
                    if restrict:
                        r = land(r, le(tr(I)[last], v.bounds[last][1]))
                    return r
            if v.sym is not None and all(isc(o) and o == 0 for o in offs) and not restrict:
                return Arr(v.typ, bnds, v._get, v._dfn, v.sym)
            a = Arr(v.typ, bnds, lambda I: v.get(tr(I)), dfn)
            a.actual = v
            return a
        return self.flatten(v, bnds, st, u, n)

    def flatten(self, v, bnds, st, u, n):
        """group consecutive dimensions of the actual into the dummy's dimensions"""
        groups, d = [], 0
        for k, (lo, hi) in enumerate(bnds):
            ext = add(sub(hi, lo), 1)
            g, prod = [], 1
            while d < v.rank:
                if g and tz_eq(prod, ext):
                    break
                prod = mul(prod, v.ext(d))
                g.append(d)
                d += 1
                if k == len(bnds) - 1 and d < v.rank:
                    continue
            while d < v.rank and eq(v.ext(d), 1) is True:
                g.append(d)
                d += 1
            if not tz_eq(prod, ext):
                raise Unsupported('sequence association of %s.%s (line %s)' % (u.name, n, self.line))
            groups.append(g)
        if d != v.rank:
            raise Unsupported('sequence association of %s.%s (line %s)' % (u.name, n, self.line))

        real = [[x for x in g if eq(v.ext(x), 1) is not True] for g in groups]      # dimensions of extent one carry no index

        def tr(I):
            J = []
            for i, g, r, (lo, hi) in zip(I, groups, real, bnds):
                if len(r) > 1 and not isinstance(i, tuple):
                    i = unflatten(sub(i, lo), [v.bounds[x] for x in r])
                for x in g:
                    if x not in r:
                        J.append(v.bounds[x][0])
                    elif len(r) == 1:
                        J.append(gshift(i, sub(v.bounds[x][0], lo)))
                    else:
                        J.append(i[r.index(x)])
            return J
        bb = []
        for r, (lo, hi) in zip(real, bnds):
            bb.append((lo, hi) if len(r) <= 1 else GB(lo, hi, [v.bounds[x] for x in r]))
        a = Arr(v.typ, bb, lambda I: v.get(tr(I)), None if v._dfn is None else (lambda I: v.dfn(tr(I))))
        a.actual, a.groups = v, groups
        return a

    def write_back(self, u, env, writers, new, st):
        """new: {dummy: scalar or Arr in dummy index space}"""
        for i, n in enumerate(u.args):
            d = u.decls[n]
            if n not in new or i >= len(writers):
                continue
            w = writers[i]
            if w is None:
                raise FrontendError('%s line %s: expression passed to intent(out) %s' % (self.fname, self.line, n))
            v = new[n]
            if not d.dims:
                self.store_to(w, v, st)
                continue
            dummy = env[n]
            self.store_array(w, v, dummy, st)

    def store_to(self, w, v, st):
        if w[0] == 'var':
            self.setvar(w[1], v, st)
        elif w[0] == 'elem':
            arr = st.env[w[1]]
            self.log_write(w[1], [('i', i) for i in w[2]])
            st.env[w[1]] = arr.store(w[2], self.coerce(v, arr.typ))
        else:
            raise Unsupported('scalar to section')

    def store_array(self, w, v, dummy, st):
        """copy dummy-space array v back through writer w"""
        groups = getattr(dummy, 'groups', None)
        tgt = st.env[w[1]]
        if w[0] == 'var':
            ix = [('s', lo, hi) for lo, hi in tgt.bounds]
        else:
            ix = w[2]
        sec_lo = [x[1] for x in ix if x[0] == 's']

        def todummy(K):
            """section-relative (0-based) index -> dummy index"""
            if groups is None:
                return [add(lo, k) for (lo, hi), k in zip(dummy.bounds, K)]
            src = dummy.actual
            full = [add(lo, k) for (lo, hi), k in zip(src.bounds, K)]
            out = []
            for g, b in zip(groups, dummy.bounds):
                r = [x for x in g if eq(src.ext(x), 1) is not True]
                out.append(b[0] if not r else add(sub(full[r[0]], src.bounds[r[0]][0]), b[0]) if len(r) == 1
                           else tuple(full[x] for x in r))
            return out
        ext_src = dummy.actual if hasattr(dummy, 'actual') else dummy
        self.assign_section(w[1], ix,
                            lambda K: v.get(todummy(K)),
                            (lambda K: True) if v._dfn is None else (lambda K: v.dfn(todummy(K))), st,
                            limit=None if groups is not None or all(
                                tz_eq(dummy.ext(dd), ext_src.ext(dd)) for dd in range(dummy.rank)) else
                            [(lambda k, dd=dd: le(add(dummy.bounds[dd][0], k), dummy.bounds[dd][1]))
                             for dd in range(dummy.rank)])

    def assign_section(self, name, ix, val, dfn, st, limit=None):
        """name(ix) = val(K), K 0-based section index"""
        tgt = st.env[name]
        self.log_write(name, ix)
        old, oldd = tgt._get, tgt._dfn

        def cond(I):
            c, K = [], []
            for x, i in zip(ix, I):
                if x[0] == 'i':
                    c.append(eq(i, x[1]))
                else:
                    c.append(land(le(x[1], i), le(i, x[2])))
                    K.append(sub(i, x[1]))
                if c[-1] is False:
                    return False, K
            if limit:
                c += [f(k) for f, k in zip(limit, K)]
            return land(*c), K
        whole = all(x[0] == 's' and tz_eq(x[1], b[0]) and tz_eq(x[2], b[1]) for x, b in zip(ix, tgt.bounds)) \
            and limit is None

        def get(I):
            c, K = cond(I)
            if whole or c is True:
                return val(K)
            if c is False:
                return old(I)
            return ite(c, val(K), old(I))

        def nd(I):
            c, K = cond(I)
            o = True if oldd is None else None if whole or c is True else oldd(I)
            if whole or c is True:
                return dfn(K)
            if c is False:
                return o
            return ite_b(c, dfn(K), o)
        st.env[name] = Arr(tgt.typ, tgt.bounds, get, nd)

    def snapshot(self, names, env, st):
        """arguments whose value equals a named (defined) array are passed under its name"""
        for n, f in names.items():
            a = env[n]
            I = [fint('i') for _ in a.bounds]
            self.ob(st, 'pre', Forall(I, a.inside(I), eq(a.get(I), f(*[tz(i) for i in I]))), 'named:%s' % n, self.line)
            env[n] = Arr(a.typ, a.bounds, lambda I, f=f: f(*[tz(i) for i in I]), a._dfn, f)

    def apply(self, u, c, env, writers, st):
        """use the contract of u at a call site"""
        snap = self.contract_of_unit.get('snap')
        if snap:
            self.snapshot(snap(self.key(u), View(env)), env, st)
        v = View(env)
        for lab, g in c['pre'](v) if 'pre' in c else []:
            self.ob(st, 'pre', g, 'pre:%s:%s' % (u.name, lab), self.line)
        # intent(in) arrays must be defined where the contract says it reads (default: everywhere)
        for n in u.args:
            d = u.decls[n]
            if env.get(n) is None or not d.dims or d.intent == 'out':
                continue
            a = env[n]
            if a._dfn is None:
                continue
            rd = c.get('reads', {}).get(n)
            I = [gfresh(b) for b in a.bounds]
            g = land(*[ginside(b, i) for b, i in zip(a.bounds, I)])
            if rd is not None:
                g = land(g, rd(v, *I))
            self.ob(st, 'defined', Forall(gflat(I), g, a.dfn(I)), 'defined:%s:%s' % (u.name, n), self.line)
        out = c['out'](v)
        new = {}
        for n, val in out.items():
            if n == u.result or n == 'result':
                continue
            d = u.decls[n]
            if env.get(n) is None and d.optional:
                continue
            if d.dims:
                a = env[n]
                fr = c.get('frame', {}).get(n)
                new[n] = Arr(d.typ, a.bounds, lambda I, f=val: f(*I),
                             None if fr is None else fr)
            else:
                new[n] = val
        for n in u.args:
            d = u.decls[n]
            if d.intent in ('out', 'inout', None) and env.get(n) is not None and n not in new:
                raise Unsupported('contract of %s is silent about %s' % (u.name, n))
        if 'facts' in c:
            st.assume(c['facts'](v, View(dict(new, result=out.get('result')))))
        self.write_back(u, env, writers, new, st)
        if u.result and u.decls[u.result].dims:
            d = u.decls[u.result]
            return Arr(d.typ, self.dims(u, d, env, st), lambda I, f=out['result']: f(*I))
        return out.get('result')

    def inline(self, u, env, writers, st):
        self.inlined.add(self.key(u))
        depth = getattr(self, 'depth', 0)
        if depth > 12:
            raise Unsupported('recursion')
        self.depth = depth + 1
        saved = self.unit, self.line, self.loopctx
        self.unit, self.loopctx = u, None
        s2 = State(dict(env), st.hyps)
        if u.parent is not None:      # host association
            for k, v in st.env.items():
                if k not in u.decls and k not in s2.env:
                    s2.env[k] = v
        self.locals(u, s2)
        for n in u.args:
            d = u.decls[n]
            if d.intent == 'out' and env.get(n) is not None:
                if d.dims:
                    a = s2.env[n]
                    b = Arr(a.typ, a.bounds, a._get, lambda I: False)
                    for k in ('actual', 'groups'):
                        if hasattr(a, k):
                            setattr(b, k, getattr(a, k))
                    s2.env[n] = b
                else:
                    s2.env[n] = UNDEF
        outs = self.block(u.body, s2)
        self.unit, self.line, self.loopctx = saved
        self.depth = depth
        outs = [(sig, s) for sig, s in outs]
        if any(sig not in (None, 'return') for sig, s in outs):
            raise Unsupported('stray exit in inlined %s' % u.name)
        if len(outs) != 1:
            s3 = self.merge([s for _, s in outs], s2)
        else:
            s3 = outs[0][1]
        st.hyps[:] = s3.hyps
        new = {}
        for n in u.args:
            d = u.decls[n]
            if env.get(n) is None:
                continue
            if d.intent in ('out', 'inout') or (d.intent is None):
                v = s3.env[n]
                if v is UNDEF:
                    self.ob(st, 'defined', False, 'out-defined:%s.%s' % (u.name, n), self.line)
                    v = fresh(n, SORT[d.typ])
                new[n] = v
        self.write_back(u, env, writers, new, st)
        if u.kind == 'function':
            r = s3.env[u.result]
            if r is UNDEF:
                self.ob(st, 'defined', False, 'result-defined:%s' % u.name, self.line)
                r = fresh(u.name, SORT[u.decls[u.result].typ])
            elif isinstance(r, Arr) and r._dfn is not None:
                self.arrdef(r, st, u.name)
            return r

    def locals(self, u, st):
        for n, d in u.decls.items():
            if n in st.env and n in u.args:
                continue
            if d.value is not None:
                st.env[n] = self.ev(d.value, st)
        for n, d in u.decls.items():
            if n in u.args or d.value is not None:
                continue
            if d.dims:
                b = self.dims(u, d, st.env, st)
                f = ffun(n, *([INT] * len(b) + [SORT[d.typ]]))
                st.env[n] = Arr(d.typ, b, lambda I, f=f: f(*[tz(i) for i in I]), lambda I: False)
            else:
                st.env[n] = UNDEF

    # ------------------------------------------------------------ statements
    def setvar(self, n, v, st):
        d = self.unit.decls.get(n)
        u = self.unit
        while d is None and u.parent is not None:
            u = u.parent
            d = u.decls.get(n)
        if d is None:
            raise FrontendError('%s: undeclared %s' % (self.fname, n))
        self.log_write(n, None)
        st.env[n] = self.coerce(v, d.typ)

    def coerce(self, v, typ):
        if v is UNDEF:
            return v
        if typ == 'real':
            return toreal(v)
        if typ == 'int' and (isinstance(v, Fraction) or (z3.is_expr(v) and v.sort() == REAL)):
            raise Unsupported('real to integer conversion')
        return v

    def log_write(self, n, ix):
        if self.loopctx is not None:
            self.loopctx.append((n, ix))

    def block(self, stmts, st):
        live, done = [st], []
        for s in stmts:
            nxt = []
            for x in live:
                for sig, y in self.stmt(s, x):
                    (nxt if sig is None else done).append(y if sig is None else (sig, y))
            live = nxt
            if not live:
                break
        return done + [(None, x) for x in live]

    def feasible(self, hyps):
        s = z3.Solver()
        s.set('timeout', 300)
        for h in hyps:
            if not isinstance(h, Forall) and z3.is_expr(h):
                s.add(h)
        return s.check() != z3.unsat

    def stmt(self, s, st):
        self.line = s.line
        k = s.kind
        if k == 'continue':
            return [(None, st)]
        if k in ('return', 'exit', 'cycle'):
            return [(k, st)]
        if k == 'stop':
            self.ob(st, 'stop', False, 'stop-unreachable', s.line)
            return []
        if k == 'assign':
            self.assign(s, st)
            return [(None, st)]
        if k == 'call':
            u = self.resolve(self.unit, s.name)
            if u is None or u.kind != 'subroutine':
                raise FrontendError('%s line %d: unknown subroutine %s' % (self.fname, s.line, s.name))
            self.call(u, s.args, st)
            return [(None, st)]
        if k == 'if':
            return self.do_if(s, st)
        if k == 'select':
            v = self.ev(s.sel, st)
            arms, rest = [], []
            for vals, body in s.cases:
                c = []
                for x in vals:
                    if x[0] == 'slice':
                        lo = self.ev(x[1], st) if x[1] else None
                        hi = self.ev(x[2], st) if x[2] else None
                        c.append(land(True if lo is None else le(lo, v), True if hi is None else le(v, hi)))
                    else:
                        c.append(eq(v, self.ev(x, st)))
                arms.append((lor(*c), body))
            return self.branches(arms, s.default, st)
        if k == 'do':
            return self.do_loop(s, st)
        if k == 'while':
            return self.do_while(s, st)
        if k == 'forall':
            self.do_forall(s, st)
            return [(None, st)]
        raise Unsupported('statement %s' % k)

    def assign(self, s, st):
        lhs = s.lhs
        n = lhs[1]
        v = self.ev(s.rhs, st)
        tgt = st.env.get(n)
        if n not in st.env:
            raise FrontendError('%s line %d: assignment to %s' % (self.fname, s.line, n))
        d = self.unit.decls.get(n)
        if d is not None and d.intent == 'in' and not self.unit.parent:
            raise FrontendError('%s line %d: assignment to intent(in) %s' % (self.fname, s.line, n))
        if not isinstance(tgt, Arr):
            if lhs[0] == 'ref' or isinstance(v, Arr):
                raise FrontendError('%s line %d: bad assignment to %s' % (self.fname, s.line, n))
            self.setvar(n, v, st)
            return
        if lhs[0] == 'name':
            ix = [('s', lo, hi) for lo, hi in tgt.bounds]
        else:
            ix = self.index(tgt, lhs[2], st)
            self.check_bounds(tgt, ix, st, n)
        if all(x[0] == 'i' for x in ix):
            if isinstance(v, Arr):
                raise FrontendError('%s line %d: array to element' % (self.fname, s.line))
            I = [x[1] for x in ix]
            self.log_write(n, ix)
            st.env[n] = tgt.store(I, self.coerce(v, tgt.typ))
            return
        if isinstance(v, Arr):
            ds = [x for x in ix if x[0] == 's']
            if len(ds) != v.rank:
                raise FrontendError('%s line %d: rank' % (self.fname, s.line))
            for x, dd in zip(ds, range(v.rank)):
                e = add(sub(x[2], x[1]), 1)
                self.ob(st, 'bounds', lor(eq(e, v.ext(dd)), land(le(e, 0), le(v.ext(dd), 0))), 'conform', s.line)
            typ = tgt.typ
            # the right-hand side is evaluated first: freeze nothing is needed, closures are values
            self.assign_section(n, ix, lambda K: self.coerce(v.rel(K), typ), lambda K: True, st)
        else:
            c = self.coerce(v, tgt.typ)
            self.assign_section(n, ix, lambda K: c, lambda K: True, st)

    def do_if(self, s, st):
        return self.branches([(c, b) for c, b in s.arms], s.els, st, lazy=True)

    def branches(self, arms, els, st, lazy=False):
        outs = []
        cur = st
        base = st.copy()
        for c, b in arms:
            cv = self.ev(c, cur) if lazy else c
            if cv is True:
                outs.append((True, cur, b))
                cur = None
                break
            if cv is False:
                continue
            cv_s = cv
            t = cur.copy()
            t.hyps.append(cv_s)
            if self.feasible(t.hyps):
                outs.append((cv_s, t, b))
            cur = cur.copy()
            cur.hyps.append(lnot(cv_s))
            if not self.feasible(cur.hyps):
                cur = None
                break
        if cur is not None:
            outs.append((None, cur, els))
        res = []
        for c, t, b in outs:
            res += self.block(b, t)
        if self.merging and len(res) > 1 and all(sig is None for sig, _ in res):
            m = self.merge([y for _, y in res], base)
            return [(None, m)]
        return res

    def merge(self, states, base):
        """ite-merge of states which extend the hypotheses of base"""
        n0 = 0
        # common prefix of hypotheses
        while all(len(s.hyps) > n0 for s in states) and \
                all(s.hyps[n0] is states[0].hyps[n0] for s in states):
            n0 += 1
        conds = []
        for s in states:
            g = [h for h in s.hyps[n0:]]
            conds.append(g)
        acc = states[-1]
        env = dict(acc.env)
        hyps = list(states[0].hyps[:n0])
        # guard of a state: its first own hypotheses (branch condition) -- all ground ones conjoined
        guards = []
        for s in states:
            guards.append(land(*[h for h in s.hyps[n0:] if not isinstance(h, Forall)]))
        for s, g in zip(reversed(states[:-1]), reversed(guards[:-1])):
            for k in env:
                env[k] = self.merge_val(g, s.env.get(k), env[k])
        hyps.append(lor(*guards))
        for s, g in zip(states, guards):
            for h in s.hyps[n0:]:
                if isinstance(h, Forall):
                    hyps.append(Forall(h.vars, land(g, h.guard), h.body))
        out = State(env, hyps)
        return out

    def merge_val(self, g, a, b):
        if a is b:
            return a
        for x in (a, b):
            if isinstance(x, LostScalar):
                return x
        if a is UNDEF or b is UNDEF:
            return UNDEF       # conservatively undefined
        if isinstance(a, Arr):
            x, y = a, b
            return Arr(a.typ, a.bounds, lambda I: ite(g, x.get(I), y.get(I)),
                       None if a._dfn is None and b._dfn is None else (lambda I: ite_b(g, x.dfn(I), y.dfn(I))))
        if a is None or b is None:
            return None
        return ite(g, a, b)

    # ------------------------------------------------------------ loops
    def assigned(self, stmts, acc=None, unit=None):
        acc = set() if acc is None else acc
        unit = unit or self.unit
        for s in stmts:
            if s.kind == 'assign':
                acc.add(s.lhs[1])
            elif s.kind == 'do':
                acc.add(s.var)
                self.assigned(s.body, acc, unit)
            elif s.kind in ('while',):
                self.assigned(s.body, acc, unit)
            elif s.kind == 'forall':
                self.assigned(s.body, acc, unit)
            elif s.kind == 'if':
                for c, b in s.arms:
                    self.assigned(b, acc, unit)
                self.assigned(s.els, acc, unit)
            elif s.kind == 'select':
                for c, b in s.cases:
                    self.assigned(b, acc, unit)
                self.assigned(s.default, acc, unit)
            elif s.kind == 'call':
                u = self.resolve(unit, s.name)
                if u is None:
                    raise FrontendError('unknown subroutine %s' % s.name)
                for a, n in zip(s.args, u.args):
                    if u.decls[n].intent != 'in' and a[0] in ('name', 'ref'):
                        acc.add(a[1])
                if u.parent is not None:
                    inner = self.assigned(u.body, set(), u)
                    acc |= {x for x in inner if x not in u.decls}
        return acc

    def do_forall(self, s, st):
        """forall/do concurrent: assignments to array elements, all right-hand sides first"""
        for a in s.body:
            if a.kind != 'assign' or a.lhs[0] != 'ref':
                raise Unsupported('forall body (line %d)' % s.line)
        if s.mask is not None:
            raise Unsupported('forall mask (line %d)' % s.line)
        for a in s.body:
            body = [S('assign', a.line, lhs=a.lhs, rhs=a.rhs)]
            snap = st.copy()
            for v, lo, hi in reversed(s.vars):
                body = [S('do', s.line, var=v, lo=lo, hi=hi, step=('int', 1), body=body, forall=True)]
            for n, (v, lo, hi) in enumerate(s.vars):
                pass
            saved = {v: st.env.get(v) for v, lo, hi in s.vars}
            # simultaneous semantics = sequential map loop unless the rhs reads the target
            if self.reads(a.rhs, a.lhs[1]):
                raise Unsupported('forall reading its target (line %d)' % s.line)
            r = self.do_loop(body[0], st)
            if len(r) != 1 or r[0][0] is not None:
                raise Unsupported('forall (line %d)' % s.line)
            ns = r[0][1]
            for v, x in saved.items():
                ns.env[v] = x
            st.env, st.hyps = ns.env, ns.hyps

    def reads(self, e, n):
        if isinstance(e, tuple):
            if e[0] in ('name', 'ref') and e[1] == n:
                return True
            return any(self.reads(x, n) for x in e)
        if isinstance(e, list):
            return any(self.reads(x, n) for x in e)
        return False

    def do_loop(self, s, st):
        lo, hi, step = self.ev(s.lo, st), self.ev(s.hi, st), self.ev(s.step, st)
        if step not in (1, -1):
            raise Unsupported('loop step (line %d)' % s.line)
        down = step == -1
        inv = self.invariant(s)
        if inv is None:
            if isc(lo) and isc(hi):
                n = (lo - hi if down else hi - lo) + 1
                if n <= self.opts.get('unroll', 130):
                    return self.unroll(s, st, lo, hi, down)
            r = self.summarise(s, st, lo, hi, down)
            if r is not None:
                return [(None, r)]
            raise Unsupported('%s: loop over %s at line %d needs an invariant (%s)' % (self.fname, s.var, s.line, getattr(self, 'why', '')))
        return self.with_invariant(s, st, inv, lo, hi, down)

    def unroll(self, s, st, lo, hi, down):
        live, done = [st], []
        k = lo
        while (k >= hi) if down else (k <= hi):
            nxt = []
            for x in live:
                x.env[s.var] = k
                for sig, y in self.block(s.body, x):
                    if sig in (None, 'cycle'):
                        nxt.append(y)
                    elif sig == 'exit':
                        done.append((None, y))
                    else:
                        done.append((sig, y))
            live = nxt
            k += -1 if down else 1
        for x in live:
            x.env[s.var] = k
        return done + [(None, x) for x in live]

    def invariant(self, s):
        c = self.contract_of_unit
        if c is None or 'loops' not in c or self.unit is not self.cunit:
            return None
        o = self.loop_ids.get(id(s))
        if o is None:
            # a loop statement synthesised from forall
            return None
        return c['loops'].get(o)

    def poison(self, n, st):
        """arbitrary value for variable n, defined wherever it is defined now"""
        v = st.env.get(n)
        d = self.decl(n)
        if isinstance(v, Arr):
            f = ffun(n, *([INT] * v.rank + [SORT[v.typ]]))
            return Arr(v.typ, v.bounds, lambda I, f=f: f(*[tz(i) for i in I]), v._dfn), f
        x = fresh(n, SORT[d.typ])
        return x, x

    def decl(self, n):
        u = self.unit
        while u is not None:
            if n in u.decls:
                return u.decls[n]
            u = u.parent
        raise FrontendError('%s: undeclared %s' % (self.fname, n))

    def summarise(self, s, st, lo, hi, down):
        """exact rule for loops whose iterations are independent (map) or accumulate (reduction)"""
        if down:
            # order is irrelevant for independent iterations; treat as ascending
            lo, hi = hi, lo
        written = sorted(self.assigned(s.body) - {s.var})
        i = fint(s.var)
        counters = {}
        for attempt in range(2):
            st2 = st.copy()
            pois = {}
            for w in written:
                if w in counters:
                    st2.env[w] = counters[w][2](i)
                    continue
                if st.env.get(w) is UNDEF or isinstance(st.env.get(w), LostScalar):
                    st2.env[w] = st.env.get(w)
                    continue
                st2.env[w], pois[w] = self.poison(w, st)
            st2.env[s.var] = i
            n0 = len(st2.hyps)
            st2.assume(le(lo, i), le(i, hi))
            nb = len(st2.hyps)
            log = []
            saved_ctx, saved_m, saved_obs = self.loopctx, self.merging, self.obs
            self.loopctx, self.merging = log, True
            self.obs = []
            try:
                outs = self.block(s.body, st2)
            finally:
                obs = self.obs
                self.loopctx, self.merging, self.obs = saved_ctx, saved_m, saved_obs
            outs = [(None if g == 'cycle' else g, y) for g, y in outs]
            if len(outs) != 1 or outs[0][0] is not None:
                if all(g is None for g, y in outs) and outs:
                    m = self.merge([y for _, y in outs], st2)
                    outs = [(None, m)]
                else:
                    return None
            fin = outs[0][1]
            if attempt == 0:
                counters = {}
                for w in written:
                    if w in pois and isinstance(pois[w], z3.ExprRef) and pois[w].sort() == INT:
                        g = sub(fin.env[w], pois[w])
                        names = consts_in(g)
                        if isc(g) and g != 0:
                            v0 = st.env[w]
                            counters[w] = (g, v0, (lambda ii, g=g, v0=v0: add(v0, mul(g, sub(ii, lo))))
                                           if not down else
                                           (lambda ii, g=g, v0=v0: add(v0, mul(g, sub(hi, ii)))))
                if not counters:
                    break
        pnames = {w: (p.name() if isinstance(p, z3.FuncDeclRef) else p.decl().name()) for w, p in pois.items()}
        allp = set(pnames.values())
        iname = i.decl().name()
        new_env = {}
        nonempty = le(lo, hi)
        last = lo if down else hi
        priv_poison = set()
        plans = {}
        lname = {}
        for n, ix in log:
            lname.setdefault(n, []).append(ix)
        final_names = {}
        for w in written:
            v = fin.env[w]
            old = st.env.get(w)
            if isinstance(v, LostScalar) or isinstance(old, LostScalar) and z3.is_expr(v) and consts_in(v) & allp:
                new_env[w] = v if isinstance(v, LostScalar) else old
                continue
            if w in counters:
                g, v0, f = counters[w]
                new_env[w] = ite(nonempty, add(v0, mul(g, add(sub(hi, lo), 1))), v0)
                continue
            if v is UNDEF:
                new_env[w] = UNDEF
                continue
            if not isinstance(v, Arr):
                nm = consts_in(v)
                bad = nm & allp
                if not bad:
                    new_env[w] = (ite(nonempty, subst(v, [(i, last)]), old) if old is not UNDEF else
                                  (subst(v, [(i, last)]) if nonempty is True else CondDef(nonempty, subst(v, [(i, last)]))))
                    if isinstance(new_env[w], CondDef):
                        new_env[w] = UNDEF
                    continue
                if w in pnames and bad == {pnames[w]}:
                    g = simp(sub(v, pois[w]))
                    g = self.unpoison(g, pois[w], iname)
                    if not (consts_in(g) & allp):
                        isreal = self.decl(w).typ == 'real'
                        if iname not in consts_in(g):
                            cnt = add(sub(hi, lo), 1)
                            tot = mul(g, toreal(cnt) if isreal else cnt)
                            new_env[w] = add(old, ite(nonempty, tot, Fraction(0) if isreal else 0))
                        else:
                            new_env[w] = add(old, SUM(lo, hi, lambda k: subst(g, [(i, k)]), isreal))
                        continue
                new_env[w] = LostScalar('%s: value of %s after the loop at line %d needs an invariant' % (self.fname, w, s.line))
                continue
            why = '%s: contents of %s after the loop at line %d need an invariant' % (self.fname, w, s.line)
            try:
                r = self.classify(w, v, st, fin, i, lo, hi, nonempty, last, pois.get(w), pnames, allp, lname.get(w, []))
            except Lost:
                r = None
            if r is None:
                r = lost_arr(v, why)
            new_env[w] = r
        # keep obligations of the generic iteration
        if not self.mute:
            self.obs += obs
        res = State(dict(st.env), list(st.hyps))
        for w, v in new_env.items():
            res.env[w] = v
        res.env[s.var] = add(hi, 1) if nonempty is True and not down else \
            (ite(nonempty, add(hi, 1), lo) if not down else ite(nonempty, sub(lo, 1), hi))
        # facts established for every iteration
        for h in fin.hyps[nb:]:
            nm = set()
            if isinstance(h, Forall):
                nm = consts_in(h.body) | consts_in(h.guard)
            else:
                nm = consts_in(h)
            if nm & allp:
                continue
            if isinstance(h, Forall):
                if iname in nm:
                    res.hyps.append(Forall([i] + h.vars, land(rng(lo, hi, i), h.guard), h.body))
                else:
                    res.hyps.append(Forall(h.vars, land(nonempty, h.guard), h.body))
            else:
                if iname in nm:
                    res.hyps.append(Forall([i], rng(lo, hi, i), h))
                else:
                    res.hyps.append(imp(nonempty, h))
        for w, ixs in lname.items():
            for ix in ixs:
                self.log_write(w, None if ix is None else [widen(x, i) for x in ix])
        return res

    def unpoison(self, g, p, iname):
        return g

    def classify(self, w, v, st, fin, i, lo, hi, nonempty, last, pf, pnames, allp, writes):
        old = st.env[w]
        iname = i.decl().name()
        I = [fint('x%d' % d) for d in range(v.rank)]
        me = pnames.get(w)
        # 1. which dimension carries the iteration?
        cand = []
        for ix in writes:
            if ix is None:
                cand = None
                break
            c = set()
            for d, x in enumerate(ix):
                if x[0] != 'i':
                    continue
                e = x[1]
                if iname not in consts_in(e):
                    continue
                off = simpi(tz(sub(e, i)))
                if iname not in consts_in(off) and not (consts_in(off) & allp):
                    c.add((d, 1, str(off)))
                    offs[(d, 1, str(off))] = off
                    continue
                off = simpi(tz(add(e, i)))
                if iname not in consts_in(off) and not (consts_in(off) & allp):
                    c.add((d, -1, str(off)))
                    offs[(d, -1, str(off))] = off
            cand = c if cand == [] else (cand & c)
        if cand is None:
            cand = set()
        for key in sorted(cand or ()):
            d, sg, _ = key
            off = offs[key]
            at_i = add(i, off) if sg == 1 else sub(off, i)          # index written in iteration i
            J = list(I)
            J[d] = at_i
            val = in_loop(v, J, i, lo, hi)
            vd = v.dfn(J)
            ok = self.own_slice(val, w, me, allp, d, at_i) and self.own_slice(vd, w, me, allp, d, at_i)
            if not ok:
                continue
            inv_i = (lambda x: sub(x, off)) if sg == 1 else (lambda x: sub(off, x))

            def sub_old(t, pf=pf):
                """occurrences of the poison at its own slice are the value before the loop"""
                if isc(t) or pf is None or me not in consts_in(t):
                    return t
                vs = [z3.Var(n, INT) for n in range(v.rank)]
                return norm(z3.substitute_funs(t, (pf, tz(old.get(vs), v.typ == 'real') if v.typ != 'log'
                                                   else tz(old.get(vs)))))
            val, vd = sub_old(val), sub_old(vd)

            def get(K, val=val):
                k = inv_i(K[d])
                c = rng(lo, hi, k)
                x = subst(val, [(i, k)] + [(a, b) for n, (a, b) in enumerate(zip(I, K)) if n != d])
                return ite(c, x, old.get(K)) if c is not True else x

            def dfn(K, vd=vd):
                k = inv_i(K[d])
                c = rng(lo, hi, k)
                x = subst(vd, [(i, k)] + [(a, b) for n, (a, b) in enumerate(zip(I, K)) if n != d])
                return ite_b(c, x, old.dfn(K))
            return Arr(v.typ, v.bounds, get, None if old._dfn is None and v._dfn is None else dfn)
        # 2. whole-array value
        val, vd = v.get(I), v.dfn(I)
        nm = consts_in(val) | consts_in(vd)
        bad = nm & allp
        if not bad:
            if iname not in nm and nonempty is True:
                return v

            def get(K):
                x = subst(val, [(i, last)] + list(zip(I, K)))
                return ite(nonempty, x, old.get(K))

            def dfn(K):
                x = subst(vd, [(i, last)] + list(zip(I, K)))
                return ite_b(nonempty, x, old.dfn(K))
            return Arr(v.typ, v.bounds, get, None if old._dfn is None else dfn)
        # 3. reduction
        if bad == {me}:
            base = pf(*I)
            g = z3.simplify(tz(val) - base, som=True)
            # conditional accumulation: ite(c, p+g, p)
            g = distribute_ite(tz(val), base) if me in consts_in(g) else g
            if g is not None and me not in consts_in(g):
                def get(K):
                    return add(old.get(K), SUM(lo, hi, lambda k: subst(g, [(i, k)] + list(zip(I, K))), v.typ == 'real'))
                return Arr(v.typ, v.bounds, get, old._dfn)
        return None

    def own_slice(self, t, w, me, allp, d, at_i):
        """every poison occurrence in t is of w itself and at index at_i in dimension d"""
        if isc(t):
            return True
        nm = consts_in(t) & allp
        if not nm:
            return True
        if nm != {me}:
            return False
        okk = True
        for a in find_apps(t, me):
            x = sub(norm(a.arg(d)), at_i)
            if not (isc(x) and x == 0):
                return False
        return True

    def with_invariant(self, s, st, inv, lo, hi, down):
        forced = set()
        while True:
            n = len(self.obs)
            st_ = st.copy()
            r, lost = self.with_invariant1(s, st_, inv, lo, hi, down, forced)
            if lost <= forced:
                return r
            forced |= lost
            del self.obs[n:]

    def with_invariant1(self, s, st, inv, lo, hi, down, forced):
        """do-loop with an invariant; the loop variable is symbolic at the loop head"""
        entry = View(dict(st.env))
        written = sorted(self.assigned(s.body) - {s.var})
        # --- initialisation (an empty loop also satisfies it: var = lo)
        st0 = st.copy()
        nonempty = le(hi, lo) if down else le(lo, hi)
        st0.env[s.var] = lo
        e0 = View(st0.env, entry)
        if not inv.get('empty_ok', True):
            self.ob(st0, 'loop', nonempty, 'loop-nonempty:%s' % s.var, s.line)
        if 'init_lemmas' in inv:
            st0.assume(inv['init_lemmas'](e0))
            st.assume(inv['init_lemmas'](e0))
        for lab, g in inv['inv'](e0):
            self.ob(st0, 'inv-init', imp2(nonempty, g), 'inv-init:%s:%s' % (s.var, lab), s.line, inv.get('hints'))
        for lab, w, g in self.defs(inv, e0):
            self.ob(st0, 'inv-init', fimp(nonempty, g), 'inv-init-def:%s:%s' % (s.var, w), s.line)
        # --- arbitrary iteration
        st1 = st.copy()
        st1.assume(nonempty)
        i = fint(s.var)
        self.havoc(written, inv, st1, st, forced)
        lost = set()
        st1.env[s.var] = i
        if down:
            st1.assume(le(sub(hi, 1), i), le(i, lo))
        else:
            st1.assume(le(lo, i), le(i, add(hi, 1)))
        v1 = View(st1.env, entry)
        for lab, g in inv['inv'](v1):
            st1.assume(g)
        body = st1.copy()
        body.assume(le(hi, i) if down else le(i, hi))
        exits = []
        sig_out = []
        saved = self.loopctx
        self.loopctx = None
        outs = self.block(s.body, body)
        self.loopctx = saved
        for w in written:
            self.log_write(w, None)
        self.log_write(s.var, None)
        for sig, y in outs:
            if sig in (None, 'cycle'):
                lost |= {w for w in written if y.env.get(w) is UNDEF and st.env.get(w) is not UNDEF}
                y.env[s.var] = sub(i, 1) if down else add(i, 1)
                vy = View(y.env, entry)
                if 'lemmas' in inv:
                    y.assume([f for f in inv['lemmas'](View(dict(y.env), entry, {'_i': i}))])
                for lab, g in inv['inv'](vy):
                    self.ob(y, 'inv-step', g, 'inv-step:%s:%s' % (s.var, lab), s.line, inv.get('hints'))
                for lab, w, g in self.defs(inv, vy):
                    self.ob(y, 'inv-step', g, 'inv-step-def:%s:%s' % (s.var, w), s.line)
            elif sig == 'exit':
                exits.append(y)
            else:
                sig_out.append((sig, y))
        done = st1.copy()
        done.assume(lt(i, hi) if down else lt(hi, i))
        done.env[s.var] = sub(hi, 1) if down else add(hi, 1)
        p = [(i, done.env[s.var])]
        done = State({k: esub(v, p) for k, v in done.env.items()}, [fsubst(h, p) for h in done.hyps])
        res = [(None, done)]
        if nonempty is not True:
            empty = st.copy()
            empty.assume(lnot(nonempty))
            empty.env[s.var] = lo
            if self.feasible(empty.hyps):
                if inv.get('merge_empty'):
                    # the invariant holds for the untouched state as well: use it for both
                    pass
                res.append((None, empty))
        return res + [(None, y) for y in exits] + sig_out, lost

    def defs(self, inv, v):
        """definite-assignment part of an invariant: {'name': lambda s, *I: guard}"""
        out = []
        for w, f in inv.get('defined', {}).items():
            a = v._e[w]
            if isinstance(a, Arr):
                I = [fint('x') for _ in a.bounds]
                out.append(('defined', w, Forall(I, land(a.inside(I), f(v, *I)), a.dfn(I))))
        return out

    def havoc(self, written, inv, st1, st, forced=()):
        dd = inv.get('defined', {})
        for w in written:
            v = st.env.get(w)
            d = self.decl(w)
            if isinstance(v, Arr):
                f = ffun(w, *([INT] * v.rank + [SORT[v.typ]]))
                if v._dfn is None:
                    dfn = None
                elif w in dd:
                    g = dd[w]
                    od = v._dfn
                    dfn = (lambda I, g=g: g(View(st1.env), *I))
                else:
                    dfn = v._dfn
                st1.env[w] = Arr(v.typ, v.bounds, lambda I, f=f: f(*[tz(i) for i in I]), dfn)
            elif v is UNDEF or w in forced:
                st1.env[w] = UNDEF
            elif v is None:
                continue
            else:
                st1.env[w] = fresh(w, SORT[d.typ])

    def do_while(self, s, st):
        inv = self.invariant(s)
        if inv is None:
            # concrete unrolling as long as the condition folds
            live, done = [st], []
            for _ in range(self.opts.get('unroll', 130)):
                nxt = []
                for x in live:
                    self.line = s.line
                    c = self.ev(s.cond, x)
                    if not isc(c):
                        raise Unsupported('%s: while loop at line %d needs an invariant' % (self.fname, s.line))
                    if not c:
                        done.append((None, x))
                        continue
                    for sig, y in self.block(s.body, x):
                        if sig in (None, 'cycle'):
                            nxt.append(y)
                        else:
                            done.append((None if sig == 'exit' else sig, y))
                live = nxt
                if not live:
                    return done
            raise Unsupported('%s: while loop at line %d: unrolling limit' % (self.fname, s.line))
        forced = set()
        while True:
            n = len(self.obs)
            r, lost = self.while1(s, st.copy(), inv, forced)
            if lost <= forced:
                return r
            forced |= lost
            del self.obs[n:]

    def while1(self, s, st, inv, forced):
        lost = set()
        entry = View(dict(st.env))
        written = sorted(self.assigned(s.body))
        if 'init_lemmas' in inv:
            st.assume(inv['init_lemmas'](View(st.env, entry)))
        for lab, g in inv['inv'](View(st.env, entry)):
            self.ob(st, 'inv-init', g, 'inv-init:while:%s' % lab, s.line, inv.get('hints'))
        for lab, w, g in self.defs(inv, View(st.env, entry)):
            self.ob(st, 'inv-init', g, 'inv-init-def:while:%s' % w, s.line)
        st1 = st.copy()
        self.havoc(written, inv, st1, st, forced)
        for lab, g in inv['inv'](View(st1.env, entry)):
            st1.assume(g)
        body = st1.copy()
        self.line = s.line
        c = self.ev(s.cond, body)
        done = body.copy()
        body.assume(c)
        done.assume(lnot(c))
        var0 = inv['variant'](View(st1.env, entry))
        saved = self.loopctx
        self.loopctx = None
        outs = self.block(s.body, body)
        self.loopctx = saved
        for w in written:
            self.log_write(w, None)
        res = [(None, done)]
        for sig, y in outs:
            if sig in (None, 'cycle'):
                lost |= {w for w in written if y.env.get(w) is UNDEF and st.env.get(w) is not UNDEF}
                vy = View(y.env, entry)
                if 'lemmas' in inv:
                    y.assume(inv['lemmas'](View(dict(y.env), entry, {'_0': View(dict(st1.env))})))
                for lab, g in inv['inv'](vy):
                    self.ob(y, 'inv-step', g, 'inv-step:while:%s' % lab, s.line, inv.get('hints'))
                for lab, w, g in self.defs(inv, vy):
                    self.ob(y, 'inv-step', g, 'inv-step-def:while:%s' % w, s.line)
                v1 = inv['variant'](vy)
                self.ob(y, 'variant', land(le(0, var0), lt(v1, var0)), 'variant:while', s.line)
            elif sig == 'exit':
                res.append((None, y))
            else:
                res.append((sig, y))
        return res, lost

    # ------------------------------------------------------------ whole function
    def number_loops(self, u):
        self.loop_ids = {}
        cnt = [0]

        def walk(b):
            for s in b:
                if s.kind in ('do', 'while'):
                    cnt[0] += 1
                    self.loop_ids[id(s)] = cnt[0]
                    walk(s.body)
                elif s.kind == 'if':
                    for c, x in s.arms:
                        walk(x)
                    walk(s.els)
                elif s.kind == 'select':
                    for c, x in s.cases:
                        walk(x)
                    walk(s.default)
        walk(u.body)
        return cnt[0]

    def verify(self, key, config=None):
        """generate the obligations of one function"""
        c = self.contracts[key]
        parts = key.split('.')
        u = self.mods[parts[0]][parts[1]] if len(parts) == 2 else self.mods[parts[0]][parts[1]].contains[parts[2]]
        self.unit = self.cunit = u
        self.contract_of_unit = c
        self.fname = key + (':' + config['name'] if config else '')
        self.line = u.line
        self.loopctx, self.merging = None, c.get('merge', False)
        self.depth = 0
        self.number_loops(u)
        st = State({}, [])
        cfg = (config or {}).get('values', {})
        absent = (config or {}).get('absent', ())
        for n in u.args:
            d = u.decls[n]
            if n in absent:
                st.env[n] = None
            elif not d.dims:
                if d.intent == 'out':
                    st.env[n] = UNDEF
                elif n in cfg:
                    st.env[n] = cfg[n]
                else:
                    st.env[n] = z3.Const(n, SORT[d.typ])
        self.params(u, st.env, st)
        for n in u.args:
            d = u.decls[n]
            if d.dims and n not in absent:
                b = self.dims(u, d, st.env, st)
                f = z3.Function(n, *([INT] * len(b) + [SORT[d.typ]]))
                a = Arr(d.typ, b, lambda I, f=f: f(*[tz(i) for i in I]),
                        (lambda I: False) if d.intent == 'out' else None, sym=f if d.intent != 'out' else None)
                rd = c.get('reads', {}).get(n)
                if rd is not None and d.intent != 'out':
                    a._dfn = lambda I, rd=rd: rd(View(st.env), *I)
                st.env[n] = a
        args0 = View(dict(st.env))
        pre = c['pre'](args0) if 'pre' in c else []
        st.assume([g for _, g in pre])
        self.pre_hyps = list(st.hyps)
        if 'defs' in c:                 # definitions of auxiliary arrays
            st.assume(c['defs'](args0))
        for n_, g in enumerate(c['side'](args0) if 'side' in c else []):
            self.ob(st, 'post', g, 'side:%d' % n_)
        if 'pre_lemmas' in c:
            st.assume(c['pre_lemmas'](args0))
        self.locals(u, st)
        outs = self.block(u.body, st)
        spec = c['out'](args0)
        nret = 0
        for sig, y in outs:
            if sig not in (None, 'return'):
                raise FrontendError('stray %s' % sig)
            if not self.feasible(y.hyps):
                continue
            nret += 1
            self.line = None
            new = {}
            for n, f in spec.items():
                r = u.result if n == 'result' else n
                v = y.env[r]
                d = u.decls[r]
                if v is None:
                    continue
                if d.dims:
                    I = [fint('i') for _ in v.bounds]
                    self.ob(y, 'post', Forall(I, v.inside(I), v.dfn(I)), 'post-defined:%s' % n)
                    if f is not None and n not in c.get('relational', ()):
                        self.post_array(y, c, args0, n, v, f, 'post:%s' % n, 'post')
                        if n in c.get('recorded', {}):
                            self.post_array(y, c, args0, n, v, c['recorded'][n](args0), 'recorded:%s' % n, 'recorded')
                    new[n] = v
                else:
                    if v is UNDEF:
                        self.ob(y, 'post', False, 'post-defined:%s' % n)
                        v = fresh(n, SORT[d.typ])
                    elif f is not None and n not in c.get('relational', ()):
                        self.ob(y.copy(), 'post', eq(v, f), 'post:%s' % n, hints=c.get('hints'))
                    new[n] = v
            if 'post_facts' in c or 'facts' in c:
                o = View(dict(new), args0)
                hy = y.copy()
                if 'facts_lemmas' in c:
                    hy.assume(c['facts_lemmas'](View(dict(y.env), args0)))
                for n_, g in enumerate(c.get('post_facts', c.get('facts'))(args0, o)):
                    self.ob(hy.copy(), 'post', g, 'post-fact:%d' % n_, hints=c.get('hints'))
            # intent(in) arguments are untouched by construction (assignment to them is rejected)
        if nret == 0:
            raise Unsupported('%s: no feasible return' % key)
        self.final_states = outs
        return self.obs


offs = {}


def post_array(self, y, c, args0, n, v, f, what, kind):
    """obligations  v(I) == f(I) on the declared shape; small constant dimensions are enumerated"""
    import itertools
    ch = []
    for lo, hi in v.bounds:
        ch.append(range(lo, hi + 1) if isc(lo) and isc(hi) and hi - lo < c.get('enum', 5) else [None])
    for combo in itertools.product(*ch):
        V = [fint('i') if x is None else None for x in combo]
        I = [w if x is None else x for x, w in zip(combo, V)]
        hy = y.copy()
        if 'post_lemmas' in c:
            hy.assume(c['post_lemmas'](View(dict(y.env), args0), n, *I))
        tag = ','.join(':' if x is None else str(x) for x in combo)
        vs = [w for w in V if w is not None]
        g = eq(v.get(I), f(*I))
        inside = v.inside(I)
        nm = what if all(x is None for x in combo) else '%s(%s)' % (what, tag)
        self.ob(hy, kind, Forall(vs, inside, g) if vs else imp(inside, g), nm, hints=c.get('hints'))


Engine.post_array = post_array


class GB(tuple):
    """bounds of a flattened dimension: (lo, hi) plus the bounds of its parts"""
    def __new__(cls, lo, hi, parts):
        t = tuple.__new__(cls, (lo, hi))
        t.parts = parts
        return t


class CondDef:
    def __init__(self, c, v):
        self.c, self.v = c, v


def gsum(arr, d, f):
    """sum over dimension d of arr (nested sums if it is a flattened dimension)"""
    b = arr.bounds[d]
    if isinstance(b, GB):
        def rec(k, I):
            if k == len(b.parts):
                return f(tuple(I))
            lo, hi = b.parts[k]
            return SUM(lo, hi, lambda x: rec(k + 1, I + [x]))
        return rec(0, [])
    return SUM(b[0], b[1], f, True)


def gshift(i, o):
    if isinstance(i, tuple):
        return i
    return add(i, o)


def gfresh(b):
    if isinstance(b, GB):
        return tuple(fint('x') for _ in b.parts)
    return fint('x')


def ginside(b, i):
    if isinstance(b, GB):
        return land(*[rng(lo, hi, k) for (lo, hi), k in zip(b.parts, i)])
    return rng(b[0], b[1], i)


def gflat(I):
    out = []
    for i in I:
        out += list(i) if isinstance(i, tuple) else [i]
    return out


def ite_b(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is True and b is True:
        return True
    if a is True:
        return lor(c, b)
    if a is False:
        return land(lnot(c), b)
    if b is True:
        return lor(lnot(c), a)
    if b is False:
        return land(c, a)
    return z3.If(c, tz(a), tz(b))


def in_loop(v, J, i, lo, hi):
    """v(J) for an index inside v, in an iteration of the loop"""
    x = v.get(J)
    if not z3.is_expr(x):
        return x
    facts = [f for f in (tz(lo) <= i, i <= tz(hi)) if pure_int(f)]
    for b, j in zip(v.bounds, J):
        if not isinstance(b, GB):
            facts += [f for f in (tz(b[0]) <= tz(j), tz(j) <= tz(b[1])) if z3.is_expr(f) and pure_int(f)]
    names = set()
    for f in facts:
        names |= consts_in(f)
    return under(x, facts, names)


def unflatten(i, parts):
    """indices of element i (from 0) of consecutive dimensions of constant extent"""
    out = []
    for lo, hi in parts:
        e = add(sub(hi, lo), 1)
        if not isc(e):
            raise Unsupported('flattened dimension indexed element-wise')
        out.append(add(lo, imod(i, e)))
        i = idiv(i, e)
    return tuple(out)


def tz_eq(a, b):
    c = eq(a, b)
    if c is True:
        return True
    if isc(a) and isc(b):
        return a == b
    x = z3.simplify(tz(a) - tz(b), som=True)
    return z3.is_int_value(x) and x.as_long() == 0


def imp2(c, g):
    return fimp(c, g)


def fimp(c, g):
    if c is True:
        return g
    if isinstance(g, Forall):
        return Forall(g.vars, land(c, g.guard), g.body, g.label)
    return imp(c, g)


def esub(v, p):
    if isinstance(v, Arr):
        return Arr(v.typ, [(subst(a, p), subst(b, p)) for a, b in v.bounds],
                   lambda I: subst(v.get(I), p),
                   None if v._dfn is None else (lambda I: subst(v.dfn(I), p)), v.sym)
    if v is UNDEF or v is None or isc(v) or isinstance(v, LostScalar):
        return v
    return subst(v, p)


def find_apps(t, name):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == name and x.num_args():
                out.append(x)
            st.extend(x.children())
    return out


def distribute_ite(val, base):
    """val - base for val built from ite over (base + g | base)"""
    if z3.is_app(val) and val.decl().kind() == z3.Z3_OP_ITE:
        a = distribute_ite(val.arg(1), base)
        b = distribute_ite(val.arg(2), base)
        if a is None or b is None:
            return None
        return z3.If(val.arg(0), a, b)
    return z3.simplify(val - base, som=True)


def widen(x, i):
    """index term of a nested loop seen from outside: anything mentioning the inner variable is 'some index'"""
    n = i.decl().name()
    if x[0] == 'i' and n in consts_in(x[1]):
        return ('w', None)
    return x
