"""Symbolic execution of real Python functions: scalars, path decisions, obligations (engine B).

The functions under contract are executed by the Python interpreter from /repo's source; numpy, the compiled
kernels and a few builtins are replaced (symnp.py, kern.py).  A truth value that the facts of the path do not
decide forks the path (the run is repeated with the other decision), so all paths are covered; a construct
outside the shim raises Unsupported and the unit is left undecided.
"""
from fractions import Fraction
import sys
import z3
from terms import *
import prover


class Unsupported(BaseException):
    """outside the modelled subset: no verdict"""


class TooMany(Unsupported):
    pass


class PathEnd(BaseException):
    """end of a path which only checks one iteration of a loop against its invariant"""


class ModelRaised(Exception):
    """marker of exceptions which numpy or the kernels' argument checks would raise"""


_exc = {}


def pyerr(cls, msg=''):
    if cls not in _exc:
        _exc[cls] = type(cls.__name__, (ModelRaised, cls), {})
    return _exc[cls](msg)


class Obl:
    def __init__(self, name, hyps, goal, kind, hints=None):
        self.name, self.hyps, self.goal, self.kind, self.hints = name, hyps, goal, kind, hints or {}


class Ctx:
    cur = None

    def __init__(self, prefix=(), base=(), dlog=()):
        self.facts = list(base)
        self.prefix, self.taken = list(prefix), []
        self.replay, self.dlog = list(dlog), []       # answers of decided(): the same run up to the branch
        self.alts = []
        self.obs = []
        self.inputs = []          # buffers which must keep their contents
        self.cache = {}
        self.trace = []

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.assume(*f)
            elif isinstance(f, SBool):
                self.assume(f.t)
            elif f is True:
                pass
            elif f is False:
                self.facts.append(z3.BoolVal(False))
            else:
                self.facts.append(f)

    def ob(self, name, goal, kind='post', hints=None):
        if isinstance(goal, SBool):
            goal = goal.t
        if isinstance(goal, (list, tuple)):
            for k, g in enumerate(goal):
                self.ob('%s#%d' % (name, k), g, kind, hints)
            return
        if len(self.taken) < len(self.prefix):
            return                    # already generated on the path this one branches off
        self.obs.append(Obl(name, list(self.facts), goal, kind, hints))

    def check(self, name, goal, kind='call', hints=None):
        """an obligation which is a fact from here on"""
        self.ob(name, goal, kind, hints)
        self.assume(goal)

    def split(self):
        g, fa = [], []
        for f in self.facts:
            (fa if isinstance(f, Forall) else g).append(f)
        return g, fa

    def decided(self, c):
        """True / False when the facts decide c, else None"""
        if isinstance(c, bool):
            return c
        c = simp(c)
        if isinstance(c, bool):
            return c
        if len(self.dlog) < len(self.replay):
            r = self.replay[len(self.dlog)]
            self.dlog.append(r)
            return r
        r = self.decided0(c)
        self.dlog.append(r)
        return r

    def decided0(self, c):
        key = (c.get_id(), len(self.facts))
        if key in self.cache:
            return self.cache[key][1]
        g, fa = self.split()
        r = None
        if not prover.nonlinear(c):
            g = [x for x in g if not prover.nonlinear(x)]
        if prover.check(g + [z3.Not(c)], 150)[0] == 'unsat':
            r = True
        elif prover.check(g + [c], 150)[0] == 'unsat':
            r = False
        elif len(fa) > 14 and self.decided_recent(g, fa[-10:], c) is not None:
            r = self.decided_recent(g, fa[-10:], c)
        elif fa:
            inst = prover.instantiate(g + [c], fa, 2, 400)
            if prover.check(g + inst + [z3.Not(c)], 250)[0] == 'unsat':
                r = True
            elif prover.check(g + inst + [c], 250)[0] == 'unsat':
                r = False
        self.cache[key] = (c, r)
        return r

    def decided_recent(self, g, fa, c):
        inst = prover.instantiate(g + [c], fa, 2, 600)
        if prover.check(g + inst + [z3.Not(c)], 250)[0] == 'unsat':
            return True
        if prover.check(g + inst + [c], 250)[0] == 'unsat':
            return False
        return None

    def decide(self, c):
        d = self.decided(c)
        if d is not None:
            return d
        k = len(self.taken)
        if k >= 400:
            raise TooMany('decisions on one path')
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = True
            self.alts.append((self.taken + [False], list(self.dlog)))
        self.taken.append(d)
        c = simp(c)
        self.facts.append(c if d else z3.Not(c))
        self.trace.append((c, d))
        return d


def ctx():
    return Ctx.cur


# ------------------------------------------------------------------ scalars
def num(t):
    """python value of a term: concrete ints stay python ints"""
    t = norm(t) if z3.is_expr(t) else t
    if isinstance(t, bool):
        return t
    if isinstance(t, int):
        return t
    if z3.is_expr(t) and t.sort() == BOOL:
        return SBool(t)
    return SNum(t)


def term(x):
    """term of a python value"""
    if isinstance(x, (SNum, SBool)):
        return x.t
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        return ffrac(x)
    if isinstance(x, Fraction):
        return x
    if z3.is_expr(x):
        return x
    if hasattr(x, 'scalar_term'):
        return x.scalar_term()
    raise Unsupported('scalar of type %s' % type(x).__name__)


def ffrac(x):
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite number')
    return Fraction(repr(x))


def isreal(t):
    return isinstance(t, Fraction) or (z3.is_expr(t) and t.sort() == REAL)


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().decide(self.t)

    def __and__(self, o):
        return SBool(land(self.t, term(o)))

    def __or__(self, o):
        return SBool(lor(self.t, term(o)))
    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return SBool(lnot(self.t))


def scalar(x):
    return isinstance(x, (SNum, SBool, int, float, Fraction)) or (getattr(x, 'ndim', None) == 0)


def mkbool(c):
    return c if isinstance(c, bool) else SBool(c)


class SNum:
    """symbolic integer or real"""
    __slots__ = ('t',)
    ndim = 0
    shape = ()
    size = 1
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    @property
    def real(self):
        return isreal(self.t)

    def scalar_term(self):
        return self.t

    def _bin(self, o, f, swap=False):
        if not isinstance(o, (SNum, int, float, Fraction)):
            return NotImplemented
        a, b = (term(o), self.t) if swap else (self.t, term(o))
        return num(f(a, b))

    def __add__(self, o): return self._bin(o, add)
    def __radd__(self, o): return self._bin(o, add, True)
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return self._bin(o, sub, True)
    def __mul__(self, o): return self._bin(o, mul)
    def __rmul__(self, o): return self._bin(o, mul, True)
    def __truediv__(self, o): return self._bin(o, divide)
    def __rtruediv__(self, o): return self._bin(o, divide, True)
    def __floordiv__(self, o): return self._bin(o, floordiv)
    def __rfloordiv__(self, o): return self._bin(o, floordiv, True)
    def __mod__(self, o): return self._bin(o, modulo)
    def __neg__(self): return num(neg(self.t))
    def __pos__(self): return self
    def __abs__(self): return num(ite(le(0, self.t), self.t, neg(self.t)))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = mul(r, self.t)
            return num(r)
        raise Unsupported('power')

    def _cmp(self, o, op):
        if not isinstance(o, (SNum, int, float, Fraction)):
            return NotImplemented
        return mkbool(cmp(op, self.t, term(o)))

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '/=')
        return True if r is NotImplemented else r

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return ctx().decide(lnot(eq(self.t, 0)))

    def __index__(self):
        if isinstance(self.t, int):
            return self.t
        raise Unsupported('symbolic integer where a concrete one is needed')

    def __int__(self):
        raise Unsupported('int() of a symbolic number')

    def __float__(self):
        if isinstance(self.t, (int, Fraction)):
            return float(self.t)
        raise Unsupported('float() of a symbolic number')

    def astype(self, t):
        return self

    def item(self):
        return self

    def repeat(self, k):
        import symnp
        return symnp.full((k,), self)

    def copy(self):
        return self

    def min(self):
        return self
    max = min

    def __getitem__(self, ix):
        import symnp
        return symnp.asarray(self)[ix]

    def __repr__(self):
        return 'S(%s)' % (self.t,)


def divide(a, b):
    a, b = toreal(a), toreal(b)
    c = ctx()
    if isc(b):
        if b == 0:
            raise Unsupported('division by zero')
    elif c is not None:
        c.ob('division', lnot(eq(b, Fraction(0))), 'division')
    return rdiv(a, b)


def floordiv(a, b):
    if isreal(a) or isreal(b):
        raise Unsupported('floor division of reals')
    if isc(a) and isc(b):
        return a // b
    if isc(b) and b > 0:
        return norm(tz(a) / tz(b))
    if z3.is_expr(b):
        ctx().ob('division', lt(0, b), 'division')
        return norm(tz(a) / tz(b))
    raise Unsupported('integer division')


def modulo(a, b):
    if isc(a) and isc(b):
        return a % b
    return sub(a, mul(b, floordiv(a, b)))


def sint(name, *facts):
    return SNum(fint(name))


def sreal(name):
    return SNum(fresh(name, REAL))


# ------------------------------------------------------------------ builtins seen by the code under contract
def b_len(x):
    if hasattr(x, 'slen'):
        return x.slen()
    return len(x)


def b_min(*a, **k):
    return _mm(a, k, True)


def b_max(*a, **k):
    return _mm(a, k, False)


def _mm(a, k, lower):
    if len(a) == 1:
        a = list(a[0])
    if not any(isinstance(x, SNum) or hasattr(x, 'generic') for x in a):
        return (min if lower else max)(a, **k)
    if k:
        raise Unsupported('min/max keyword')
    r = None
    for x in a:
        if hasattr(x, 'generic'):
            x = x.generic(lower)
        if r is None:
            r = x
            continue
        s, t = term(r), term(x)
        c = cmp('<=' if lower else '>=', s, t)
        d = ctx().decided(c) if not isinstance(c, bool) else c
        r = num(ite(d if d is not None else c, s, t))
    return r


def b_float(x=0.0):
    if isinstance(x, SNum):
        return num(toreal(x.t)) if not x.real else x
    if hasattr(x, 'scalar_term'):
        return num(toreal(x.scalar_term()))
    return float(x)


def b_int(x=0, *a):
    if isinstance(x, SNum):
        if not x.real:
            return x
        t = x.t           # truncation towards zero
        return num(z3.If(tz(t) >= 0, z3.ToInt(tz(t)), -z3.ToInt(-tz(t))))
    return int(x, *a)


def b_abs(x):
    return abs(x)


def b_sum(xs, start=0):
    if hasattr(xs, 'sum'):
        return xs.sum()
    r = start
    for x in xs:
        r = r + x
    return r


class SRange:
    """range with symbolic bounds"""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def slen(self):
        return b_max(0, num(sub(term(self.hi), term(self.lo))))

    def __iter__(self):
        raise Unsupported('loop over a symbolic range')

    def __getitem__(self, i):
        n = term(self.slen())
        i = term(i)
        if ctx().decide(land(le(0, i), lt(i, n))):
            return num(add(term(self.lo), i))
        if ctx().decide(land(le(neg(n), i), lt(i, 0))):
            return num(add(term(self.lo), add(i, n)))
        raise pyerr(IndexError)


def b_range(*a):
    a = [x.t if isinstance(x, SNum) else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return SRange(0, num(a[0]))
    if len(a) == 2:
        return SRange(num(a[0]), num(a[1]))
    raise Unsupported('range with symbolic bounds and a step')


def b_isinstance(x, c):
    if isinstance(x, SNum):
        cs = c if isinstance(c, tuple) else (c,)
        if float in cs and x.real or int in cs and not x.real:
            return True
        return isinstance(x, c)
    return isinstance(x, c)


BUILTINS = {'len': b_len, 'min': b_min, 'max': b_max, 'float': b_float, 'int': b_int, 'sum': b_sum, 'range': b_range,
            'abs': b_abs, 'isinstance': b_isinstance}


# ------------------------------------------------------------------ exploration
def explore(run, base=(), limit=600):
    """run(ctx) -> outcome for every path; yields (ctx, outcome)"""
    work = [([], [])]
    n = 0
    while work:
        pre, dlog = work.pop()
        n += 1
        if n > limit:
            raise TooMany('paths')
        c = Ctx(pre, base, dlog)
        Ctx.cur = c
        try:
            out = run(c)
        except PathEnd:
            out = None
        finally:
            Ctx.cur = None
        work.extend(c.alts)
        yield c, out


def call(fn, *a, files=(), **k):
    """('ret', value) or ('exc', exception) for exceptions of the code under contract"""
    try:
        return 'ret', fn(*a, **k)
    except ModelRaised as e:
        return 'exc', e
    except (AssertionError, IndexError, ValueError, KeyError) as e:
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        f = tb.tb_frame.f_code.co_filename
        if f in files:
            return 'exc', e
        raise Unsupported('%s in the shim: %s' % (type(e).__name__, e))
    except Exception as e:
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        raise Unsupported('%s: %s (%s:%d)' % (type(e).__name__, e, tb.tb_frame.f_code.co_filename.split('/')[-1], tb.tb_lineno))
