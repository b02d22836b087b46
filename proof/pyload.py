"""Loads igakit's Python modules from the current source with numpy and the kernels replaced (engine B).

The source is compiled unchanged except for one mechanical rewriting of loops which only append one value per
iteration to a list (`for i in range(n): L.append(f(i))` -> `L.extend(_map(n, lambda i: f(i)))`), needed when n is
symbolic.  Doc strings and the module's plotting hooks are not executed.
"""
import ast, builtins, os, types
import sym, symnp, kern
from sym import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')


class MapLoops(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if (isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name)
                and n.iter.func.id == 'range' and len(n.iter.args) == 1 and not n.orelse and len(n.body) == 1
                and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Call)):
            c = n.body[0].value
            if isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name) \
                    and len(c.args) == 1 and not c.keywords and \
                    not any(isinstance(x, ast.Name) and x.id == c.func.value.id for x in ast.walk(c.args[0])):
                lamb = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(n.target.id)], kwonlyargs=[],
                                                     kw_defaults=[], defaults=[]), body=c.args[0])
                new = ast.Expr(ast.Call(ast.Attribute(c.func.value, 'extend', ast.Load()),
                                        [ast.Call(ast.Name('_map', ast.Load()), [n.iter.args[0], lamb], [])], []))
                return ast.copy_location(new, n)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators
        if len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Name) and isinstance(g[0].iter, ast.Call) \
                and isinstance(g[0].iter.func, ast.Name) and g[0].iter.func.id == 'range' and len(g[0].iter.args) == 1:
            lamb = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(g[0].target.id)], kwonlyargs=[],
                                                 kw_defaults=[], defaults=[]), body=n.elt)
            return ast.copy_location(ast.Call(ast.Name('_map', ast.Load()), [g[0].iter.args[0], lamb], []), n)
        return n


class WhileLoops(ast.NodeTransformer):
    """`while C: B` -> check of a loop contract where one is registered (Loops), else the loop itself"""
    def __init__(self, mod):
        self.stack, self.count, self.mod = [], {}, mod

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_ClassDef(self, n):
        return self.visit_FunctionDef(n)

    def visit_While(self, n):
        key = self.mod + '.' + '.'.join(self.stack)
        k = self.count[key] = self.count.get(key, -1) + 1
        key = '%s#%d' % (key, k)
        self.generic_visit(n)
        if n.orelse or any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield)) for b in n.body for x in ast.walk(b)):
            return n
        names = []
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in names:
                    names.append(x.id)
                if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                    return n
        src = """
if _loops.has(%r):
    _lc = _loops.enter(%r, %r, locals())
    %s = _lc.havoc()
    if _lc.iterate():
        if not (COND):
            _lc.end()
        BODY
        _lc.done(locals())
    else:
        if COND:
            _lc.end()
else:
    LOOP
""" % (key, key, names, ''.join(x + ', ' for x in names) if names else '_')
        t = ast.parse(src).body[0]
        import copy
        it = t.body[2]
        it.body[0].test = ast.UnaryOp(ast.Not(), copy.deepcopy(n.test))
        it.body[1:2] = copy.deepcopy(n.body)
        it.orelse[0].test = copy.deepcopy(n.test)
        t.orelse = [n]
        for x in ast.walk(t):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, n)
        return ast.copy_location(t, n)


class Loops:
    """loop contracts: key -> (invariant(env) -> formulas, variant(env) -> integer term)"""
    def __init__(self):
        self.contracts = {}

    def has(self, key):
        return key in self.contracts

    def enter(self, key, names, env):
        return LoopRun(key, names, env, *self.contracts[key])


class LoopRun:
    def __init__(self, key, names, env, inv, var):
        self.key, self.names, self.inv, self.var = key, names, inv, var
        self.env = dict(env)
        self.check('initially')

    def facts(self, env):
        try:
            return list(self.inv(env))
        except (KeyError, AttributeError, TypeError) as e:
            raise Unsupported('loop contract %s does not fit: %s' % (self.key, e))

    def check(self, when):
        for k, f in enumerate(self.facts(self.env)):
            sym.ctx().ob('loop %s: invariant %d %s' % (self.key, k, when), f, 'loop')

    def havoc(self):
        import terms
        out = []
        for n in self.names:
            v = self.env.get(n)
            if isinstance(v, bool) or not isinstance(v, (int, sym.SNum)):
                raise Unsupported('loop %s: variable %s' % (self.key, n))
            r = isinstance(v, sym.SNum) and v.real
            out.append(sym.SNum(terms.fresh(n, terms.REAL if r else terms.INT)))
        self.env.update(zip(self.names, out))
        sym.ctx().assume(*self.facts(self.env))
        self.v0 = self.var(self.env)
        return tuple(out)

    def iterate(self):
        import terms
        return sym.ctx().decide(terms.fresh('iterate', terms.BOOL))

    def end(self):
        raise sym.PathEnd()

    def done(self, env):
        import terms
        self.env.update({k: env[k] for k in self.names})
        self.check('kept')
        c = sym.ctx()
        v = self.var(self.env)
        c.ob('loop %s: terminates' % self.key, terms.land(terms.le(0, self.v0), terms.lt(v, self.v0)), 'loop')
        raise sym.PathEnd()


class SMap:
    """the values f(0), ..., f(n-1) for a symbolic n"""
    def __init__(self, n, f):
        self.n, self.f = n, f

    def generic(self, lower):
        """minimum / maximum"""
        from terms import fint, fresh, land, le, lt, eq, subst, Forall, REAL
        c = sym.ctx()
        n = sym.term(self.n)
        if not c.decide(lt(0, n)):
            raise sym.pyerr(ValueError, 'empty sequence')
        i, w = fint('i'), fint('w')
        k = len(c.obs)
        mark = len(c.facts)
        c.facts.append(land(le(0, i), lt(i, n)))
        v = sym.term(self.f(sym.SNum(i)))
        side = c.facts[mark + 1:]
        c.facts[mark:] = []
        x = fresh('ext', REAL)
        import z3
        body = land(le(x, v) if lower else le(v, x), *[s for s in side if not isinstance(s, Forall)])
        c.assume(Forall([i], land(le(0, i), lt(i, n)), body))
        c.assume(le(0, w), lt(w, n), eq(x, z3.substitute(v, (i, w)) if z3.is_expr(v) else v), subst(body, [(i, w)]))
        return sym.num(x)

    def __iter__(self):
        yield self


def smap(n, f):
    n = n.t if isinstance(n, sym.SNum) else n
    if isinstance(n, int):
        return [f(k) for k in range(n)]
    return [SMap(sym.num(n), f)]


class Loader:
    def __init__(self, plot=None):
        self.mods = {}
        self.np = symnp.make()
        self.igalib = kern.Igalib()
        self.files = set()
        self.loops = Loops()

    def path(self, name):
        return os.path.join(REPO, 'igakit', name + '.py')

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path(name)
        src = open(p).read()
        tree = ast.parse(src, p)
        tree = ast.fix_missing_locations(WhileLoops(name).visit(MapLoops().visit(tree)))
        m = types.ModuleType('igakit.' + name)
        m.__file__ = p
        b = dict(vars(builtins))
        b.update(sym.BUILTINS)
        b['__import__'] = self.imp
        m.__dict__['__builtins__'] = b
        m.__dict__['_map'] = smap
        m.__dict__['_loops'] = self.loops
        b['locals'] = locals
        self.files.add(p)
        self.mods[name] = m
        exec(compile(tree, p, 'exec'), m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name == 'numpy':
            return self.np
        if name == 'igakit':
            ns = types.SimpleNamespace()
            for f in fromlist or ():
                setattr(ns, f, self.igalib if f == 'igalib' else self.load(f))
            return ns
        if name.startswith('igakit.'):
            sub = name.split('.')[1]
            if sub == 'igalib':
                return self.igalib
            m = self.load(sub)
            if fromlist:
                return m
            return types.SimpleNamespace(**{sub: m})
        if name in ('numpy.linalg',):
            return symnp.linalg
        return __import__(name, globals, locals, fromlist, level)
