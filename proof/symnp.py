"""Arrays with symbolic extents and the part of numpy which igakit's Python layer uses (engine B).

An array is a view on a buffer: contents are a function of the buffer's index tuple; a python dimension is a
group of atomic view dimensions, so that reshapes which only group or ungroup neighbouring dimensions need no
division.  Writes go to the buffer, so aliasing behaves as in numpy.
"""
from fractions import Fraction
import math
import z3
from terms import *
from sym import *
import sym

newaxis = None
pi_t = z3.Real('pi')
COS = z3.Function('cos', REAL, REAL)
SIN = z3.Function('sin', REAL, REAL)
SQRT = z3.Function('sqrt', REAL, REAL)


class Buf:
    def __init__(self, ext, get, dtype='d', origin=None):
        self.ext, self.get, self.dtype, self.origin = list(ext), get, dtype, origin
        self.get0 = get
        self.written = False


def one(t):
    return isc(t) and t == 1


def same(a, b):
    """extents equal: True / False / None (open)"""
    c = eq(a, b)
    if isinstance(c, bool):
        return c
    return ctx().decided(c)


class SArr:
    __array_priority__ = 2000

    def __init__(self, buf, ext, dims, bmap):
        self.buf, self.ext, self.dims, self.bmap = buf, list(ext), [tuple(d) for d in dims], list(bmap)
        self.maybe_copy = False

    # -------------------------------------------------------------- structure
    @property
    def dtype(self):
        return DType(self.buf.dtype)

    @property
    def ndim(self):
        return len(self.dims)

    def dext(self, d):
        r = 1
        for a in self.dims[d]:
            r = mul(r, self.ext[a])
        return r

    @property
    def shape(self):
        return tuple(num(self.dext(d)) for d in range(self.ndim))

    @shape.setter
    def shape(self, s):
        if not self.contiguous():
            raise Unsupported('shape assignment to an array which may not be contiguous')
        r = self._reshape(s)
        self.ext, self.dims, self.bmap = r.ext, r.dims, r.bmap

    @property
    def size(self):
        r = 1
        for d in range(self.ndim):
            r = mul(r, self.dext(d))
        return num(r)

    def slen(self):
        if not self.dims:
            raise pyerr(TypeError, 'len() of unsized object')
        return num(self.dext(0))

    @property
    def T(self):
        return self.transpose()

    def contiguous(self):
        order = [a for d in self.dims for a in d if not one(self.ext[a])]
        k = 0
        partial = True
        for b, (start, step, v) in enumerate(self.bmap):
            if v is None:
                if one(self.buf.ext[b]) or partial:
                    continue
                return False
            if one(self.ext[v]) and v not in order:
                if one(self.buf.ext[b]) or partial:
                    continue
                return False
            if k >= len(order) or order[k] != v or step != 1:
                return False
            full = isc(start) and start == 0 and same(self.ext[v], self.buf.ext[b]) is True
            if not full and not partial:
                return False
            partial = False
            k += 1
        return k == len(order)

    @property
    def flags(self):
        raise Unsupported('flags')

    # -------------------------------------------------------------- elements
    def at(self, vi):
        """contents at view-atom indices, in the buffer's current state"""
        return self.reader()(vi)

    def reader(self):
        g, bm = self.buf.get, list(self.bmap)

        def rd(vi):
            ix = []
            for start, step, v in bm:
                if v is None:
                    ix.append(start)
                elif step == 1:
                    ix.append(add(start, vi[v]))
                else:
                    ix.append(add(start, mul(step, vi[v])))
            return g(tuple(ix))
        return rd

    def el(self, *ix):
        """contents at one index per python dimension (a tuple for grouped dimensions)"""
        vi = [0] * len(self.ext)
        for d, i in zip(self.dims, ix):
            if len(d) == 1:
                vi[d[0]] = term(i)
            elif len(d) > 1:
                if not isinstance(i, (tuple, list)):
                    raise Unsupported('plain index into a grouped dimension')
                for a, x in zip(d, i):
                    vi[a] = x
        return self.at(vi)

    def scalar_term(self):
        if any(self.dims):
            raise Unsupported('array used as a scalar')
        return self.at([0] * len(self.ext))

    def item(self):
        return num(self.scalar_term())

    def __float__(self):
        return float(self.item())

    def __bool__(self):
        if self.dims:
            raise Unsupported('truth value of an array')
        t = self.scalar_term()
        return ctx().decide(t if (isinstance(t, bool) or (z3.is_expr(t) and t.sort() == BOOL)) else lnot(eq(t, 0)))

    def __iter__(self):
        if not self.dims:
            raise pyerr(TypeError, 'iteration over a 0-d array')
        n = self.dext(0)
        if not isc(n):
            raise Unsupported('iteration over a symbolic extent')
        return iter([self[k] for k in range(n)])

    def __hash__(self):
        return id(self)

    # -------------------------------------------------------------- indexing
    def _view(self, index):
        if not isinstance(index, tuple):
            index = (index,)
        n = sum(1 for x in index if x is not None and x is not Ellipsis)
        if n > self.ndim:
            raise pyerr(IndexError, 'too many indices')
        full = []
        seen = False
        for x in index:
            if x is Ellipsis:
                if seen:
                    raise pyerr(IndexError)
                seen = True
                full += [slice(None)] * (self.ndim - n)
            else:
                full.append(x)
        if not seen:
            full += [slice(None)] * (self.ndim - n)
        ext, dims = list(self.ext), []
        bm = list(self.bmap)
        sub_ = {}                 # view atom -> ('int', i) or ('aff', start, step, newatom)
        d = 0
        for x in full:
            if x is None:
                dims.append(())
                continue
            g = self.dims[d]
            d += 1
            if isinstance(x, slice):
                if x.start is None and x.stop is None and x.step in (None, 1):
                    dims.append(g)
                    continue
                n = 1
                for a in g:
                    n = mul(n, self.ext[a])
                st, step, cnt = slice_range(x, n)
                if len(g) == 0:
                    if isc(cnt) and cnt == 1:
                        dims.append(())
                        continue
                    raise Unsupported('slice of a unit dimension')
                if len(g) > 1:
                    if isc(st) and st == 0 and step == 1 and same(cnt, n) is True:
                        dims.append(g)
                        continue
                    raise Unsupported('slice of a grouped dimension')
                na = len(ext)
                ext.append(cnt)
                sub_[g[0]] = ('aff', st, step, na)
                dims.append((na,))
                continue
            if isinstance(x, SArr) and x.ndim == 0:
                x = x.item()
            if isinstance(x, (int, SNum)) and not isinstance(x, bool):
                n = 1
                for a in g:
                    n = mul(n, self.ext[a])
                i = term(x)
                if isreal(i):
                    raise pyerr(IndexError, 'real index')
                i = wrap_index(i, n)
                if len(g) == 0:
                    continue
                if len(g) > 1:
                    if isc(i) and i == 0:
                        for a in g:
                            sub_[a] = ('int', 0)
                        continue
                    raise Unsupported('index into a grouped dimension')
                sub_[g[0]] = ('int', i)
                continue
            raise Unsupported('index of type %s' % type(x).__name__)
        nbm = []
        for start, step, v in bm:
            if v is not None and v in sub_:
                s = sub_[v]
                if s[0] == 'int':
                    nbm.append((add(start, mul(step, s[1])), 1, None))
                else:
                    nbm.append((add(start, mul(step, s[1])), mul(step, s[2]), s[3]))
            else:
                nbm.append((start, step, v))
        r = SArr(self.buf, ext, dims, nbm)
        r.maybe_copy = self.maybe_copy
        return r

    def __getitem__(self, index):
        if isinstance(index, SArr) and index.ndim:
            return fancy(self, index)
        if isinstance(index, tuple) and len(index) == 2 and isinstance(index[1], slice) and len(self.dims) == 2 and \
                len(self.dims[1]) > 1 and (index[1].start, index[1].stop, index[1].step) == (None, -1, None) and \
                isinstance(index[0], (int, SNum)):
            return SDropLast(self[index[0]])
        v = self._view(index)
        if v.ndim == 0:
            ii = index if isinstance(index, tuple) else (index,)
            if Ellipsis not in [x for x in ii if x is Ellipsis]:
                return num(v.scalar_term())
        return v

    def __setitem__(self, index, value):
        if isinstance(index, SArr) and index.ndim:
            sel = few(index)
            if sel is None or self.ndim != 1:
                raise Unsupported('masked assignment')
            value = asarray(value)
            conform_or_raise(self, index)
            vals = [value] * len(sel) if not value.ndim else [value[k] for k in range(value.dext(0))]
            if len(vals) != len(sel):
                raise pyerr(ValueError, 'masked assignment')
            for k, x in zip(sel, vals):
                write(self._view((k,)), asarray(x))
            return
        if isinstance(index, tuple) and any(isinstance(x, (list, SArr)) and not (isinstance(x, SArr) and x.ndim == 0)
                                            for x in index):
            return self.set_points(index, value)
        write(self._view(index), value)

    def set_points(self, index, value):
        """a[i, j] = value with lists of concrete indices"""
        ls = []
        for x in index:
            if isinstance(x, SArr):
                n = x.dext(0) if x.ndim == 1 else None
                if not isinstance(n, int):
                    raise Unsupported('index array')
                x = [x[k] for k in range(n)]
            ls.append(x if isinstance(x, list) else None)
        n = max(len(x) for x in ls if x is not None)
        if any(x is not None and len(x) not in (1, n) for x in ls) or \
                any(x is None and not isinstance(y, (int, SNum)) for x, y in zip(ls, index)):
            raise Unsupported('index lists')
        value = asarray(value)
        if value.ndim and not (value.ndim == 1 and isc(value.dext(0)) and value.dext(0) in (1, n)):
            raise Unsupported('assignment to index lists')
        vals = [value[k if value.dext(0) == n else 0] if value.ndim else value for k in range(n)]
        for k in range(n):
            write(self._view(tuple(y if x is None else x[k if len(x) == n else 0] for x, y in zip(ls, index))), vals[k])

    @property
    def flat(self):
        return Flat(self)

    def __int__(self):
        t = self.scalar_term()
        if isinstance(t, int):
            return t
        raise Unsupported('int() of a symbolic number')

    __index__ = __int__

    # -------------------------------------------------------------- methods
    def view(self):
        r = SArr(self.buf, self.ext, self.dims, self.bmap)
        r.maybe_copy = self.maybe_copy
        for n in PROV:
            if hasattr(self, n):
                setattr(r, n, getattr(self, n))
        return r

    def copy(self, order='C'):
        return build_like(self, self.reader(), self.buf.dtype)

    def astype(self, t, copy=True):
        k = kind(t)
        rd = self.reader()
        if k == 'd' and self.buf.dtype != 'd':
            return build_like(self, lambda vi: toreal(rd(vi)), 'd')
        if k == 'i' and self.buf.dtype == 'd':
            raise Unsupported('real array to integers')
        r = build_like(self, rd, k)
        if not self.buf.written:
            for n in PROV:
                if hasattr(self, n):
                    setattr(r, n, getattr(self, n))
        return r

    def _reshape(self, s):
        if isinstance(s, (int, SNum)):
            s = (s,)
        s = [term(x) for x in s]
        atoms = [a for d in self.dims for a in d]
        dims = match(atoms, self.ext, s)
        r = SArr(self.buf, self.ext, dims, self.bmap)
        r.maybe_copy = self.maybe_copy
        return r

    def reshape(self, *s, **k):
        if k:
            raise Unsupported('reshape order')
        if len(s) == 1 and not isinstance(s[0], (int, SNum)):
            s = s[0]
        r = self._reshape(s)
        if not self.contiguous():
            r.maybe_copy = True
        return r

    def ravel(self):
        if self.ndim == 1:
            return self.view()
        return self.reshape(-1)

    flatten = ravel

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list, range))):
            axes = axes[0]
        if not axes:
            axes = range(self.ndim)[::-1]
        axes = list(axes)
        if len(axes) != self.ndim:
            raise pyerr(ValueError, "axes don't match array")
        ax = [norm_axis(a, self.ndim) for a in axes]
        if len(set(ax)) != len(ax):
            raise pyerr(ValueError, 'repeated axis in transpose')
        r = SArr(self.buf, self.ext, [self.dims[a] for a in ax], self.bmap)
        r.maybe_copy = self.maybe_copy
        return r

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        a, b = norm_axis(a, self.ndim), norm_axis(b, self.ndim)
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(ax)

    def squeeze(self):
        raise Unsupported('squeeze')

    def min(self, axis=None):
        return extremum(self, axis, True)

    def max(self, axis=None):
        return extremum(self, axis, False)

    def sum(self, axis=None):
        return asum(self, axis)

    def all(self):
        return quant(self, True)

    def any(self):
        return quant(self, False)

    def searchsorted(self, v, side='left'):
        return searchsorted(self, v, side)

    def repeat(self, k, axis=None):
        return repeat(self, k, axis)

    def tolist(self):
        return [x for x in self]

    def dot(self, o):
        return dot(self, o)

    def fill(self, v):
        self[...] = v

    # -------------------------------------------------------------- arithmetic
    def _bin(self, o, f, dt=None, swap=False):
        if not isinstance(o, (SArr, SNum, SBool, int, float, Fraction, list, tuple)):
            return NotImplemented
        a, b = asarray(self), asarray(o)
        if swap:
            a, b = b, a
        return elementwise(f, [a, b], dt)

    def __add__(self, o): return self._bin(o, add)
    def __radd__(self, o): return self._bin(o, add, swap=True)
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return self._bin(o, sub, swap=True)
    def __mul__(self, o): return self._bin(o, mul)
    def __rmul__(self, o): return self._bin(o, mul, swap=True)
    def __truediv__(self, o): return self._bin(o, None, 'div')
    def __rtruediv__(self, o): return self._bin(o, None, 'div', True)
    def __neg__(self): return elementwise(neg, [self])

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            def f(x):
                r = 1
                for _ in range(o):
                    r = mul(r, x)
                return r
            return elementwise(f, [self])
        raise Unsupported('power')
    def __abs__(self): return elementwise(lambda x: ite(le(0, x), x, neg(x)), [self])
    def __lt__(self, o): return self._bin(o, lambda x, y: cmp('<', x, y), 'b')
    def __le__(self, o): return self._bin(o, lambda x, y: cmp('<=', x, y), 'b')
    def __gt__(self, o): return self._bin(o, lambda x, y: cmp('>', x, y), 'b')
    def __ge__(self, o): return self._bin(o, lambda x, y: cmp('>=', x, y), 'b')
    def __eq__(self, o):
        r = self._bin(o, lambda x, y: cmp('==', x, y), 'b')
        if isinstance(r, SArr) and scalar(o):
            r.eq_of = (frozen(self), toreal(term(o)))
        return r

    def __ne__(self, o): return self._bin(o, lambda x, y: cmp('/=', x, y), 'b')
    def __and__(self, o): return self._bin(o, land, 'b')
    def __or__(self, o): return self._bin(o, lor, 'b')
    def __invert__(self): return elementwise(lnot, [self], 'b')

    def _inplace(self, o, f):
        r = f(self, o)
        if self.buf.dtype != 'd' and r.buf.dtype == 'd':
            raise pyerr(TypeError, 'casting')
        write(self, r)
        return self

    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._inplace(o, lambda a, b: a / b)

    def __repr__(self):
        return 'SArr%s' % (self.shape,)


class Flat:
    def __init__(self, a):
        self.a = a

    def __setitem__(self, index, value):
        a = self.a
        n = [a.dext(d) for d in range(a.ndim)]
        if not all(isc(e) for e in n):
            raise Unsupported('flat index')
        if isinstance(index, int):
            index, value = [index], [value]
        if not isinstance(index, list) or not all(isinstance(i, int) for i in index):
            raise Unsupported('flat index')
        value = asarray(value)
        cols = []
        for d in range(a.ndim):
            st = 1
            for e in n[d + 1:]:
                st *= e
            cols.append([i // st % n[d] for i in index])
        a.set_points(tuple(cols), value)


class SDropLast:
    """a[:-1] of an array whose only dimension is grouped; only its norm is modelled"""
    def __init__(self, a):
        self.a = a


class DType:
    def __init__(self, k):
        self.kind = {'d': 'f', 'i': 'i', 'b': 'b'}[k]
        self.char = k

    def __eq__(self, o):
        return kind(o) == self.char

    def __hash__(self):
        return hash(self.char)


def kind(t):
    if t is None:
        return 'd'
    if isinstance(t, DType):
        return t.char
    if t in ('d', float, 'f8', 'float64', 'float') or t is b_float:
        return 'd'
    if t in ('i', int, 'l', 'intp') or t is b_int:
        return 'i'
    if t in ('b', bool, '?'):
        return 'b'
    raise Unsupported('dtype %s' % (t,))


def norm_axis(a, n):
    if isinstance(a, SNum):
        a = a.t
    if not isinstance(a, int):
        raise Unsupported('symbolic axis')
    if not -n <= a < n:
        raise pyerr(ValueError, 'axis out of bounds')
    return a % n


def wrap_index(i, n):
    c = ctx()
    if c.decide(land(le(0, i), lt(i, n))):
        return i
    if c.decide(land(le(neg(n), i), lt(i, 0))):
        return add(i, n)
    raise pyerr(IndexError, 'index out of bounds')


def slice_range(s, n):
    """(start, step, count) of a slice on an extent n"""
    c = ctx()
    step = 1 if s.step is None else term(s.step)
    if not isc(step):
        if not c.decide(lt(0, step)):
            raise Unsupported('slice step')
        if s.start is None and s.stop is None:
            if c.decide(le(n, 0)):
                return 0, step, 0
            return 0, step, add(floordiv(sub(n, 1), step), 1)
        raise Unsupported('bounded slice with a symbolic step')
    if step == 0:
        raise pyerr(ValueError, 'slice step cannot be zero')

    def clip(x, lo, hi):
        x = term(x)
        if c.decide(lt(x, 0)):
            x = add(x, n)
            if c.decide(lt(x, lo)):
                return lo
            return x
        if c.decide(lt(hi, x)):
            return hi
        return x
    if step > 0:
        a = 0 if s.start is None else clip(s.start, 0, n)
        b = n if s.stop is None else clip(s.stop, 0, n)
        if c.decide(le(b, a)):
            return a, step, 0
        k = sub(b, a)
        return a, step, k if step == 1 else add(floordiv(sub(k, 1), step), 1)
    a = sub(n, 1) if s.start is None else clip(s.start, -1, sub(n, 1))
    b = -1 if s.stop is None else clip(s.stop, -1, sub(n, 1))
    if c.decide(le(a, b)):
        return a, step, 0
    k = sub(a, b)
    return a, step, k if step == -1 else add(floordiv(sub(k, 1), -step), 1)


def match(atoms, ext, shape):
    """group atoms, in order, into dimensions of the given extents (one may be -1)"""
    def prod(xs):
        r = 1
        for x in xs:
            r = mul(r, x)
        return r

    def take(seq, target):
        """number of leading atoms of seq whose product is target"""
        if isc(target) and target == 1:
            return 0
        r = 1
        for k, a in enumerate(seq):
            r = mul(r, ext[a])
            if prodeq(r, target):
                return k + 1
        return None
    neg1 = [k for k, s in enumerate(shape) if isc(s) and s == -1]
    if len(neg1) > 1:
        raise pyerr(ValueError, 'can only specify one unknown dimension')
    left, right = [], []
    seq = [a for a in atoms if not one(ext[a])]
    stop = neg1[0] if neg1 else len(shape)
    for s in shape[:stop]:
        k = take(seq, s)
        if k is None:
            raise Unsupported('reshape which does not group dimensions')
        left.append(tuple(seq[:k]))
        seq = seq[k:]
    if not neg1:
        if any(not one(ext[a]) for a in seq):
            if ctx().decided(eq(prod(ext[a] for a in seq), 1)) is not True:
                raise Unsupported('reshape which does not group dimensions')
        if seq and left:
            left[-1] = left[-1] + tuple(seq)
        elif seq:
            return [tuple()] if len(shape) else []
        return left
    seq = seq[::-1]
    for s in shape[stop + 1:][::-1]:
        k = take(seq, s)
        if k is None:
            raise Unsupported('reshape which does not group dimensions')
        right.append(tuple(seq[:k][::-1]))
        seq = seq[k:]
    return left + [tuple(seq[::-1])] + right[::-1]


def prodeq(a, b):
    if isc(a) and isc(b):
        return a == b
    x, y = tz(a), tz(b)
    d = z3.simplify(x - y, som=True)
    if z3.is_int_value(d):
        return d.as_long() == 0
    if prover_nonlinear(d):
        return False
    return ctx().decided(x == y) is True


def prover_nonlinear(e):
    st = [e]
    while st:
        x = st.pop()
        if z3.is_mul(x) and sum(1 for c in x.children() if not z3.is_int_value(c)) > 1:
            return True
        st.extend(x.children())
    return False


# ------------------------------------------------------------------ construction
def fresh_arr(ext, get, dtype='d', origin=None):
    ext = [term(e) for e in ext]
    b = Buf(ext, get, dtype, origin)
    n = len(ext)
    a = SArr(b, ext, [(k,) for k in range(n)], [(0, 1, k) for k in range(n)])
    if origin is not None:
        ctx().inputs.append(b)
    return a


def build_like(a, rd, dtype):
    """new C-ordered array with the python dimensions of a; rd takes a's view-atom indices"""
    order = [x for d in a.dims for x in d]
    pos = {x: k for k, x in enumerate(order)}
    n = len(a.ext)

    def get(ix):
        vi = [0] * n
        for x, k in pos.items():
            vi[x] = ix[k]
        return rd(vi)
    b = Buf([a.ext[x] for x in order], get, dtype)
    return SArr(b, [a.ext[x] for x in order], [tuple(pos[x] for x in d) for d in a.dims],
                [(0, 1, k) for k in range(len(order))])


def full(shape, value, dtype=None):
    if isinstance(shape, (int, SNum)):
        shape = (shape,)
    ext = [term(s) for s in shape]
    for e in ext:
        if not (isc(e) and e >= 0) and not ctx().decide(le(0, e)):
            raise pyerr(ValueError, 'negative dimensions are not allowed')
    t = term(value)
    if dtype is None:
        dtype = 'd' if isreal(t) else 'i'
    if dtype == 'd':
        t = toreal(t)
    r = fresh_arr(ext, lambda ix: t, dtype)
    r.const_of = t
    return r


def zeros(shape, dtype='d'):
    k = kind(dtype)
    return full(shape, Fraction(0) if k == 'd' else 0, k)


def ones(shape, dtype='d'):
    k = kind(dtype)
    return full(shape, Fraction(1) if k == 'd' else 1, k)


def empty(shape, dtype='d'):
    """contents are arbitrary"""
    k = kind(dtype)
    r = full(shape, Fraction(0) if k == 'd' else 0, k)
    n = len(r.ext)
    f = ffun('uninit', *([INT] * n + [REAL if k == 'd' else INT]))
    g = fresh('uninit0', REAL if k == 'd' else INT)
    r.buf.get = r.buf.get0 = (lambda ix: f(*[tz(i) for i in ix]) if n else g)
    return r


def empty_like(a, dtype=None):
    return empty(asarray(a).shape, dtype or a.buf.dtype)


def zeros_like(a, dtype=None):
    return zeros(asarray(a).shape, dtype or a.buf.dtype)


def identity(n, dtype='d'):
    return fresh_arr([n, n], lambda ix: ite(eq(ix[0], ix[1]), Fraction(1), Fraction(0)))


eye = identity


def asarray(x, dtype=None):
    if isinstance(x, SArr):
        if dtype is None or kind(dtype) == x.buf.dtype:
            return x
        return x.astype(dtype)
    if isinstance(x, (SNum, SBool, int, float, Fraction)):
        t = term(x)
        bl = isinstance(t, bool) or (z3.is_expr(t) and t.sort() == BOOL)
        k = kind(dtype) if dtype is not None else ('d' if isreal(t) else 'b' if bl else 'i')
        if k == 'd':
            t = toreal(t)
        elif k == 'i' and isreal(t):
            raise Unsupported('real to integer')
        return fresh_arr([], lambda ix: t, k)
    if isinstance(x, (range,)):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if not x:
            return fresh_arr([0], lambda ix: Fraction(0), kind(dtype))
        a = [asarray(y, dtype) for y in x]
        if dtype is None and len({y.buf.dtype for y in a}) > 1:
            a = [asarray(y, 'd') for y in a]
        return stack0(a)
    raise Unsupported('array from %s' % type(x).__name__)


def array(x, dtype=None, copy=True, ndmin=0, order=None):
    if isinstance(x, SArr):
        x = asarray(x, dtype)
        r = x.copy() if copy else x
    else:
        r = asarray(x, dtype)
    while r.ndim < ndmin:
        r = r[newaxis]
    return r


def stack0(a):
    """stack equal-shaped arrays along a new first dimension"""
    n = len(a)
    if any(y.ndim != a[0].ndim for y in a):
        raise pyerr(ValueError, 'inhomogeneous shape')
    for y in a[1:]:
        conform_or_raise(a[0], y)
    f = a[0]
    order = [x for d in f.dims for x in d]
    rds = []
    for y in a:
        o = [x for d in y.dims for x in d]
        if [len(d) for d in y.dims] != [len(d) for d in f.dims]:
            raise Unsupported('stack of differently grouped arrays')
        rds.append((y.reader(), o, len(y.ext)))

    def get(ix):
        vals = []
        for rd, o, m in rds:
            vi = [0] * m
            for k, x in enumerate(o):
                vi[x] = ix[k + 1]
            vals.append(rd(vi))
        return pick(ix[0], vals)
    b = Buf([n] + [f.ext[x] for x in order], get, f.buf.dtype)
    pos = {x: k + 1 for k, x in enumerate(order)}
    m = len(order) + 1
    return SArr(b, b.ext, [(0,)] + [tuple(pos[x] for x in d) for d in f.dims], [(0, 1, k) for k in range(m)])


def pick(i, vals):
    if isc(i):
        return vals[i]
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = ite(eq(i, k), vals[k], r)
    return r


def conform_or_raise(a, b, skip=None):
    for d in range(a.ndim):
        if d == skip:
            continue
        x, y = a.dext(d), b.dext(d)
        s = same(x, y)
        if s is None:
            s = ctx().decide(eq(x, y))
        if not s:
            raise pyerr(ValueError, 'shape mismatch')


def ascontiguousarray(x, dtype=None):
    x = asarray(x, dtype)
    if x.ndim == 0:
        return x[newaxis]
    if x.contiguous():
        return x
    return x.copy()


def asfortranarray(x, dtype=None):
    return asarray(x, dtype).copy()


def require(*a, **k):
    raise Unsupported('require')


# ------------------------------------------------------------------ elementwise operations
def align(arrs):
    """common atoms: (dims, ext, [per array: list atom of result -> or None])"""
    nd = max(a.ndim for a in arrs)
    dims, ext = [], []
    maps = [[0] * len(a.ext) for a in arrs]     # view atom -> result atom (or None: index 0)
    for m in maps:
        for k in range(len(m)):
            m[k] = None
    for d in range(nd):
        cands = []
        for n, a in enumerate(arrs):
            k = d - (nd - a.ndim)
            if k >= 0:
                cands.append((n, a, a.dims[k], a.dext(k)))
        lead = None
        for c in cands:
            if not one(c[3]):
                lead = c
                break
        if lead is None:
            g = next((c[2] for c in cands if len(c[2])), ())
            if g:
                na = len(ext)
                ext.append(1)
                dims.append((na,))
                for n, a, gg, e in cands:
                    for x in gg:
                        maps[n][x] = na
            else:
                dims.append(())
            continue
        nas = []
        for x in lead[2]:
            nas.append(len(ext))
            ext.append(lead[1].ext[x])
        dims.append(tuple(nas))
        for n, a, g, e in cands:
            if one(e):
                continue
            s = same(e, lead[3])
            if s is None:
                s = ctx().decide(eq(e, lead[3]))
            if not s:
                if isc(e) and isc(lead[3]) or not may_be_one(e) and not may_be_one(lead[3]):
                    raise pyerr(ValueError, 'operands could not be broadcast together')
                raise Unsupported('broadcast of an extent which may be one')
            if len(g) != len(lead[2]):
                raise Unsupported('broadcast of differently grouped dimensions')
            for x, na in zip(g, nas):
                if len(g) > 1 and same(a.ext[x], ext[na]) is not True:
                    raise Unsupported('broadcast of differently grouped dimensions')
                maps[n][x] = na
    return dims, ext, maps


def may_be_one(e):
    return ctx().decided(lnot(eq(e, 1))) is not True


def elementwise(f, arrs, dt=None):
    arrs = [asarray(a) for a in arrs]
    if not any(a.ndim for a in arrs) and dt != 'div':
        t = f(*[a.scalar_term() for a in arrs])
        return num(t)
    dims, ext, maps = align(arrs)
    rds = [a.reader() for a in arrs]
    kinds = [a.buf.dtype for a in arrs]
    if dt == 'div':
        f = None
        den = (rds[1], maps[1])
        vs = [fint('i') for _ in ext]
        d = den[0]([vs[m] if m is not None else 0 for m in den[1]])
        d = toreal(d)
        if isc(d):
            if d == 0:
                raise Unsupported('division by zero')
        else:
            g = land(*[land(le(0, v), lt(v, e)) for v, e in zip(vs, ext)])
            c = ctx()
            c.ob('division', Forall(vs, g, lnot(eq(d, Fraction(0)))), 'division')
        f = rdiv
        dtype = 'd'
    elif dt:
        dtype = dt
    else:
        dtype = 'd' if 'd' in kinds else 'i' if 'i' in kinds else 'b'

    def get(ix):
        return f(*[rd([ix[m] if m is not None else 0 for m in mp]) for rd, mp in zip(rds, maps)])
    if not any(dims):
        if not dims:
            return num(get(()))
    b = Buf(ext, get, dtype)
    return SArr(b, ext, dims, [(0, 1, k) for k in range(len(ext))])


def write(view, value):
    """view[...] = value"""
    if view.maybe_copy:
        raise Unsupported('write through an array which may or may not be a copy')
    value = asarray(value)
    if view.buf.dtype == 'd' and value.buf.dtype != 'd':
        value = value.astype('d')
    if view.buf.dtype != 'd' and value.buf.dtype == 'd':
        raise Unsupported('write of reals to integers')
    if value.ndim > view.ndim:
        extra = value.ndim - view.ndim
        if any(not one(value.dext(k)) for k in range(extra)):
            raise pyerr(ValueError, 'could not broadcast')
        value = value[tuple([0] * extra)] if extra else value
        value = asarray(value)
    # broadcasting of the value only
    maps = [None] * len(value.ext)
    for k in range(value.ndim):
        d = view.ndim - value.ndim + k
        e, t = value.dext(k), view.dext(d)
        if one(e):
            continue
        s = same(e, t)
        if s is None:
            s = ctx().decide(eq(e, t))
        if not s:
            if may_be_one(e):
                raise Unsupported('broadcast of an extent which may be one')
            raise pyerr(ValueError, 'could not broadcast input array')
        g, h = value.dims[k], view.dims[d]
        if len(g) != len(h):
            raise Unsupported('write between differently grouped dimensions')
        for x, y in zip(g, h):
            if len(g) > 1 and same(value.ext[x], view.ext[y]) is not True:
                raise Unsupported('write between differently grouped dimensions')
            maps[x] = y
    rd = value.reader()
    buf, old, bm, vext = view.buf, view.buf.get, list(view.bmap), list(view.ext)
    buf.written = True

    def get(ix):
        cond = True
        vi = [0] * len(vext)
        for (start, step, v), i, be in zip(bm, ix, buf.ext):
            if v is None:
                cond = land(cond, eq(i, start))
                continue
            if step == 1:
                k = sub(i, start)
            elif step == -1:
                k = sub(start, i)
            else:
                k = floordiv(sub(i, start), step)
                cond = land(cond, eq(add(start, mul(step, k)), i))
            vi[v] = k
            if not (step == 1 and isc(start) and start == 0 and (vext[v] is be or eq(vext[v], be) is True)):
                cond = land(cond, le(0, k), lt(k, vext[v]))
        if cond is False:
            return old(ix)
        val = rd([vi[m] if m is not None else 0 for m in maps])
        return val if cond is True else ite(cond, val, old(ix))
    buf.get = get


# ------------------------------------------------------------------ structural functions
def rollaxis(a, axis, start=0):
    n = a.ndim
    axis = norm_axis(axis, n)
    if start < 0:
        start += n
    if not 0 <= start <= n:
        raise pyerr(ValueError, 'start')
    if axis < start:
        start -= 1
    ax = [k for k in range(n) if k != axis]
    ax.insert(start, axis)
    if axis == start:
        return a.view()
    return a.transpose(ax)


def moveaxis(a, s, d):
    n = a.ndim
    s, d = norm_axis(s, n), norm_axis(d, n)
    ax = [k for k in range(n) if k != s]
    ax.insert(d, s)
    return a.transpose(ax)


def swapaxes(a, x, y):
    return asarray(a).swapaxes(x, y)


def transpose(a, axes=None):
    return asarray(a).transpose(axes)


def reshape(a, s):
    return asarray(a).reshape(s)


def ravel(a):
    return asarray(a).ravel()


def flip(a, axis):
    ix = [slice(None)] * a.ndim
    ix[norm_axis(axis, a.ndim)] = slice(None, None, -1)
    return a[tuple(ix)]


def expand_dims(a, axis):
    n = asarray(a).ndim + 1
    ix = [slice(None)] * n
    ix[norm_axis(axis, n)] = None
    return asarray(a)[tuple(ix)]


def concatenate(arrs, axis=0):
    arrs = [asarray(a) for a in arrs]
    if not arrs:
        raise pyerr(ValueError, 'need at least one array')
    nd = arrs[0].ndim
    if nd == 0 or any(a.ndim != nd for a in arrs):
        raise pyerr(ValueError, 'dimensions do not match')
    if len({a.buf.dtype for a in arrs}) > 1:
        arrs = [asarray(a, 'd') for a in arrs]
    axis = norm_axis(axis, nd)
    for a in arrs[1:]:
        conform_or_raise(arrs[0], a, axis)
    f = arrs[0]
    # common atoms
    dims, ext = [], []
    maps = [[None] * len(a.ext) for a in arrs]
    ca = None
    offs, tot = [], 0
    for d in range(nd):
        if d == axis:
            ca = len(ext)
            for a in arrs:
                if len(a.dims[d]) > 1:
                    raise Unsupported('concatenation along a grouped dimension')
                offs.append(tot)
                tot = add(tot, a.dext(d))
            ext.append(tot)
            dims.append((ca,))
            continue
        gl = next((a for a in arrs if len(a.dims[d]) == max(len(b.dims[d]) for b in arrs)))
        nas = []
        for x in gl.dims[d]:
            nas.append(len(ext))
            ext.append(gl.ext[x])
        dims.append(tuple(nas))
        for n, a in enumerate(arrs):
            if len(a.dims[d]) == 0:
                continue
            if len(a.dims[d]) != len(nas):
                raise Unsupported('concatenation of differently grouped arrays')
            for x, na in zip(a.dims[d], nas):
                if len(nas) > 1 and same(a.ext[x], ext[na]) is not True:
                    raise Unsupported('concatenation of differently grouped arrays')
                maps[n][x] = na
    rds = [a.reader() for a in arrs]

    def get(ix):
        r = None
        for n in range(len(arrs) - 1, -1, -1):
            a = arrs[n]
            i = sub(ix[ca], offs[n])
            e = sub(offs[n + 1] if n + 1 < len(arrs) else tot, offs[n])
            if isc(e) and e == 0:
                continue
            if isc(ix[ca]) and isc(offs[n]) and i < 0:
                continue
            vi = [ix[m] if m is not None else 0 for m in maps[n]]
            for x in a.dims[axis]:
                vi[x] = i
            if r is not None and isc(ix[ca]) and isc(offs[n]) and isc(e) and i >= e:
                continue
            v = rds[n](vi)
            r = v if r is None else ite(lt(i, e), v, r)
        return r if r is not None else Fraction(0)
    r = SArr(Buf(ext, get, f.buf.dtype), ext, dims, [(0, 1, k) for k in range(len(ext))])
    if nd == 1:
        r.concat_of = [frozen(b) for b in arrs]
    return r


PROV = ('sorted_from', 'concat_of', 'perm', 'masked_from', 'const_of')


def frozen(a):
    """the array with its present contents"""
    r = SArr(Buf(a.buf.ext, a.buf.get, a.buf.dtype), a.ext, a.dims, a.bmap)
    if not a.buf.written:
        for n in PROV:
            if hasattr(a, n):
                setattr(r, n, getattr(a, n))
    return r


def stack(arrs, axis=0):
    arrs = [asarray(a) for a in arrs]
    r = stack0(arrs)
    return moveaxis(r, 0, axis) if axis else r


def vstack(arrs):
    arrs = [asarray(a) for a in arrs]
    return concatenate([a if a.ndim > 1 else a[newaxis] for a in arrs], 0)


def append(a, b):
    return concatenate([asarray(a).ravel(), asarray(b).ravel()])


def where(c, a, b):
    return elementwise(lambda c, x, y: ite(c, x, y), [c, a, b], 'd')


def broadcast_arrays(*a):
    raise Unsupported('broadcast_arrays')


def repeat(a, k, axis=None):
    a = asarray(a)
    if a.ndim == 0:
        a = a[newaxis]
    if a.ndim != 1 or not (axis in (None, 0)):
        raise Unsupported('repeat of a multi-dimensional array')
    n = a.dext(0)
    if not isc(n):
        raise Unsupported('repeat of a symbolic number of elements')
    if not isinstance(k, (list, tuple, SArr)):
        k = [k] * n
    if isinstance(k, SArr):
        k = [k[i] for i in range(k.dext(0))]
    if len(k) == 1:
        k = list(k) * n
    if len(k) != n:
        raise pyerr(ValueError, 'operands could not be broadcast together')
    parts = [full((k[i],), a[i], a.buf.dtype) for i in range(n)]
    return concatenate(parts) if len(parts) > 1 else parts[0]


def tile(*a):
    raise Unsupported('tile')


def diff(a):
    a = asarray(a)
    return a[1:] - a[:-1]


def arange(*a):
    a = [term(x) for x in a]
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) > 2 or isreal(lo) or isreal(hi):
        raise Unsupported('arange')
    n = sub(hi, lo)
    if not ctx().decide(le(0, n)):
        n = 0
    return fresh_arr([n], lambda ix: add(lo, ix[0]), 'i')


def linspace(a, b, n=50, endpoint=True):
    a, b, n = toreal(term(a)), toreal(term(b)), term(n)
    if not ctx().decide(le(0, n)):
        raise pyerr(ValueError, 'number of samples must be non-negative')
    if not endpoint:
        raise Unsupported('linspace endpoint')
    if ctx().decide(eq(n, 1)):
        return fresh_arr([1], lambda ix: a)

    def get(ix):
        return add(a, rdiv(mul(sub(b, a), toreal(ix[0])), sub(n, 1)))
    return fresh_arr([n], get)


# ------------------------------------------------------------------ reductions, contracts of numpy functions
def guard(vs, ext):
    return land(*[land(le(0, v), lt(v, e)) for v, e in zip(vs, ext)])


def tight(a):
    """the same array with only the view atoms its dimensions use"""
    used = [x for d in a.dims for x in d]
    if used == list(range(len(a.ext))):
        return a
    new = {x: k for k, x in enumerate(used)}
    bm = [(st, sp, new.get(v)) for st, sp, v in a.bmap]
    return SArr(a.buf, [a.ext[x] for x in used], [tuple(new[x] for x in d) for d in a.dims], bm)


def extremum(a, axis, lower):
    a = tight(a)
    if axis is not None:
        raise Unsupported('axis argument')
    c = ctx()
    n = term(a.size)
    if not (isc(n) and n > 0):
        # every extent positive
        for e in a.ext:
            if not (isc(e) and e > 0) and not c.decide(lt(0, e)):
                raise pyerr(ValueError, 'zero-size array to reduction operation')
    rd = a.reader()
    real = a.buf.dtype == 'd'
    if all(isc(e) for e in a.ext) and n <= 4:
        import itertools
        r = None
        for ix in itertools.product(*[range(e) for e in a.ext]):
            v = rd(list(ix))
            r = v if r is None else ite(le(r, v) if lower else le(v, r), r, v)
        return num(r)
    x = fresh('min' if lower else 'max', REAL if real else INT)
    vs = [fint('i') for _ in a.ext]
    w = [fint('w') for _ in a.ext]
    v = rd(vs)
    c.assume(Forall(vs, guard(vs, a.ext), le(x, v) if lower else le(v, x)))
    c.assume(guard(w, a.ext), eq(x, rd(w)))
    return num(x)


def quant(a, all_):
    a = tight(a)
    c = ctx()
    rd = a.reader()
    if all(isc(e) for e in a.ext):
        import itertools
        vals = [rd(list(ix)) for ix in itertools.product(*[range(e) for e in a.ext])]
        return mkbool((land if all_ else lor)(*vals))
    b = fresh('all' if all_ else 'any', BOOL)
    vs = [fint('i') for _ in a.ext]
    w = [fint('w') for _ in a.ext]
    if all_:
        c.assume(Forall(vs, land(b, guard(vs, a.ext)), rd(vs)))
        c.assume(lor(b, land(guard(w, a.ext), lnot(rd(w)))))
    else:
        c.assume(Forall(vs, land(z3.Not(b), guard(vs, a.ext)), lnot(rd(vs))))
        c.assume(lor(z3.Not(b), land(guard(w, a.ext), rd(w))))
    return SBool(b)


def np_all(a, axis=None):
    if isinstance(a, (SBool, bool)):
        return a
    return quant(asarray(a), True)


def np_any(a, axis=None):
    if isinstance(a, (SBool, bool)):
        return a
    return quant(asarray(a), False)


def asum(a, axis):
    a = tight(asarray(a))
    rd = a.reader()
    real = a.buf.dtype == 'd'
    if axis is None:
        r = lambda vi, k: None

        def rec(k, vi):
            if k == len(a.ext):
                return rd(vi)
            return SUM(0, sub(a.ext[k], 1), lambda i: rec(k + 1, vi + [i]), real)
        return num(rec(0, []))
    axis = norm_axis(axis, a.ndim)
    g = a.dims[axis]
    dims = a.dims[:axis] + a.dims[axis + 1:]
    shell = SArr(a.buf, a.ext, dims, a.bmap)

    def get(vi):
        def rec(k, vi):
            if k == len(g):
                return rd(vi)

            def body(i):
                v = list(vi)
                v[g[k]] = i
                return rec(k + 1, v)
            return SUM(0, sub(a.ext[g[k]], 1), body, real)
        return rec(0, list(vi))
    r = build_like(shell, get, a.buf.dtype)
    return num(r.scalar_term()) if r.ndim == 0 else r


def np_sum(a, axis=None):
    return asarray(a).sum(axis)


def occurrences(a, x):
    """number of entries of the 1-d array a which equal x; sorted copies and concatenations are seen through"""
    def prov(n):
        return getattr(a, n, None) if not a.buf.written else None
    s = prov('sorted_from')
    if s is not None:
        return occurrences(s, x)
    s = prov('concat_of')
    if s is not None:
        r = 0
        for b in s:
            r = add(r, occurrences(b, x))
        return r
    s = prov('const_of')
    if s is not None:
        return ite(eq(toreal(s), toreal(x)), a.dext(0), 0)
    import kern
    f, n = line(a), a.dext(0)
    x = toreal(x)
    if isc(n) and n <= 4:
        t = 0
        for k in range(n):
            t = add(t, ite(eq(toreal(f(k)), x), 1, 0))
        return t
    t = kern.opaque('count', INT, n, kern.lam(1, lambda i: toreal(f(i))), x, ranges=lambda q: {1: [q[0]]})
    c = ctx()
    key = ('count', t.get_id())
    if key not in c.cache:
        w = fint('occ')
        c.cache[key] = (t, w)
        for h in getattr(c, 'count_lemmas', []):
            c.assume(*h(t, x))
    w = c.cache[key][1]
    c.assume(le(0, t), imp(le(0, n), le(t, n)), imp(lt(0, t), land(le(0, w), lt(w, n), eq(toreal(f(w)), x))))
    return t


def count_nonzero(a):
    a = asarray(a)
    if getattr(a, 'eq_of', None) is not None and a.ndim == 1 and not a.buf.written:
        return num(occurrences(*a.eq_of))
    rd = a.reader()
    if a.ndim != 1 or a.buf.dtype != 'b':
        raise Unsupported('count_nonzero')
    return num(SUM(0, sub(a.ext[a.dims[0][0]], 1), lambda i: ite(rd_1(a, rd, i), 1, 0), False))


def rd_1(a, rd, i):
    vi = [0] * len(a.ext)
    if len(a.dims[0]) == 1:
        vi[a.dims[0][0]] = i
    elif len(a.dims[0]) > 1:
        raise Unsupported('plain index into a grouped dimension')
    return rd(vi)


def line(a):
    """1-d array as a function of the index"""
    rd = a.reader()
    return lambda i: rd_1(a, rd, i)


def searchsorted(a, v, side='left'):
    """precondition: sorted; then the position is determined"""
    c = ctx()
    if a.ndim != 1 or not scalar(v):
        raise Unsupported('searchsorted')
    n = a.dext(0)
    f = line(a)
    x = toreal(term(v))
    i, j = fint('i'), fint('j')
    if isc(n) and n <= 8 and side in ('left', 'l', 'right', 'r'):
        for k in range(n - 1):
            c.ob('searchsorted needs a sorted array', le(f(k), f(k + 1)), 'pre')
        for k in range(n):
            if c.decide(le(x, f(k)) if side in ('left', 'l') else lt(x, f(k))):
                return k
        return n
    c.ob('searchsorted needs a sorted array', Forall([i], land(le(0, i), lt(add(i, 1), n)), le(f(i), f(add(i, 1)))), 'pre')
    k = fint('pos')
    c.assume(le(0, k), le(k, n))
    if side in ('left', 'l'):
        c.assume(Forall([i], land(le(0, i), lt(i, k)), lt(f(i), x)))
        c.assume(Forall([j], land(le(k, j), lt(j, n)), le(x, f(j))))
    elif side in ('right', 'r'):
        c.assume(Forall([i], land(le(0, i), lt(i, k)), le(f(i), x)))
        c.assume(Forall([j], land(le(k, j), lt(j, n)), lt(x, f(j))))
    else:
        raise pyerr(ValueError, 'side')
    return num(k)


def np_searchsorted(a, v, side='left'):
    return searchsorted(asarray(a), v, side)


def sort(a, axis=-1, kind=None):
    """sorted copy: a permutation of the input"""
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported('sort')
    c = ctx()
    n = a.dext(0)
    f = line(a)
    g = ffun('sorted', INT, REAL)
    pi, qi = ffun('perm', INT, INT), ffun('invperm', INT, INT)
    i, j, k, l = fint('i'), fint('j'), fint('k'), fint('l')
    c.assume(Forall([i, j], land(le(0, i), le(i, j), lt(j, n)), g(i) <= g(j)))
    c.assume(Forall([k], land(le(0, k), lt(k, n)), land(le(0, pi(k)), lt(pi(k), n), eq(g(k), f(pi(k))), eq(qi(pi(k)), k))))
    c.assume(Forall([l], land(le(0, l), lt(l, n)), land(le(0, qi(l)), lt(qi(l), n), eq(g(qi(l)), f(l)), eq(pi(qi(l)), l))))
    r = fresh_arr([n], lambda ix: g(tz(ix[0])))
    r.sorted_from = frozen(a)
    r.perm = (pi, qi)
    return r


def unique(a, return_inverse=False, return_index=False, return_counts=False):
    a = asarray(a)
    if a.ndim != 1 or return_index or return_counts:
        raise Unsupported('unique')
    c = ctx()
    n = a.dext(0)
    f = line(a)
    m = fint('nuniq')
    g = ffun('uniq', INT, REAL)
    inv, wit = ffun('inverse', INT, INT), ffun('occurs', INT, INT)
    i, j, k, l = fint('i'), fint('j'), fint('k'), fint('l')
    c.assume(le(0, m), le(m, n), imp(lt(0, n), lt(0, m)))
    c.assume(Forall([i, j], land(le(0, i), lt(i, j), lt(j, m)), g(i) < g(j)))
    c.assume(Forall([k], land(le(0, k), lt(k, n)), land(le(0, inv(k)), lt(inv(k), m), eq(g(inv(k)), f(k)))))
    c.assume(Forall([l], land(le(0, l), lt(l, m)), land(le(0, wit(l)), lt(wit(l), n), eq(g(l), f(wit(l))))))
    off = 0
    for b in (getattr(a, 'concat_of', None) or []) if not a.buf.written else []:
        # consequences for the parts of a concatenation, and for what a sorted part was sorted from
        nb, fb, q, o = b.dext(0), line(b), fint('q'), off
        perm = getattr(b, 'perm', None)
        if perm is not None:
            fs, at = line(b.sorted_from), (lambda q: perm[1](q))
            c.assume(Forall([q], land(le(0, q), lt(q, nb)),
                            land(le(0, inv(add(o, at(q)))), lt(inv(add(o, at(q))), m), eq(g(inv(add(o, at(q)))), fs(q)))))
        off = add(off, nb)
    u = fresh_arr([m], lambda ix: g(tz(ix[0])))
    if return_inverse:
        r = fresh_arr([n], lambda ix: inv(tz(ix[0])), 'i')
        r.inverse_of = (frozen(a), g, m)
        return u, r
    return u


def bincount(a):
    a = asarray(a)
    if a.ndim != 1 or a.buf.dtype != 'i':
        raise Unsupported('bincount')
    c = ctx()
    n = a.dext(0)
    io = getattr(a, 'inverse_of', None)
    if io is not None and getattr(io[0], 'concat_of', None) is not None and not a.buf.written:
        # how often each distinct value occurs
        return fresh_arr([io[2]], lambda ix: occurrences(io[0], io[1](tz(ix[0]))), 'i')
    f = line(a)
    mx = term(a.max()) if c.decide(lt(0, n)) else -1
    return fresh_arr([add(mx, 1)], lambda ix: SUM(0, sub(n, 1), lambda k: ite(eq(f(k), ix[0]), 1, 0), False), 'i')


def few(index):
    """selected positions of a short boolean mask (one path per possibility)"""
    if index.buf.dtype != 'b' or index.ndim != 1 or not isc(index.dext(0)) or index.dext(0) > 4:
        return None
    f = line(index)
    return [k for k in range(index.dext(0)) if ctx().decide(f(k))]


def fancy(a, index):
    if index.buf.dtype == 'b':
        if a.ndim != 1 or index.ndim != 1:
            raise Unsupported('boolean mask')
        conform_or_raise(a, index)
        sel = few(index)
        if sel is not None:
            if not sel:
                return zeros((0,), a.buf.dtype)
            return stack([asarray(a[k]) for k in sel])
        c = ctx()
        n = a.dext(0)
        f, mk = line(a), line(index)
        c.masks = getattr(c, 'masks', []) + [len(c.facts)]
        m = fint('nsel')
        pos, rank = ffun('pos', INT, INT), ffun('rank', INT, INT)
        i, j, k, l = fint('i'), fint('j'), fint('k'), fint('l')
        c.assume(le(0, m), le(m, n))
        c.assume(Forall([i, j], land(le(0, i), lt(i, j), lt(j, m)), pos(i) < pos(j)))
        c.assume(Forall([k], land(le(0, k), lt(k, m)), land(le(0, pos(k)), lt(pos(k), n), mk(pos(k)), eq(rank(pos(k)), k))))
        c.assume(Forall([l], land(le(0, l), lt(l, n), mk(l)), land(le(0, rank(l)), lt(rank(l), m), eq(pos(rank(l)), l))))
        r = fresh_arr([m], lambda ix: f(pos(tz(ix[0]))), a.buf.dtype)
        r.masked_from = (frozen(a), frozen(index), pos, rank)
        return r
    if a.ndim >= 1 and index.ndim == 1:
        n = index.dext(0)
        f = line(index)
        i = fint('i')
        ctx().ob('index array in range', Forall([i], land(le(0, i), lt(i, n)), land(le(0, f(i)), lt(f(i), a.dext(0)))), 'pre')
        if len(a.dims[0]) != 1:
            raise Unsupported('fancy index')
        rd = a.reader()
        x = a.dims[0][0]

        def get(vi):
            v = list(vi)
            v[x] = f(vi[x])
            return rd(v)
        ext = list(a.ext)
        ext[x] = n
        return build_like(SArr(a.buf, ext, a.dims, a.bmap), get, a.buf.dtype)
    raise Unsupported('fancy index')


# ------------------------------------------------------------------ linear algebra and elementary functions
def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    da = a.ndim - 1
    db = b.ndim - 2 if b.ndim > 1 else 0
    x, y = a.dext(da), b.dext(db)
    s = same(x, y)
    if s is None:
        s = ctx().decide(eq(x, y))
    if not s:
        raise pyerr(ValueError, 'shapes not aligned')
    if len(a.dims[da]) > 1 or len(b.dims[db]) > 1:
        raise Unsupported('dot over a grouped dimension')
    ra, rb = a.reader(), b.reader()
    oa = [z for k, d in enumerate(a.dims) if k != da for z in d]
    ob = [z for k, d in enumerate(b.dims) if k != db for z in d]
    na = len(oa)

    def get(ix):
        def body(k):
            va, vb = [0] * len(a.ext), [0] * len(b.ext)
            for z, i in zip(oa, ix[:na]):
                va[z] = i
            for z, i in zip(ob, ix[na:]):
                vb[z] = i
            for z in a.dims[da]:
                va[z] = k
            for z in b.dims[db]:
                vb[z] = k
            return mul(ra(va), rb(vb))
        return SUM(0, sub(x, 1), body)
    ext = [a.ext[z] for z in oa] + [b.ext[z] for z in ob]
    dims, k = [], 0
    for arr, dd in ((a, da), (b, db)):
        for n, d in enumerate(arr.dims):
            if n != dd:
                dims.append(tuple(range(k, k + len(d))))
                k += len(d)
    if not ext:
        return num(get(()))
    return SArr(Buf(ext, get), ext, dims, [(0, 1, k) for k in range(len(ext))])


def ufunc1(f):
    def g(x):
        if isinstance(x, (SNum, int, float, Fraction)):
            return num(f(toreal(term(x))))
        return elementwise(lambda t: f(toreal(t)), [x], 'd')
    return g


def f_cos(t):
    if isc(t) and t == 0:
        return Fraction(1)
    r = COS(tz(t))
    trig(t)
    return r


def f_sin(t):
    if isc(t) and t == 0:
        return Fraction(0)
    r = SIN(tz(t))
    trig(t)
    return r


def trig(t):
    t = tz(t)
    if ctx() is not None:
        ctx().assume(eq(add(mul(COS(t), COS(t)), mul(SIN(t), SIN(t))), Fraction(1)))
        h = tz(rdiv(pi_t, Fraction(2)))
        ctx().assume(z3.Implies(z3.And(-h < t, t < h), COS(t) > 0))


def f_tan(t):
    c, s = f_cos(t), f_sin(t)
    ctx().ob('tangent of an angle with nonzero cosine', lnot(eq(c, Fraction(0))), 'pre')
    return rdiv(s, c)


def f_sqrt(t):
    if isc(t):
        n, d = math.isqrt(t.numerator), math.isqrt(t.denominator)
        if t >= 0 and n * n == t.numerator and d * d == t.denominator:
            return Fraction(n, d)
    r = SQRT(tz(t))
    c = ctx()
    c.ob('square root', le(Fraction(0), t), 'pre')
    c.assume(le(Fraction(0), r), eq(mul(r, r), t))
    return r


cos, sin, sqrt, tan = ufunc1(f_cos), ufunc1(f_sin), ufunc1(f_sqrt), ufunc1(f_tan)


def np_abs(x):
    return abs(x)


def ceil(x):
    t = toreal(term(x))
    if isc(t):
        return num(Fraction(math.ceil(t)))
    k = z3.ToInt(-tz(t))
    return num(toreal(neg(k)))


def floor(x):
    t = toreal(term(x))
    if isc(t):
        return num(Fraction(math.floor(t)))
    return num(z3.ToReal(z3.ToInt(tz(t))))


def cross(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported('cross')
    x, y = line(a), line(b)
    v = [sub(mul(x(1), y(2)), mul(x(2), y(1))), sub(mul(x(2), y(0)), mul(x(0), y(2))), sub(mul(x(0), y(1)), mul(x(1), y(0)))]
    return asarray([num(t) for t in v], 'd')


def norm_(a, ord=None, axis=None):
    last = None
    if isinstance(a, SDropLast):
        a = a.a
        last = a.el(*[tuple(sub(a.ext[x], 1) for x in d) for d in a.dims])
    a = tight(asarray(a))
    if ord is not None or axis is not None:
        raise Unsupported('norm arguments')
    rd = a.reader()

    def rec(k, vi):
        if k == len(a.ext):
            v = rd(vi)
            return mul(v, v)
        return SUM(0, sub(a.ext[k], 1), lambda i: rec(k + 1, vi + [i]))
    s = rec(0, [])
    if last is not None:
        s = sub(s, mul(last, last))
    if isc(s):
        return num(f_sqrt(s))
    c = ctx()
    r = SQRT(tz(s))
    c.assume(le(Fraction(0), r), eq(mul(r, r), s))    # a sum of squares is not negative
    return num(r)


def allclose(a, b, rtol=1e-5, atol=1e-8):
    """modelled as exact equality (the tolerance is outside the proof)"""
    a, b = asarray(a), asarray(b)
    return quant(elementwise(lambda x, y: cmp('==', x, y), [a, b], 'b') if (a.ndim or b.ndim) else
                 asarray(SBool(tz(eq(a.scalar_term(), b.scalar_term())))), True)


class _NS:
    def __init__(self, name, **k):
        self.__dict__.update(k)
        self._name = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (self._name, n))


class LinAlgError(Exception):
    pass


def inv(a):
    """X with A X = X A = 1; raises for singular matrices (contract of numpy.linalg.inv)"""
    a = asarray(a)
    if a.ndim != 2 or not all(isc(e) for e in a.ext) or a.ext[0] != a.ext[1]:
        raise Unsupported('inverse')
    n = a.ext[0]
    c = ctx()
    if not c.decide(fresh('regular', BOOL)):
        raise pyerr(LinAlgError, 'Singular matrix')
    X = ffun('inv', INT, INT, REAL)
    rd = a.reader()
    A = lambda i, j: toreal(a.el(i, j))
    for i in range(n):
        for j in range(n):
            d = Fraction(int(i == j))
            l = r = Fraction(0)
            for k in range(n):
                l = add(l, mul(A(i, k), X(k, j)))
                r = add(r, mul(X(i, k), A(k, j)))
            c.assume(eq(l, d), eq(r, d))
    return fresh_arr([n, n], lambda ix: X(tz(ix[0]), tz(ix[1])))


def outer(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported('outer')
    return a[:, None] * b[None, :]


linalg = _NS('numpy.linalg', norm=norm_, inv=inv)


def maximum(a, b):
    return elementwise(lambda x, y: ite(le(x, y), y, x), [asarray(a), asarray(b)])


def atleast_1d(a):
    a = asarray(a)
    return a if a.ndim else a[newaxis]


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for d in range(a.ndim):
        if not ctx().decide(eq(a.dext(d), b.dext(d))):
            return False
    return quant(elementwise(lambda x, y: cmp('==', x, y), [a, b], 'b'), True)


def unmodelled(name):
    def f(*a, **k):
        raise Unsupported('numpy.%s' % name)
    return f


UNMODELLED = {n: unmodelled(n) for n in ('radians', 'degrees', 'deg2rad', 'rad2deg', 'in1d', 'arccos', 'arctan2', 'hypot')}


class OGrid:
    def __getitem__(self, s):
        ss = s if isinstance(s, tuple) else (s,)
        out = []
        for k, x in enumerate(ss):
            if not isinstance(x, slice) or not isinstance(x.step, complex) or x.step.real or x.step.imag != int(x.step.imag):
                raise Unsupported('ogrid')
            a = linspace(x.start, x.stop, int(x.step.imag))
            out.append(a[tuple(slice(None) if j == k else None for j in range(len(ss)))])
        return out if isinstance(s, tuple) else out[0]


def make():
    """the module object seen as numpy by the code under contract"""
    return _NS('numpy', newaxis=None, pi=SNum(pi_t), asarray=asarray, array=array, zeros=zeros, ones=ones, empty=empty,
               empty_like=empty_like, zeros_like=zeros_like, identity=identity, eye=eye, ascontiguousarray=ascontiguousarray,
               asfortranarray=asfortranarray, rollaxis=rollaxis, moveaxis=moveaxis, swapaxes=swapaxes, transpose=transpose,
               reshape=reshape, ravel=ravel, flip=flip, expand_dims=expand_dims, concatenate=concatenate, stack=stack,
               vstack=vstack, append=append, where=where, repeat=repeat, diff=diff, arange=arange, linspace=linspace,
               all=np_all, any=np_any, sum=np_sum, count_nonzero=count_nonzero, searchsorted=np_searchsorted, sort=sort,
               unique=unique, bincount=bincount, dot=dot, cos=cos, sin=sin, tan=tan, sqrt=sqrt, **UNMODELLED,
               abs=np_abs, absolute=np_abs,
               ceil=ceil, floor=floor, cross=cross, outer=outer, ogrid=OGrid(), maximum=maximum, row_stack=vstack, atleast_1d=atleast_1d, array_equal=array_equal,
               linalg=linalg, allclose=allclose, full=full, float64=float,
               ndarray=SArr, copy=lambda a: asarray(a).copy(), squeeze=lambda a: a.squeeze(), isscalar=lambda x: isinstance(x, (SNum, int, float)),
               ndim=lambda a: asarray(a).ndim, shape=lambda a: asarray(a).shape, size=lambda a: asarray(a).size)
