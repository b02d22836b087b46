"""Executable specification: B-splines/NURBS straight from the Cox-de Boor
definition, written without looking at how igakit computes them.

An 'object' here is (knots, array): list of 1-D knot vectors and the homogeneous
control array (..., 4+nf), array[..., :3] = w*P, array[..., 3] = w,
array[..., 4:] = w*F.
"""
import itertools
import numpy as np


def degree_of(U, n1):
    return len(U) - n1 - 1


def find_span(p, U, u, side='r'):
    """Non-degenerate knot span containing u; right-continuous inside the domain,
    the last one at the right end (side='l': left-continuous)."""
    U = np.asarray(U, float)
    n = len(U) - p - 2
    ks = [k for k in range(p, n + 1) if U[k] < U[k + 1]]
    if side == 'r':
        c = [k for k in ks if U[k] <= u]
        return c[-1] if c else ks[0]
    c = [k for k in ks if U[k + 1] >= u]
    return c[0] if c else ks[-1]


def all_basis(p, U, u, k):
    """values of all basis functions of degrees 0..p at u, the degree-0 one being the
    indicator of span k.  Returns list N[q][i]."""
    U = np.asarray(U, float)
    m = len(U) - 1
    N = [np.zeros(m)]
    N[0][k] = 1.0
    for q in range(1, p + 1):
        prev = N[-1]
        cur = np.zeros(m - q)
        for i in range(m - q):
            a = b = 0.0
            if prev[i] != 0.0:
                a = (u - U[i]) / (U[i + q] - U[i]) * prev[i]
            if prev[i + 1] != 0.0:
                b = (U[i + q + 1] - u) / (U[i + q + 1] - U[i + 1]) * prev[i + 1]
            cur[i] = a + b
        N.append(cur)
    return N


def basis_ders(p, U, u, dmax, k):
    """D[d][i] = d-th derivative of N_{i,p} at u on span k."""
    U = np.asarray(U, float)
    N = all_basis(p, U, u, k)
    m = len(U) - 1

    def der(q, d):
        if d == 0:
            return N[q]
        if q == 0:
            return np.zeros(m)
        lo = der(q - 1, d - 1)
        cur = np.zeros(m - q)
        for i in range(m - q):
            a = b = 0.0
            if lo[i] != 0.0:
                a = q / (U[i + q] - U[i]) * lo[i]
            if lo[i + 1] != 0.0:
                b = q / (U[i + q + 1] - U[i + 1]) * lo[i + 1]
            cur[i] = a - b
        return cur
    return np.array([der(p, d) for d in range(dmax + 1)])


def basis_matrix(p, U, pts, d=0, side='r'):
    U = np.asarray(U, float)
    n1 = len(U) - p - 1
    B = np.zeros((len(pts), n1))
    for r, u in enumerate(pts):
        B[r] = basis_ders(p, U, u, d, find_span(p, U, u, side))[d]
    return B


def eval_homog(knots, array, pts, ders=None, sides=None):
    """tensor product evaluation of every component of array at the grid pts."""
    out = np.asarray(array, float)
    dim = len(knots)
    ders = ders or [0] * dim
    sides = sides or ['r'] * dim
    for ax in range(dim):
        p = degree_of(knots[ax], array.shape[ax])
        B = basis_matrix(p, knots[ax], pts[ax], ders[ax], sides[ax])
        out = np.moveaxis(np.tensordot(B, out, axes=(1, ax)), 0, ax)
    return out


def eval_points(knots, array, pts, sides=None):
    H = eval_homog(knots, array, pts, None, sides)
    return np.concatenate([H[..., :3], H[..., 4:]], -1) / H[..., 3:4]


def rational_ders(knots, wF, pts, order, sides=None, known=None):
    """wF: (..., 1+nf) = weight, weighted field.  Returns {alpha: array} of all partial
    derivatives of F = wF/w up to total order."""
    dim = len(knots)
    alphas = [a for a in itertools.product(range(order + 1), repeat=dim) if sum(a) <= order]
    alphas.sort(key=sum)
    H = {a: eval_homog(knots, wF, pts, list(a), sides) for a in alphas}
    if known == 'F1':        # known finding F1: 4th basis derivatives of curves := 3rd
        H[(4,)] = H[(3,)]
    from math import comb
    R = {}
    w0 = H[(0,) * dim][..., 0:1]
    for a in alphas:
        acc = H[a][..., 1:].copy()
        for b in itertools.product(*[range(x + 1) for x in a]):
            if sum(b) == 0:
                continue
            c = 1
            for x, y in zip(a, b):
                c *= comb(x, y)
            lo = tuple(x - y for x, y in zip(a, b))
            acc -= c * H[b][..., 0:1] * R[lo]
        R[a] = acc / w0
    return R


def derivative_tensor(R, dim, order):
    """stack {alpha} into trailing axes [f, i1, ..., i_order]"""
    z = next(iter(R.values()))
    out = np.zeros(z.shape + (dim,) * order)
    for idx in itertools.product(range(dim), repeat=order):
        a = [0] * dim
        for i in idx:
            a[i] += 1
        out[(Ellipsis,) + idx] = R[tuple(a)]
    return out


def knot_mults(U, tol=1e-12):
    """sorted distinct knots and multiplicities over the whole vector"""
    u, s = [], []
    for x in U:
        if u and abs(x - u[-1]) <= tol:
            s[-1] += 1
        else:
            u.append(float(x)); s.append(1)
    return u, s


def mult_of(U, x, tol=1e-12):
    return int(sum(abs(np.asarray(U) - x) <= tol))


def domain(p, U):
    return float(U[p]), float(U[len(U) - p - 1])


def sample_params(p, U, rng, n=4, knots=True):
    a, b = domain(p, U)
    pts = [a, b]
    br = sorted(set(x for x in U if a <= x <= b))
    if knots:
        pts += br
    for x, y in zip(br[:-1], br[1:]):
        if y - x > 1e-9:
            pts.append(x + (y - x) * rng.uniform(0.05, 0.95))
    for _ in range(n):
        pts.append(rng.uniform(a, b))
    return sorted(set(float(t) for t in pts))
