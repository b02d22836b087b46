"""Seeded generators of JSON-serialisable igakit inputs."""
import numpy as np
import oracle as O


class Rng:
    """thin deterministic wrapper (numpy Generator)"""
    def __init__(self, seed):
        self.g = np.random.default_rng(seed)

    def uniform(self, a=0.0, b=1.0):
        return float(self.g.uniform(a, b))

    def randint(self, a, b):
        return int(self.g.integers(a, b + 1))

    def choice(self, seq):
        return seq[int(self.g.integers(0, len(seq)))]

    def chance(self, p):
        return bool(self.g.random() < p)

    def shuffle(self, seq):
        seq = list(seq)
        self.g.shuffle(seq)
        return [x for x in seq]

    def array(self, shape, a=-2.0, b=2.0):
        return np.round(self.g.uniform(a, b, shape), 6)


def breaks(rng, nspan, a, b):
    """well-separated break points"""
    w = np.array([rng.uniform(0.4, 1.6) for _ in range(nspan)])
    if rng.chance(0.4):
        w[:] = 1.0
    t = np.concatenate([[0.0], np.cumsum(w) / w.sum()])
    br = a + (b - a) * t
    br[-1] = b
    br = [float(np.round(x, 6)) for x in br]
    return br


def knots(rng, p, nspan, ends=None, dom=None, maxmult=None):
    """sorted knot vector of degree p with U[p]<U[p+1], U[n]<U[n+1]; ends: pair of
    'c' clamped, 'u' unclamped (all end knots distinct), 'h' something between."""
    if dom is None:
        dom = rng.choice([(0.0, 1.0), (0.0, 1.0), (-1.0, 1.0), (0.25, 2.5), (-3.5, -1.25),
                          (2.0, 7.0)])
    a, b = dom
    br = breaks(rng, nspan, a, b)
    a, b = br[0], br[-1]
    h = (b - a) / nspan
    maxmult = p if maxmult is None else min(p, maxmult)
    inner = []
    for x in br[1:-1]:
        mu = 1 if rng.chance(0.6) else rng.randint(1, maxmult)
        inner += [x] * mu
    ends = ends or [rng.choice('ccccuh') for _ in range(2)]
    out = []
    for side in (0, 1):
        e = ends[side]
        if e == 'c':
            k = [0.0] * p
        elif e == 'u':
            k = list(np.cumsum([rng.uniform(0.3, 1.2) * h for _ in range(p)]))
        else:
            z = rng.randint(0, p - 1)
            k = [0.0] * z + list(np.cumsum([rng.uniform(0.3, 1.2) * h for _ in range(p - z)]))
            if len(k) >= 2 and rng.chance(0.3):
                k[-1] = k[-2]
        out.append([float(np.round(x, 6)) for x in k])
    return [a - x for x in out[0][::-1]] + [a] + inner + [b] + [b + x for x in out[1]]


SIZES = {1: (6, 6), 2: (4, 4), 3: (3, 2)}       # dim -> (pmax, nspan max)


def obj(rng, dim=None, nf=None, ends=None, dom=None, pmax=None, nspan=None, rational=None,
        planar=False, pmin=1, maxmult=None, degrees=None):
    dim = dim or rng.choice([1, 1, 2, 2, 3])
    pm, sm = SIZES[dim]
    pm = pmax or pm
    sm = nspan or sm
    K, shape = [], []
    for ax in range(dim):
        p = degrees[ax] if degrees else rng.randint(pmin, max(pmin, min(pm, rng.choice([2, 3, 4, pm]))))
        e = ends[ax] if isinstance(ends, (list, tuple)) and ends and isinstance(ends[0], (list, tuple)) else ends
        K.append(knots(rng, p, rng.randint(1, sm), e, dom, maxmult))
        shape.append(len(K[-1]) - p - 1)
    nf = rng.choice([0, 0, 1, 2, 3]) if nf is None else nf
    rational = rng.chance(0.7) if rational is None else rational
    w = rng.array(shape, 0.5, 2.0) if rational else np.ones(shape)
    if planar:       # a mild perturbation of the Greville grid: invertible geometry map
        P = np.zeros(shape + [3])
        for ax in range(dim):
            p = len(K[ax]) - shape[ax] - 1
            g = np.array([np.mean(K[ax][i + 1:i + p + 1]) for i in range(shape[ax])])
            L = (K[ax][-1] - K[ax][0])
            sh = [1] * dim
            sh[ax] = -1
            P[..., ax] += (g / L).reshape(sh)
        mn = max(shape)
        P += rng.array(shape + [3], -0.1, 0.1) / mn
        if rational:
            w = 1 + (w - 1) * 0.1
    else:
        P = rng.array(shape + [3])
    F = rng.array(shape + [nf]) if nf else None
    A = np.concatenate([P * w[..., None], w[..., None]] + ([F * w[..., None]] if nf else []), -1)
    return {'knots': K, 'array': A.tolist()}


def arr(o):
    return [np.array(k) for k in o['knots']], np.array(o['array'])


def degs(o):
    A = np.array(o['array'])
    return [len(k) - A.shape[i] - 1 for i, k in enumerate(o['knots'])]


def build(ig, o):
    """the NURBS object through the public constructor"""
    K, A = arr(o)
    C = A[..., :4].copy()
    F = None
    if A.shape[-1] > 4:
        F = A[..., 4:] / A[..., 3:4]
    return ig.NURBS([k.copy() for k in K], C, fields=F)


def axis_of(rng, dim):
    a = rng.randint(0, dim - 1)
    return a - dim if rng.chance(0.3) else a


def inner_breaks(p, U):
    a, b = O.domain(p, U)
    return sorted(set(x for x in U if a < x < b))


def param(rng, p, U):
    """a parameter: break, span interior, or end"""
    a, b = O.domain(p, U)
    br = inner_breaks(p, U)
    c = rng.randint(0, 5)
    if c == 0 and br:
        return float(rng.choice(br))
    if c == 1:
        return rng.choice([a, b])
    return float(np.round(rng.uniform(a, b), 5)) if c < 4 else rng.uniform(a, b)


def new_knot(rng, p, U):
    """a value strictly inside a span, well separated from the existing knots"""
    a, b = O.domain(p, U)
    br = [a] + inner_breaks(p, U) + [b]
    i = rng.randint(0, len(br) - 2)
    return float(np.round(br[i] + (br[i + 1] - br[i]) * rng.uniform(0.15, 0.85), 6))
