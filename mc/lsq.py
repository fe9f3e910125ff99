"""Least squares reference in exact rational arithmetic: bases, weights, fits,
derivatives; layouts of sample points."""
import itertools
from fractions import Fraction as F

import numpy as np

from sigmaepsilon.math.approx import ConstantWeightFunction, CubicWeightFunction, SingularWeightFunction
from sigmaepsilon.math.approx.functions import MLSWeightFunction

# derivative multi-indices in the order of the library's tuples
ORDER = {
    1: [(0,), (1,), (2,)],
    2: [(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1)],
    3: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2), (1, 1, 0), (1, 0, 1), (0, 1, 1)],
}


def monomials(dim, deg):
    return [e for e in itertools.product(range(deg + 1), repeat=dim) if sum(e) <= deg]


def mono(e, x, d=None):
    """d-th derivative of the monomial with exponents e at x (exact for Fractions)"""
    r = F(1) if isinstance(x[0], F) else 1.0
    for k, (p, xi) in enumerate(zip(e, x)):
        q = 0 if d is None else d[k]
        c = 1
        for j in range(q):
            c *= p - j
        if c == 0:
            return r * 0
        r = r * c * xi ** (p - q)
    return r


def frac(x):
    return [F(float(v)) for v in np.atleast_1d(np.asarray(x, dtype=float))]


def solve(A, rhs):
    """exact Gaussian elimination; None if singular.  rhs: list of columns"""
    n = len(A)
    M = [list(A[i]) + [c[i] for c in rhs] for i in range(n)]
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None:
            return None
        M[i], M[p] = M[p], M[i]
        piv = M[i][i]
        M[i] = [v / piv for v in M[i]]
        for r in range(n):
            if r != i and M[r][i] != 0:
                f = M[r][i]
                M[r] = [a - f * b for a, b in zip(M[r], M[i])]
    return [[M[i][n + c] for i in range(n)] for c in range(len(rhs))]


def rank(rows):
    M = [list(map(F, r)) for r in rows]
    r = 0
    for c in range(len(M[0]) if M else 0):
        p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(r + 1, len(M)):
            if M[i][c] != 0:
                f = M[i][c] / M[r][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        r += 1
    return r


def determines(P, deg):
    """do the sample points determine a polynomial of the degree?  float conditioning included"""
    dim = len(P[0])
    E = monomials(dim, deg)
    if len(P) < len(E):
        return False
    X = np.array([[mono(e, [float(v) for v in p]) for e in E] for p in P])
    s = np.linalg.svd(X, compute_uv=False)
    return s[-1] > 1e-3 * s[0]


# -- weights ---------------------------------------------------------------
def cubic(r):
    r = abs(r)
    if r <= F(1, 2):
        return F(2, 3) - 4 * r**2 + 4 * r**3
    if r <= 1:
        return F(4, 3) - 4 * r + 4 * r**2 - F(4, 3) * r**3
    return F(0)


class RationalWeight(MLSWeightFunction):
    """1 / (1 + |core - x|^2), in any dimension, with its derivatives by the core"""

    def value(self, x):
        d = np.atleast_1d(np.subtract(self.core, x))
        return 1 / (1 + d @ d)

    def gradient(self, x):
        d = np.atleast_1d(np.subtract(self.core, x))
        return -2 * d / (1 + d @ d) ** 2

    def Hessian(self, x):
        d = np.atleast_1d(np.subtract(self.core, x))
        s = 1 + d @ d
        return -2 * np.eye(len(d)) / s**2 + 8 * np.outer(d, d) / s**3


def make_weight(spec, core):
    """the library's weight object"""
    name = spec[0]
    core = [float(v) for v in core]
    if name == "none":
        return None
    if name == "const":
        return ConstantWeightFunction(core=core, value=spec[1])
    if name == "support":
        return ConstantWeightFunction(core=core, value=spec[1], sd=[float(v) for v in spec[2]])
    if name == "cubic":
        return CubicWeightFunction(core=core, sd=[float(v) for v in spec[1]])
    if name == "singular":
        return SingularWeightFunction(core=core, eps=spec[1])
    if name == "rational":
        return RationalWeight(core=core)
    raise KeyError(name)


def weight(spec, core, x):
    """exact weight of the sample x"""
    name = spec[0]
    d = [a - b for a, b in zip(core, x)]
    if name == "none":
        return F(1)
    if name == "const":
        return F(spec[1])
    if name == "support":
        return F(spec[1]) if all(abs(a) <= F(s) for a, s in zip(d, spec[2])) else F(0)
    if name == "cubic":
        r = F(1)
        for a, s in zip(d, spec[1]):
            r *= cubic(a / F(s))
        return r
    if name == "singular":
        return 1 / (sum(a * a for a in d) + F(spec[1]) ** 2)
    if name == "rational":
        return 1 / (1 + sum(a * a for a in d))
    raise KeyError(name)


# -- fits --------------------------------------------------------------------
def shapes(P, deg, spec, core, x, d=None):
    """The value (derivative at fixed core) at x of the fits to all unit data
    vectors: a list of one number per sample; None if not determined."""
    dim = len(P[0])
    E = monomials(dim, deg)
    W = [weight(spec, core, p) for p in P]
    Bs = [[mono(e, p) for e in E] for p in P]
    A = [[sum(w * b[i] * b[j] for w, b in zip(W, Bs)) for j in range(len(E))] for i in range(len(E))]
    ds = d if isinstance(d, list) else [d]
    sol = solve(A, [[mono(e, x, dd) for e in E] for dd in ds])
    if sol is None:
        return None
    res = [[w * sum(g * v for g, v in zip(gam, b)) for w, b in zip(W, Bs)] for gam in sol]
    return res if isinstance(d, list) else res[0]


def moving(P, deg, spec, x, order, h=F(1, 10**9)):
    """values and derivatives of the moving fit to unit data, by difference quotients in exact arithmetic"""
    dim = len(P[0])

    def at(off):
        y = [a + o * h for a, o in zip(x, off)]
        return shapes(P, deg, spec, y, y)

    memo = {}

    def val(off):
        if off not in memo:
            memo[off] = at(off)
        return memo[off]

    res = []
    z = (0,) * dim
    for d in ORDER[dim]:
        if sum(d) > order:
            res.append(None)
            continue
        if sum(d) == 0:
            v = val(z)
        elif sum(d) == 1:
            k = d.index(1)
            p = tuple(1 if i == k else 0 for i in range(dim))
            m = tuple(-1 if i == k else 0 for i in range(dim))
            if val(p) is None or val(m) is None:
                return None
            v = [(a - b) / (2 * h) for a, b in zip(val(p), val(m))]
        elif 2 in d:
            k = d.index(2)
            p = tuple(1 if i == k else 0 for i in range(dim))
            m = tuple(-1 if i == k else 0 for i in range(dim))
            v = [(a - 2 * b + c) / h**2 for a, b, c in zip(val(p), val(z), val(m))]
        else:
            i, j = [k for k in range(dim) if d[k]]

            def o(s, t):
                return tuple(s if k == i else t if k == j else 0 for k in range(dim))

            v = [(a - b - c + e) / (4 * h**2) for a, b, c, e in zip(val(o(1, 1)), val(o(1, -1)), val(o(-1, 1)), val(o(-1, -1)))]
        if v is None:
            return None
        res.append(np.array([float(t) for t in v]))
    return res


# -- layouts -------------------------------------------------------------------
def grid_points(dim, vals):
    return [list(p) for p in itertools.product(vals, repeat=dim)]


LAYOUTS = {
    1: {
        "three": [[0.0], [1.0], [2.0]],
        "uneven": [[-1.0], [0.5], [2.0], [2.5]],
        "shuffled": [[2.0], [-1.0], [0.5], [-2.5], [1.25]],
        "repeated": [[0.0], [1.0], [1.0], [2.0], [0.0]],
        "far": [[10.0], [11.0], [12.5], [13.0]],
    },
    2: {
        "lattice": [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [2.0, 0.0], [0.0, 2.0], [1.0, 1.0]],
        "grid": grid_points(2, [-1.0, 0.0, 1.0]),
        "scattered": [[0.0, 0.25], [1.0, -0.5], [-1.0, 1.0], [0.5, 1.5], [-0.75, -1.25], [1.5, 0.75], [0.25, -1.75]],
        "repeated": [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [2.0, 0.0], [0.0, 2.0], [1.0, 1.0], [1.0, 1.0], [0.0, 0.0]],
        "shifted": [[a + 3.0, b - 2.0] for a, b in grid_points(2, [-1.0, 0.0, 1.0])],
    },
    3: {
        "lattice": [p for p in grid_points(3, [0.0, 1.0, 2.0]) if sum(p) <= 2],
        "grid": grid_points(3, [-1.0, 0.0, 1.0]),
        "scattered": [[((k * 7) % 11) / 4 - 1.25, ((k * 5) % 13) / 4 - 1.5, ((k * 3) % 7) / 2 - 1.5] for k in range(14)],
    },
}
POINTS = {
    1: [[0.3], [1.0], [-0.7], [2.2], [11.1]],
    2: [[0.3, 0.1], [1.0, 1.0], [-0.65, 0.4], [2.1, -0.3]],
    3: [[0.3, 0.1, -0.2], [1.0, 1.0, 0.0], [-0.65, 0.4, 0.7], [2.1, -0.3, 1.6]],
}


def arr(P, kind="C"):
    """points as the library takes them: 1-D array in one dimension"""
    A = np.array(P, dtype=float)
    if A.shape[1] == 1:
        A = A[:, 0]
    if kind == "int":
        return A.astype(int)
    if kind == "f32":
        return A.astype(np.float32)
    if kind == "F":
        return np.asfortranarray(A)
    if kind == "strided":
        B = np.zeros((2 * A.shape[0],) + A.shape[1:])
        B[::2] = A
        return B[::2]
    if kind == "readonly":
        A.setflags(write=False)
        return A
    if kind == "list":
        return A.tolist()
    return A


def at(x, kind="array"):
    """an evaluation point as the library takes it"""
    if len(x) == 1:
        v = float(x[0])
        return {"array": v, "list": v, "np": np.float64(v), "int": int(v)}.get(kind, v)
    if kind == "list":
        return [float(v) for v in x]
    if kind == "tuple":
        return tuple(float(v) for v in x)
    if kind == "int":
        return np.array(x, dtype=int)
    return np.array(x, dtype=float)
