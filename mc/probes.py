"""A catalogue of calls through every part of the library, each giving a result as plain data.

   python -m mc.probes            prints {name: result} as JSON

Used by C25: the results must not depend on the interpreter's hash seed, on the number of threads, on whether the
compiled kernels come from a cache, or on the calls made before."""
import json
import sys

import numpy as np


def plain(x):
    """JSON-able"""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x
    if isinstance(x, (str, type(None))):
        return x
    if isinstance(x, dict):
        return {"dict": sorted(([str(k), plain(v)] for k, v in x.items()), key=lambda t: t[0])}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return [plain(v) for v in x.tolist()] if x.ndim else plain(x.item())
    if hasattr(x, "free_symbols"):
        return float(x) if x.is_number else str(x)
    raise TypeError(type(x))


P = []


def probe(f):
    P.append((f.__name__, f))
    return f


TEXTS = ["x**2 + 3*y - z", "b*a - c/2 + 4", "zet + 2*alp + 3*mu + 4*bet", "x2 + 2*x10 + 3*x1", "y*x + x**3*w", "sin(q) + cos(p)*r"]


def _fun(text, **k):
    from sigmaepsilon.math.function import Function

    f = Function(text, **k)
    n = f.dimension
    x = np.array([0.5 + 0.7 * i for i in range(n)])
    X = np.array([[0.5 + 0.7 * i, 1.0 + 0.3 * i, -0.4 + 0.2 * i] for i in range(n)])
    return [n, [str(v) for v in f.variables], plain(f(x)), plain(f(X)), plain(f.g(x)), plain(f.G(x)), bool(f.is_linear)]


for _i, _t in enumerate(TEXTS):
    P.append((f"function_{_i}", lambda t=_t: _fun(t)))
P.append(("function_vars", lambda: _fun("x + 2*y + 3*z", variables=["z", "y", "x"])))
P.append(("function_extra", lambda: _fun("3*x + 4*y - 2", variables=["x", "y", "z"])))


@probe
def function_expr():
    import sympy as sy
    from sigmaepsilon.math.function import Function

    u, v, w = sy.symbols("u v w")
    f = Function(u * v**2 - w + 3 * v)
    return [[str(s) for s in f.variables], plain(f([1.0, 2.0, 3.0])), plain(f.g([1.0, 2.0, 3.0])), plain(f.G([1.0, 2.0, 3.0]))]


@probe
def function_numeric():
    from sigmaepsilon.math.function import Function

    f = Function(lambda x: x[0] ** 2 + 2 * x[1], lambda x: np.array([2 * x[0], 2.0]), lambda x: np.array([[2.0, 0], [0, 0]]))
    return [plain(f([1.5, 2.0])), plain(f.g([1.5, 2.0])), plain(f.G([1.5, 2.0]))]


@probe
def function_subs():
    from sigmaepsilon.math.function import Function

    f = Function("x**2 + 3*y*z - w")
    r = []
    for values, variables in (([1, 2], ["y", "z"]), ([2], ["w"]), ([1, 2, 3], ["x", "y", "w"]), ([3, 1], ["z", "x"])):
        g = f.subs(values, variables)
        n = len(g.variables)
        r.append([[str(v) for v in g.variables], plain(g([0.5 + i for i in range(n)]))])
    return r


@probe
def function_coefficients():
    from sigmaepsilon.math.function import Function
    from sigmaepsilon.math.function.symutils import coefficients, substitute

    f = Function("3*x + 4*y - 2 + 7*b - a")
    return [plain(f.linear_coefficients()), plain(f.linear_coefficients(normalize=True)), plain(coefficients(f.expr)),
            plain(coefficients(f.expr, normalize=True)), str(substitute(f.expr, [1, 2, 3, 4])), str(substitute(f.expr, [5, 6]))]


@probe
def relations():
    from sigmaepsilon.math.function import Equality, InEquality, Relation

    r = []
    for t in ("x + 2*y - b <= 3", "c*2 - a >= 1", "x2 + 3*x1 = 4", "q - p + r < 0.5", "m + l > n"):
        R = Relation(t)
        n = R.dimension
        x = [0.5 + i for i in range(n)]
        r.append([[str(v) for v in R.variables], plain(R(x)) if not isinstance(R(x), str) else R(x), bool(R.relate(x)), str(R.operator)[:30]])
    for R in (InEquality("x + 3*y - 6", op="<="), Equality("b - 2*a", op="=")):
        r.append([[str(v) for v in R.variables], plain(R.f0([1.0, 2.0])), bool(R.relate([1.0, 2.0]))])
    return r


@probe
def lp_text():
    import sympy as sy
    from sigmaepsilon.math.function import Function, Relation
    from sigmaepsilon.math.optimize import LinearProgrammingProblem

    r = []
    for names, obj, cons in (("x y", "-3*x - 2*y", ("x + y <= 4", "x + 3*y <= 6", "x - 3 + 0*y <= 0")), ("a b c", "-b + 2*a + c", ("a + b + c <= 4", "b - a + 2*c <= 2", "a + 3*b - c <= 9", "a + b + c = 1"))):
        v = list(sy.symbols(names))
        p = LinearProgrammingProblem(Function(obj, variables=v), [Relation(c, variables=v) for c in cons], variables=v, bounds=(0, 4))
        s = p.solve()
        r.append([plain(np.asarray(s.x)), plain(float(s.fun)), plain([np.asarray(q.todense() if hasattr(q, "todense") else q) for q in p.to_numpy()]) if hasattr(p, "to_numpy") else None])
    return r


@probe
def lagrange():
    from sigmaepsilon.math.approx import approx_Lagrange_1d, gen_Lagrange_1d
    from sympy import symbols, lambdify

    r = []
    for k in (dict(x=[-1, 0, 1]), dict(N=3), dict(i=[1, 2], N=2)):
        d = gen_Lagrange_1d(**k)
        for key in d:
            for q in d[key]:
                e = d[key][q]
                r.append([str(key), str(q), str(e) if isinstance(e, str) else (plain(float(e.subs({s: 0.37 for s in e.free_symbols}))) if hasattr(e, "subs") else plain(e(0.37)))])
    a = approx_Lagrange_1d([0, 1, 4], [1, 3, 0], lambdify=True)
    return [r, plain([float(a(t)) for t in (0.0, 0.5, 3.3)])]


@probe
def benchmark():
    from sigmaepsilon.math.function import functions as F

    r = []
    for n in F.__all__:
        f = getattr(F, n)()
        r.append([n, plain(f([0.3, 0.7])), plain(f.g([0.3, 0.7])), plain(f.G([0.3, 0.7])), plain(f.optimums)])
    return r


S = np.array([[1.0, 0.2, 0], [0, 1.5, 0.1], [0.3, 0, 0.8]])


@probe
def frames():
    from sigmaepsilon.math.linalg import CartesianFrame, RectangularFrame, ReferenceFrame, Tensor2, Tensor4, Vector

    A, B, C = ReferenceFrame(S), CartesianFrame(dim=3), RectangularFrame(np.diag([2.0, 1, 3]))
    B2 = B.orient_new("Body", [0.3, 0.5, 0.2], "XYZ")
    v = Vector([1.0, 2, 3], frame=A)
    t = Tensor2(np.arange(9.0).reshape(3, 3), frame=A)
    q = Tensor4(np.arange(81.0).reshape(3, 3, 3, 3), frame=B)
    return [plain(np.asarray(v.show(B2))), plain(np.asarray(t.show(C))), plain(np.asarray(q.show(B2))[0, 1]), plain(np.asarray(A.dcm(target=B2))),
            plain(np.asarray(A.Gram())), plain(np.asarray(A.dual().axes)), plain(A.volume()), bool(A.is_rectangular()) if callable(getattr(A, "is_rectangular", None)) else None]


@probe
def tensor_algebra():
    from sigmaepsilon.math.linalg import CartesianFrame, ReferenceFrame, Tensor2, Vector, cross, dot

    A, B = ReferenceFrame(S), CartesianFrame(dim=3)
    v, w = Vector([1.0, 2, 3], frame=A), Vector([0.5, -1, 2], frame=B)
    t = Tensor2(np.arange(9.0).reshape(3, 3), frame=B)
    return [plain(float(dot(v, w))), plain(np.asarray(cross(v, w).show(B))), plain(np.asarray(dot(t, w).show(A))), plain(np.asarray((v * 2 + Vector([1.0, 0, 1], frame=A)).show(B)))]


@probe
def tensor_update():
    from sigmaepsilon.math.linalg import CartesianFrame, Tensor2, Vector

    f = CartesianFrame(dim=3)
    v = Vector([1.0, 2, 3], frame=f)
    t = Tensor2(np.arange(9.0).reshape(3, 3), frame=f)
    g = CartesianFrame(dim=3)
    f.orient("Body", [0.1, 0.2, 0.3], "XYZ")
    g.rotate("Space", [0.1, 0.2, 0.3], "XYZ")
    return [plain(np.asarray(v.show())), plain(np.asarray(v.array)), plain(np.asarray(t.array)), plain(np.asarray(g.axes))]


@probe
def jagged():
    from sigmaepsilon.math.linalg import JaggedArray

    j = JaggedArray([[3, 1], [2, 3, 5], [1]])
    k = JaggedArray(np.array([3.0, 1, 2, 2]), cuts=[1, 3])
    return [plain(np.asarray(j.widths())), plain(np.asarray(j.to_numpy())), plain(np.asarray(k.flatten())), str(type(k.shape).__name__), plain(np.asarray(j.unique())) if not isinstance(j.unique(), tuple) else None]


@probe
def csr():
    from sigmaepsilon.math.linalg import JaggedArray, csr_matrix

    m = csr_matrix(np.array([[0, 2.0, 0], [1, 0, 3], [0, 0, 0]]))
    j = JaggedArray([[3, 1], [2, 3, 5], [1]]).to_csr()
    return [plain(np.asarray(m.data)), plain(np.asarray(m.indptr)), plain(np.asarray(j.data)), plain(np.asarray(j.indices)), plain(list(j.shape)), plain(np.asarray(j.to_numpy()))]


@probe
def setops():
    from sigmaepsilon.math.arraysetops import unique2d

    return [plain([np.asarray(x) for x in unique2d(np.array([[3, 1], [5, 3], [1, 1]]), return_index=True, return_inverse=True, return_counts=True)])]


@probe
def graph():
    from sigmaepsilon.math.graph import Graph, pseudo_peripheral_nodes, rooted_level_structure
    from sigmaepsilon.math.linalg import csr_matrix
    from scipy.sparse import csr_matrix as sc

    G = Graph([(0, 1), (1, 2), (2, 3), (3, 4), (1, 4), (4, 5)])
    adj = csr_matrix(sc(np.array([[0, 1, 0, 0, 0], [1, 0, 1, 0, 0], [0, 1, 0, 1, 1], [0, 0, 1, 0, 0], [0, 0, 1, 0, 0]])))
    r = rooted_level_structure(adj, 0)
    return [sorted((int(k), sorted(int(x) for x in v)) for k, v in dict(r).items()), plain([int(x) for x in pseudo_peripheral_nodes(adj)]), plain([int(x) for x in G.pseudo_peripheral_nodes()])]


@probe
def knn():
    from sigmaepsilon.math.knn import k_nearest_neighbours

    X = np.array([[i * 1.1 + 0.07 * j * i, j * 0.9 + 0.03 * i * i, 0.1 * i] for i in range(5) for j in range(4)])
    return [plain(np.asarray(k_nearest_neighbours(X, X + 0.01, k=3)))]


@probe
def knn_many():
    from sigmaepsilon.math.knn import k_nearest_neighbours

    n = np.arange(600)
    X = np.stack([np.sin(n * 1.3), np.cos(n * 2.1), np.sin(0.7 * n)], axis=1)
    r = k_nearest_neighbours(X, X[::3] + 0.003, k=4, return_distance=True)
    return [plain(np.asarray(r[0])[::25]), plain(np.asarray(r[1])[::25])]


@probe
def mls_approximator():
    from sigmaepsilon.math.approx import MLSApproximator
    from sigmaepsilon.math.knn import k_nearest_neighbours

    n = np.arange(40)
    X = np.stack([np.sin(n * 1.3), np.cos(n * 2.1), np.sin(0.7 * n)], axis=1)
    Y = np.stack([X[:, 0] * 2, X[:, 1] - X[:, 2]], axis=1)
    N = k_nearest_neighbours(X, X, k=5)
    a = MLSApproximator(X, Y, k=5)
    return [plain(np.asarray(N)), plain(np.asarray(a.approximate(X[:10] + 0.01)))]


@probe
def least_squares():
    from sigmaepsilon.math.approx import CubicWeightFunction, least_squares, moving_least_squares, weighted_least_squares

    P = np.array([[i, j] for i in (0.0, 0.5, 1.0, 1.7) for j in (0.0, 0.6, 1.3)])
    v = np.array([[np.sin(x) + y, x * y] for x, y in P])
    w = CubicWeightFunction(core=[0.5, 0.5], sd=[2.0, 2.0])
    x = [0.4, 0.7]
    return [plain([np.asarray(q) for q in f(x)]) for f in (least_squares(P, v, deg=2, order=2), weighted_least_squares(P, v, deg=2, order=2, w=w), moving_least_squares(P, v, deg=1, order=1, w=w))]


@probe
def gauss():
    from sigmaepsilon.math.numint import gauss_points

    return [plain([np.asarray(q) for q in gauss_points(n)]) for n in (1, 2, 3, 5)] + [plain([np.asarray(q) for q in gauss_points(2, 3)]), plain([np.asarray(q) for q in gauss_points(2, 1, 2)])]


@probe
def solving():
    from sigmaepsilon.math.linalg import utils as LU

    A = np.array([[4.0, 1, 0], [1, 3, 1], [0, 1, 2]])
    B = np.array([[1.0, 2], [3, 4], [5, 6]])
    r = []
    for n in ("inv3x3", "det3x3", "norm", "normalize", "linsolve", "generalized_inverse", "left_inverse"):
        f = getattr(LU, n, None)
        if f is None:
            continue
        try:
            r.append([n, plain(np.asarray(f(A, B) if n == "linsolve" else f(A)))])
        except TypeError:
            r.append([n, "TypeError"])
    return r


@probe
def predicates():
    from sigmaepsilon.math import logical as L

    A = np.array([[4.0, 1, 0], [1, 3, 1], [0, 1, 2]])
    return [bool(L.ispossemidef(A)), bool(L.isposdef(A)), bool(L.ispossemidef(-A)), bool(L.issymmetric(A)), bool(L.isfloatarray(A)), bool(L.isintegerarray(A)), bool(L.is_none_or_false(None))]


@probe
def utilities():
    from sigmaepsilon.math import utils as U
    from sigmaepsilon.math.hist import histogram

    a = np.array([[1, 2], [3, 4], [1, 2], [5, 6]])
    r = []
    for n, args in (("atleastnd", (np.array([1.0, 2]), 3)), ("repeat", (np.array([[1.0, 2]]), 3)), ("tile", (np.array([[1.0, 2]]), 2, 3)),
                    ("indices_of_equal_rows", (a, a[::-1].copy())), ("minmax", (a,)), ("ascont", (a.T,)), ("to_range_1d", (np.array([0.0, 1, 2]),))):
        f = getattr(U, n, None)
        if f is None:
            continue
        try:
            q = f(*args, source=[0, 2], target=[-1, 1]) if n == "to_range_1d" else f(*args)
            r.append([n, plain(q if not isinstance(q, tuple) else [np.asarray(z) for z in q])])
        except TypeError:
            r.append([n, "TypeError"])
    h = histogram(np.array([1.0, 2, 2, 3, 5, 5.5]), 3)
    r.append(plain([np.asarray(q) for q in h]) if isinstance(h, tuple) else plain(np.asarray(h)))
    return r


def run(name):
    return json.loads(json.dumps(dict(P)[name]()))


NAMES = [n for n, _ in P]


SYMBOLIC = [n for n in NAMES if n.startswith(("function", "relations", "lp_", "lagrange", "benchmark"))]


if __name__ == "__main__":
    out = {}
    for n in sys.argv[1:] or NAMES:
        try:
            out[n] = dict(P)[n]()
        except Exception as e:
            out[n] = "raised " + type(e).__name__ + ": " + str(e)
    print("RESULT " + json.dumps(out))
