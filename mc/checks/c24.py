"""C24: predicates: complete product of a value zoo and the predicates; all small integer matrices with
exact minors; all tolerance combinations."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

from ..core import Violation
from sigmaepsilon.math import logical as L

DTYPES = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "longdouble",
          "complex64", "complex128", "U3", "S3", "object", "datetime64[s]"]


def truth(r, what):
    if not isinstance(r, (bool, np.bool_)):
        raise Violation(f"{what}: returned {r!r}, not a truth value")
    return bool(r)


def k_kind(ctx, p):
    dt = np.dtype(p["dt"])
    for shape in ((0,), (1,), (3,), (), (1, 1), (2, 3), (0, 2), (1, 3), (3, 1), (2, 1, 2)):
        a = np.zeros(shape, dtype=dt)
        vs = [a, np.asfortranarray(a)] if a.ndim > 1 else [a]
        if a.ndim == 1 and a.size:
            vs.append(np.zeros(2 * a.size, dtype=dt)[::2])
        for v in vs:
            isf = dt.kind == "f"
            isi = dt.kind in "iu"
            isb = dt.kind == "b"
            for fn, ref in (
                (L.isfloatarray, isf), (L.isintegerarray, isi), (L.isintarray, isi), (L.isboolarray, isb),
                (L.is1dfloatarray, isf and v.ndim == 1), (L.is1dintarray, isi and v.ndim == 1),
            ):
                ctx.step()
                if truth(fn(v), fn.__name__) != ref:
                    raise Violation(f"{fn.__name__} of a {dt} array of shape {v.shape} is {not ref}")
        ctx.state((p["dt"], shape))
    ctx.trace()


def k_none(ctx, p):
    zoo = [(None, True), (False, True), (True, False), (0, False), (1, False), (0.0, False), ("", False), ("False", False), ([], False), ((), False),
           ({}, False), (set(), False), (np.array([]), False), (np.array([0]), False), (np.zeros((2, 2)), False), (float("nan"), False), (object(), False),
           ([None], False), ([False], False), (b"", False), (complex(0), False), (type(None), False), (bool, False), (lambda: False, False), (range(0), False), (-1, False), (np.int64(0), False), (np.float64(0), False)]
    for v, ref in zoo:
        ctx.step()
        r = L.is_none_or_false(v)
        if truth(r, f"is_none_or_false({v!r})") != ref:
            raise Violation(f"is_none_or_false({v!r}) is {r!r}")
        ctx.state(repr(type(v)) + str(ref))
    ctx.trace()


def det(M):
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1 :] for r in M[1:]]) for j in range(n) if M[0][j])


def posdef(M):
    return all(det([r[:k] for r in M[:k]]) > 0 for k in range(1, len(M) + 1))


def possemi(M):
    n = len(M)
    for k in range(1, n + 1):
        for S in itertools.combinations(range(n), k):
            if det([[M[i][j] for j in S] for i in S]) < 0:
                return False
    return True


def symmetric(n, t):
    M = [[0] * n for _ in range(n)]
    k = 0
    for i in range(n):
        for j in range(i, n):
            M[i][j] = M[j][i] = t[k]
            k += 1
    return M


def check_def(ctx, A, pd, ps, what):
    B = A.copy()
    ctx.step(2)
    if truth(L.isposdef(A), what) != pd:
        raise Violation(f"isposdef of {what} is {not pd}")
    if truth(L.ispossemidef(A), what) != ps:
        raise Violation(f"ispossemidef of {what} is {not ps}")
    if not np.array_equal(A, B):
        raise Violation(f"{what} was changed")


def k_def(ctx, p):
    n = p["n"]
    T = list(itertools.product(p["vals"], repeat=n * (n + 1) // 2))
    for t in T[p["lo"] : p["hi"]]:
        M = symmetric(n, t)
        pd, ps = posdef(M), possemi(M)
        if not any(t):
            ps, pd = True, False
        ctx.beat()
        A = np.array(M, dtype=float)
        check_def(ctx, A, pd, ps, f"{M}")
        if p.get("forms"):
            check_def(ctx, np.array(M), pd, ps, f"integer {M}")
            check_def(ctx, np.asfortranarray(A)[::1], pd, ps, f"{M}")
            for s in (2.0**-20, 2.0**20):
                check_def(ctx, A * s, pd, ps, f"{s} * {M}")
            R = A.copy()
            R.setflags(write=False)
            check_def(ctx, R, pd, ps, f"read-only {M}")
        ctx.state((n, t))
    ctx.trace()


def k_deflarge(ctx, p):
    """large matrices of known definiteness"""
    n = p["n"]
    Lp = np.diag(np.full(n, 2.0)) - np.eye(n, k=1) - np.eye(n, k=-1)
    check_def(ctx, Lp, True, True, f"second difference matrix of size {n}")
    S = Lp.copy()
    S[0, 0] = S[-1, -1] = 1.0
    w = np.linalg.eigvalsh(S)
    ctx.step()
    if L.isposdef(S) or not L.ispossemidef(S):
        raise Violation(f"free chain of size {n} (semidefinite): isposdef {L.isposdef(S)}, ispossemidef {L.ispossemidef(S)}")
    check_def(ctx, S - 0.01 * np.eye(n), False, False, f"shifted chain of size {n}")
    check_def(ctx, S + 0.01 * np.eye(n), True, True, f"shifted chain of size {n}")
    N = Lp.copy()
    N[n // 2, n // 2] = -1.0
    check_def(ctx, N, False, False, f"chain of size {n} with a negative diagonal")
    check_def(ctx, -Lp, False, False, f"negative definite of size {n}")
    ctx.state(("large", n))
    ctx.trace()


def k_deftol(ctx, p):
    """the tolerance of isposdef is a bound on the eigenvalues"""
    c, s = 0.6, 0.8
    Q = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]]) @ np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
    for ev in itertools.product((0.5, 1.0, 2.0, -1.0), repeat=3):
        A = Q @ np.diag(ev) @ Q.T
        A = (A + A.T) / 2
        for tol in (0, 0.25, 0.75, 1.5, 3.0, 1e-6):
            ctx.step(2)
            ref = min(ev) > tol
            if truth(L.isposdef(A, tol), "isposdef") != ref or truth(L.isposdef(A, tol=tol), "isposdef") != ref:
                raise Violation(f"isposdef of a matrix with the eigenvalues {ev}, tol={tol}, is {not ref}")
            D = np.diag(ev)
            if truth(L.isposdef(D, tol), "isposdef") != ref:
                raise Violation(f"isposdef of diag{ev}, tol={tol}, is {not ref}")
        ctx.state(ev)
    ctx.trace()


def k_sym(ctx, p):
    n = p["n"]
    T = itertools.product(p["vals"], repeat=n * n)
    for q, t in enumerate(T):
        if not p["lo"] <= q < p["hi"]:
            continue
        M = [list(t[i * n : (i + 1) * n]) for i in range(n)]
        ref = all(M[i][j] == M[j][i] for i in range(n) for j in range(n))
        for A in (np.array(M, dtype=float), np.array(M), np.asfortranarray(np.array(M, dtype=float))):
            B = A.copy()
            ctx.step()
            if truth(L.issymmetric(A), "issymmetric") != ref:
                raise Violation(f"issymmetric of {M} is {not ref}")
            if not np.array_equal(A, B):
                raise Violation(f"issymmetric changed {M}")
        ctx.state((n, q))
        ctx.beat()
    ctx.trace()


def k_symtol(ctx, p):
    n = p["n"]
    base = np.array([[(i + 1) * (j + 1) * 0.5 for j in range(n)] for i in range(n)])
    for i, j in itertools.permutations(range(n), 2):
        for e in (1e-12, 1e-9, 1e-7, 1e-3, 1.0):
            for tol in (None, 1e-10, 1e-8, 1e-5, 0.1, 10.0):
                A = base.copy()
                A[i, j] += e
                t = 1e-8 if tol is None else tol
                d = abs(A[i, j] - A[j, i]) * math.sqrt(2)
                if abs(d - t) < 0.05 * t:
                    continue
                ref = d < t
                ctx.step()
                r = L.issymmetric(A) if tol is None else L.issymmetric(A, tol)
                if truth(r, "issymmetric") != ref:
                    raise Violation(f"issymmetric with a difference {e} at {(i, j)}, tol={tol}, is {not ref}")
                if tol is not None and truth(L.issymmetric(A, tol=tol), "issymmetric") != ref:
                    raise Violation(f"issymmetric with a difference {e} at {(i, j)}, tol={tol}, is {not ref}")
        ctx.state((n, i, j))
    ctx.trace()


def near(x, y, atol, rtol):
    """exact; None at the border"""
    d = abs(F(x) - F(y))
    ok = True
    for lim in ([] if atol is None else [F(atol)]) + ([] if rtol is None else [abs(F(rtol) * F(y))]):
        if lim and abs(d - lim) <= lim * F(1, 10**6):
            return None
        ok = ok and d <= lim
    return ok


VALS = [0.0, 1.0, 1.0 + 1e-9, 1.0 + 1e-7, 1.000001, 1.001, -1.0, 2.0, 1e-9, -1e-9, 1e-12, 1000.0, 1000.0 + 1e-9 * 1024, 1000.01, 1e8, 1e8 + 1.0, -1000.0]
TOLS = [(1e-8, 1e-5), (1e-8, None), (None, 1e-5), (1e-3, 1e-12), (10.0, 1e-3), (1e-3, 10.0), (None, 0.1), (0.5, None), (1e-12, 1e-2)]


def call(fn, a, b, atol, rtol, default):
    if default:
        return fn(a, b)
    return fn(a, b, atol=atol, rtol=rtol)


def k_close(ctx, p):
    """all pairs of values, all tolerances, numbers"""
    atol, rtol = p["tol"]
    for default in ((False, True) if (atol, rtol) == (1e-8, 1e-5) else (False,)):
        for x, y in itertools.product(VALS, repeat=2):
            ref = near(x, y, atol, rtol)
            if ref is None:
                continue
            for a, b in ((x, y), (np.float64(x), y), ([x], [y]), (np.array([x]), np.array([y])), (np.array([x]), y), (x, np.array([y]))):
                ctx.step()
                r = call(L.isclose, a, b, atol, rtol, default)
                if np.size(r) != 1 or bool(np.all(r)) != ref:
                    raise Violation(f"isclose({a!r}, {b!r}, atol={atol}, rtol={rtol}) is {r!r}")
                r = call(L.allclose, a, b, atol, rtol, default)
                if truth(r, "allclose") != ref:
                    raise Violation(f"allclose({a!r}, {b!r}, atol={atol}, rtol={rtol}) is {r!r}")
        ctx.state((str(p), default))
    for x, y in ((3, 3), (3, 4), (-2, 2), (0, 0), (100, 101)):
        ref = near(x, y, atol, rtol)
        if ref is None:
            continue
        for a, b in ((x, y), (np.array([x, x]), np.array([y, y])), ([x, x], [y, y])):
            r = call(L.allclose, a, b, atol, rtol, False)
            if truth(r, "allclose") != ref:
                raise Violation(f"allclose of integers {a!r}, {b!r}, atol={atol}, rtol={rtol} is {r!r}")
    ctx.trace()


def k_closearr(ctx, p):
    """arrays: elementwise answers, their conjunction, broadcasting of numbers, unchanged inputs"""
    atol, rtol = p["tol"]
    V = [1.0, 1.0 + 1e-9, 1.001, 0.0, -1.0]
    n = p["n"]
    for t in itertools.product(V, repeat=n):
        for u in itertools.product(V[: 3 if n > 1 else 5], repeat=n):
            ref = [near(x, y, atol, rtol) for x, y in zip(t, u)]
            if None in ref:
                continue
            shapes = [(n,)] + ([(2, 2), (1, 4), (4, 1), (2, 1, 2)] if n == 4 else [(1, n), (n, 1)])
            for s in shapes:
                a, b = np.array(t).reshape(s), np.array(u).reshape(s)
                a0, b0 = a.copy(), b.copy()
                r = L.isclose(a, b, atol=atol, rtol=rtol)
                ctx.step(2)
                R = np.array(ref).reshape(s)
                if np.size(r) != n or not np.array_equal(np.reshape(r, s), R) or (s != (1,) and np.shape(r) != s):
                    raise Violation(f"isclose({a.tolist()}, {b.tolist()}, atol={atol}, rtol={rtol}) is {np.asarray(r).tolist()}")
                if truth(L.allclose(a, b, atol=atol, rtol=rtol), "allclose") != all(ref):
                    raise Violation(f"allclose({a.tolist()}, {b.tolist()}, atol={atol}, rtol={rtol}) is {not all(ref)}")
                if not (np.array_equal(a, a0) and np.array_equal(b, b0)):
                    raise Violation("isclose changed its arguments")
        c = t[0]
        ref = [near(x, c, atol, rtol) for x in t]
        if None not in ref:
            r = L.isclose(np.array(t), c, atol=atol, rtol=rtol)
            if [bool(v) for v in np.ravel(r)] != ref:
                raise Violation(f"isclose({t}, {c}, atol={atol}, rtol={rtol}) is {r}")
            if n > 1:
                ref = [near(c, x, atol, rtol) for x in t]
                if None not in ref:
                    r = L.isclose(c, np.array(t), atol=atol, rtol=rtol)
                    if [bool(v) for v in np.ravel(r)] != ref:
                        raise Violation(f"isclose({c}, {t}, atol={atol}, rtol={rtol}) is {r}")
        ctx.beat()
    ctx.state(str(p))
    ctx.trace()


def k_refuse(ctx, p):
    """tolerances that are not positive, and none at all, are refused"""
    for fn in (L.isclose, L.allclose):
        for kw in (dict(atol=None, rtol=None), dict(atol=0), dict(atol=-1e-8), dict(rtol=0), dict(rtol=-1e-5), dict(atol=0.0, rtol=None), dict(atol=None, rtol=-1)):
            for a, b in ((1.0, 1.0), (np.ones(2), np.ones(2))):
                try:
                    r = fn(a, b, **kw)
                except AssertionError:
                    ctx.step()
                else:
                    raise Violation(f"{fn.__name__} with {kw} returned {r!r}")
    ctx.state("refuse")
    ctx.trace()


def k_closebig(ctx, p):
    n = p["n"]
    a = np.arange(1, n + 1) * 0.5
    for k in (0, 1, n // 2, n - 1):
        b = a.copy()
        b[k] += 0.01
        r = L.isclose(a, b)
        ref = np.ones(n, bool)
        ref[k] = False
        ctx.step()
        if not np.array_equal(r, ref) or L.allclose(a, b) or not L.allclose(a, a.copy()):
            raise Violation(f"isclose of {n} values with a difference at {k}: {np.flatnonzero(~r)[:5]}")
        M, N = a.reshape(-1, 10), b.reshape(-1, 10)
        if not np.array_equal(L.isclose(M, N), ref.reshape(-1, 10)):
            raise Violation(f"isclose of a matrix of {n} values with a difference at {k}")
    b = a.copy()
    b[0] = np.nan
    if L.allclose(a, b) or L.isclose(a, b)[0] or not L.isclose(a, b)[1]:
        raise Violation("not a number is close to a number")
    ctx.state(str(p))
    ctx.trace()


KINDS = {"kind": k_kind, "none": k_none, "def": k_def, "deflarge": k_deflarge, "deftol": k_deftol, "sym": k_sym, "symtol": k_symtol,
         "close": k_close, "closearr": k_closearr, "refuse": k_refuse, "closebig": k_closebig}


def cases(tier):
    th = tier == "thorough"
    for dt in DTYPES:
        yield "kind", dict(dt=dt)
    yield "none", {}
    yield "def", dict(n=1, vals=[-2, -1, 0, 1, 2], lo=0, hi=5, forms=1)
    yield "def", dict(n=2, vals=[-3, -2, -1, 0, 1, 2, 3], lo=0, hi=343, forms=1)
    T = 5**6
    for lo in range(0, T, 500):
        yield "def", dict(n=3, vals=[-2, -1, 0, 1, 2], lo=lo, hi=lo + 500, forms=1)
    if th:
        for lo in range(0, 3**10, 1500):
            yield "def", dict(n=4, vals=[-1, 0, 1], lo=lo, hi=lo + 1500)
    else:
        for lo in range(0, 2**10, 128):
            yield "def", dict(n=4, vals=[1, 2], lo=lo, hi=lo + 128, forms=1)
            yield "def", dict(n=4, vals=[0, 1], lo=lo, hi=lo + 128, forms=1)
    for n in (3, 5, 10, 20, 50) + ((100, 200) if th else ()):
        yield "deflarge", dict(n=n)
    yield "deftol", {}
    yield "sym", dict(n=1, vals=[0, 1, -1], lo=0, hi=3)
    yield "sym", dict(n=2, vals=[0, 1, 2, -1], lo=0, hi=256)
    for lo in range(0, 3**9, 2500):
        yield "sym", dict(n=3, vals=[0, 1, -2], lo=lo, hi=lo + 2500)
    for n in (2, 3, 4):
        yield "symtol", dict(n=n)
    for tol in TOLS:
        yield "close", dict(tol=tol)
        for n in (1, 2, 3) + ((4,) if th else ()):
            yield "closearr", dict(tol=tol, n=n)
    yield "closearr", dict(tol=TOLS[0], n=4)
    yield "refuse", {}
    for n in (10, 100, 5000):
        yield "closebig", dict(n=n)
