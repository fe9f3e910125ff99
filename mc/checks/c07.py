"""C07: linear systems, prescribed unknowns and reactions, singular systems refused."""
import itertools

import numpy as np
from numpy.linalg import LinAlgError

from .. import ref
from ..core import Violation
from sigmaepsilon.math.linalg.solve import backsub, linsolve, npsolve, reduce
from sigmaepsilon.math.linalg.utils import linsolve as linsolve_top


def det(M):
    """exact determinant of an integer matrix (Bareiss)"""
    M = [list(map(int, r)) for r in M]
    n = len(M)
    if n == 0:
        return 1
    sign, prev = 1, 1
    for k in range(n - 1):
        if M[k][k] == 0:
            for i in range(k + 1, n):
                if M[i][k]:
                    M[k], M[i] = M[i], M[k]
                    sign = -sign
                    break
            else:
                return 0
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                M[i][j] = (M[i][j] * M[k][k] - M[i][k] * M[k][j]) // prev
        prev = M[k][k]
    return sign * M[n - 1][n - 1]


def facts(A, free):
    """(nonsingular, all leading minors nonzero) of the free part"""
    sub = A[np.ix_(free, free)]
    regular = True
    for k in range(1, len(free)):
        if det(sub[:k, :k]) == 0:
            regular = False
            break
    return det(sub) != 0, regular


RHS = {}


def rhs(n):
    if n not in RHS:
        k = np.arange(n, dtype=float)
        RHS[n] = np.stack([k + 1, 2 - 3 * k + k * k, 0.5 * (-1) ** k], axis=1)
    return RHS[n]


def pvals(n):
    return np.array([0.5 * ((-1) ** i) * (i + 1) + 0.25 for i in range(n)])


def solve_one(ctx, A, B, mask, method, opts, where, known=None):
    """one call; A integer valued; B (n,) or (n,m)"""
    n = len(A)
    free = [i for i in range(n) if not mask[i]] if mask is not None else list(range(n))
    ns, regular = known if known is not None else facts(A, free)
    dt = opts.get("dt", "f8")
    a = np.array(A, dtype=dt)
    b = np.array(B, dtype=opts.get("bdt", dt if dt != "i8" else "f8"))
    if opts.get("F"):
        a = np.asfortranarray(a)
        b = np.asfortranarray(b)
    if opts.get("S"):
        big = np.zeros((2 * n, 3 * n), a.dtype)
        big[::2, ::3] = a
        a = big[::2, ::3]
    a0, b0 = a.copy(), b.copy()
    pv = pvals(n)
    kw = {}
    if mask is not None:
        pb = np.array(mask, dtype=bool)
        kw = dict(presc_bool=pb, presc_val=pv.copy())
    ctx.transitions += 1
    try:
        if method == "reduce":
            if n == 0:
                return
            b2 = b.reshape(n, -1) if b.ndim == 1 else b
            ra, rb = reduce(a, b2, kw.get("presc_bool"), kw.get("presc_val"), method=opts.get("rm", "Gauss-Jordan"))
            res = backsub(ra, rb, kw.get("presc_bool", np.zeros(n, bool)), kw.get("presc_val", np.zeros(n)))
            if mask is None:
                res = res[0]
        elif method == "npsolve":
            res = npsolve(a.astype(float), b.astype(float))
        else:
            res = linsolve(a, b, method=method, inplace=bool(opts.get("inplace")), **kw)
    except LinAlgError:
        if not ns:
            return
        if method not in ("numpy", "npsolve") and not regular:
            return  # no pivoting: refused, which is allowed
        raise Violation(f"{where}: a solvable system was refused: A={np.array(A).tolist()} mask={mask} method={method} {opts}")
    if not ns:
        raise Violation(
            f"{where}: a singular system was answered: A={np.array(A).tolist()} mask={mask} method={method} {opts} -> {res}"
        )
    tol = 1e-9 if "f4" not in (dt, opts.get("bdt")) else 2e-3
    if mask is not None:
        X, R = res
    else:
        X, R = res, None
    want_shape = np.array(B, float).reshape(n, -1).shape
    X = np.asarray(X)
    if X.size != np.asarray(B).size or X.shape not in (np.asarray(B).shape, want_shape):
        raise Violation(f"{where}: shape {X.shape} for a right-hand side {np.asarray(B).shape}")
    X = X.reshape(want_shape)
    Bf = np.array(B, float).reshape(want_shape)
    Af = np.array(A, float)
    scale = max(1.0, float(np.abs(Af).max(initial=0)) * float(np.abs(X).max(initial=0)) * n)
    resid = Af @ X - Bf
    bad = None
    if not np.all(np.isfinite(X)):
        bad = "numbers are not finite"
    elif mask is None:
        if np.abs(resid).max(initial=0) > tol * scale:
            bad = "the equations do not hold"
    else:
        R = np.asarray(R).reshape(want_shape)
        m = np.array(mask, dtype=bool)
        if not np.array_equal(X[m], np.repeat(pv[m][:, None], want_shape[1], 1)):
            bad = "prescribed values are not taken"
        elif np.any(R[~m] != 0):
            bad = "reactions at free unknowns"
        elif not np.abs(resid - R).max(initial=0) <= tol * scale:
            bad = "equations with reactions do not hold"
    if bad:
        raise Violation(f"{where}: {bad}: A={np.array(A).tolist()} B={Bf.tolist()} mask={mask} method={method} {opts}: {res}")
    if not opts.get("inplace"):
        if not (np.array_equal(a, a0) and np.array_equal(b, b0)):
            raise Violation(f"{where}: the inputs were changed: A={np.array(A).tolist()} mask={mask} method={method} {opts}")
    if mask is not None and not (np.array_equal(kw["presc_val"], pv) and np.array_equal(kw["presc_bool"], np.array(mask, bool))):
        raise Violation(f"{where}: the prescription was changed: A={np.array(A).tolist()} mask={mask} method={method} {opts}")


def matrix_of(n, alpha, code):
    m = len(alpha)
    out = []
    for _ in range(n * n):
        out.append(alpha[code % m])
        code //= m
    return np.array(out).reshape(n, n)


def exact_numpy(n, alpha):
    """LU of these matrices is exact, so that a singular one is met as a zero pivot"""
    return (n <= 2 and max(map(abs, alpha)) <= 2) or (n == 3 and max(map(abs, alpha)) <= 1)


def k_small(ctx, p):
    n, alpha = p["n"], p["alpha"]
    B = rhs(n)
    masks = [None] + [list(m) for m in itertools.product([False, True], repeat=n)]
    if p.get("masks") == "none":
        masks = [None]
    for code in range(p["lo"], p["hi"]):
        A = matrix_of(n, alpha, code)
        if code % 64 == 0:
            ctx.beat()
        for mask in masks:
            free = [i for i in range(n) if not (mask and mask[i])]
            known = facts(A, free)
            for method in p["methods"]:
                if method in ("numpy", "npsolve"):
                    if mask is not None or (not known[0] and not exact_numpy(n, alpha)):
                        continue
                solve_one(ctx, A, B, mask, method, {}, f"n={n} code={code}", known)
            ctx.state((n, A.tobytes(), tuple(mask) if mask else None))
            ctx.outcome("regular" if known[0] and known[1] else "needs pivoting" if known[0] else "singular")
        ctx.trace()


def k_opts(ctx, p):
    """types, layouts, one right-hand side, working in place, for a family of matrices"""
    n = p["n"]
    A = np.array(p["A"])
    for mask in [None] + [list(m) for m in itertools.product([False, True], repeat=n)]:
        free = [i for i in range(n) if not (mask and mask[i])]
        known = facts(A, free)
        for method in ("numpy", "Jordan", "Gauss-Jordan", "reduce", "npsolve"):
            if method in ("numpy", "npsolve") and (mask is not None or (not known[0] and n > 3)):
                continue
            for o in (
                {}, {"dt": "i8"}, {"dt": "i8", "bdt": "i8"}, {"dt": "f8", "bdt": "i8"}, {"dt": "i4"}, {"F": 1}, {"S": 1},
                {"inplace": 1}, {"inplace": 1, "dt": "i8"}, {"rm": "Jordan"}, {"dt": "f4"},
            ):
                if o.get("rm") and method != "reduce" or o.get("dt") == "f4" and (method in ("reduce", "numpy", "npsolve") or not known[0] or not known[1]):
                    continue
                for B in (rhs(n), rhs(n)[:, 0].copy(), rhs(n)[:, :1].copy(), np.eye(n)):
                    if o.get("bdt") == "i8" or o.get("dt") == "i4":
                        B = np.round(2 * B)
                    if method in ("numpy", "npsolve") and o.get("S"):
                        continue
                    solve_one(ctx, A, B, mask, method, o, f"n={n}", known)
        ctx.state((n, A.tobytes(), str(mask)))
    ctx.trace()


def k_repeat(ctx, p):
    """the same arrays used for a sequence of calls: none influences the next"""
    n = p["n"]
    A = np.array(p["A"], float)
    B = rhs(n).copy()
    b1 = B[:, 0].copy()
    A0, B0 = A.copy(), B.copy()
    masks = [None] + [np.array(m) for m in itertools.product([False, True], repeat=n)]
    first = {}
    for seq in itertools.product(range(len(masks)), ("Jordan", "Gauss-Jordan")) :
        for rep in range(2):
            for rh, bb in (("m", B), ("1", b1)):
                m = masks[seq[0]]
                kw = {} if m is None else dict(presc_bool=m, presc_val=pvals(n))
                r = linsolve(A, bb, method=seq[1], **kw)
                r = [np.array(x) for x in (r if isinstance(r, tuple) else (r,))]
                key = (seq, rh)
                if key in first:
                    ctx.check(all(np.array_equal(x, y) for x, y in zip(r, first[key])), "%s: repeated call differs", p)
                first[key] = r
                ctx.step()
    for key, r in list(first.items()):
        seq, rh = key
        m = masks[seq[0]]
        kw = {} if m is None else dict(presc_bool=m, presc_val=pvals(n))
        s = linsolve(A, B if rh == "m" else b1, method=seq[1], **kw)
        s = s if isinstance(s, tuple) else (s,)
        ctx.check(all(np.array_equal(x, y) for x, y in zip(r, s)), "%s: repeated call differs", p)
    ctx.check(np.array_equal(A, A0) and np.array_equal(B, B0), "%s: inputs changed", p)
    ctx.trace()


def k_scaled(ctx, p):
    """equations and unknowns measured in other units (powers of two, so that the numbers stay
    exact): the answer is the same up to the units, equation by equation"""
    n = p["n"]
    for A in p["As"]:
        A = np.array(A)
        for mask in [None] + [list(m) for m in itertools.product([False, True], repeat=n)]:
            free = [i for i in range(n) if not (mask and mask[i])]
            if facts(A, free) != (True, True):
                continue
            for re, ce in p["units"]:
                re, ce = np.ldexp(1.0, np.array(re[:n])), np.ldexp(1.0, np.array(ce[:n]))
                a = A * re[:, None] * ce
                b = rhs(n) * re[:, None]
                pv = pvals(n) / ce
                m = np.array(mask if mask else [False] * n)
                kw = {} if mask is None else dict(presc_bool=m, presc_val=pv)
                for method in ("numpy", "Jordan", "Gauss-Jordan"):
                    if method == "numpy" and mask is not None:
                        continue
                    ctx.step()
                    what = f"A={a.tolist()} b={b.tolist()} mask={mask} {method}"
                    try:
                        r = linsolve(a, b, method=method, **kw)
                    except LinAlgError:
                        raise Violation(f"{what}: a solvable system was refused")
                    X, R = r if mask is not None else (r, np.zeros(b.shape))
                    resid = a @ X - b - R
                    size = np.abs(a) @ np.abs(X) + np.abs(b)
                    if not np.all(np.abs(resid) <= 3e-11 * size) or np.any(R[~m] != 0) or not np.array_equal(X[m], np.repeat(pv[m][:, None], b.shape[1], 1)):
                        raise Violation(f"{what}: X={X.tolist()} R={R.tolist()}")
            ctx.state((n, A.tobytes(), str(mask)))
    ctx.trace()


def family(n, kind):
    A = np.zeros((n, n), int)
    for i in range(n):
        for j in range(n):
            if kind == "tri":
                A[i, j] = 2 + i % 3 if i == j else -1 if abs(i - j) == 1 else 0
            elif kind == "dense":
                A[i, j] = (n + 3 if i == j else 0) + ((3 * i + 5 * j) % 4) - 1
            elif kind == "lower":
                A[i, j] = (i + 1) if i == j else ((i + j) % 3 - 1 if i > j else 0)
            elif kind == "upper":
                A[i, j] = (i + 1) if i == j else ((i + j) % 3 - 1 if i < j else 0)
            elif kind == "min":
                A[i, j] = min(i, j) + 1
            elif kind == "lastdep":   # singular: last row the sum of the others
                A[i, j] = (4 if i == j else (i * j) % 3) if i < n - 1 else 0
    if kind == "lastdep":
        A[n - 1] = A[: n - 1].sum(axis=0)
    return A


def k_family(ctx, p):
    n, kind = p["n"], p["kind"]
    A = family(n, kind)
    B = rhs(n)
    masks = [None]
    if n <= 6:
        masks += [list(m) for m in itertools.product([False, True], repeat=n)]
    else:
        masks += [[i % k == j for i in range(n)] for k in (1, 2, 3, 5) for j in range(k)]
        masks += [[i == j for i in range(n)] for j in (0, n // 2, n - 1)]
    for mask in masks:
        free = [i for i in range(n) if not (mask and mask[i])]
        known = facts(A, free)
        for method in ("Jordan", "Gauss-Jordan", "reduce", "numpy"):
            if method == "numpy" and (mask is not None or not known[0]):
                continue
            solve_one(ctx, A, B, mask, method, {}, f"{kind} n={n}", known)
        ctx.state((n, kind, str(mask)))
        ctx.beat()
    ctx.trace()


def k_refuse(ctx, p):
    A = np.array([[2.0, 1.0], [1.0, 3.0]])
    B = np.array([1.0, 2.0])
    for bad in ("", "gauss", "jordan", "GaussJordan", "scipy"):
        try:
            linsolve(A, B, method=bad)
        except AttributeError:
            pass
        else:
            ctx.fail(f"method {bad!r} was accepted")
        try:
            reduce(A, B, method=bad)
        except AttributeError:
            pass
        else:
            ctx.fail(f"method {bad!r} was accepted by reduce")
    try:
        linsolve(A, B, method="numpy", presc_bool=np.array([True, False]), presc_val=np.array([1.0, 0.0]))
    except AssertionError:
        pass
    else:
        ctx.fail("prescribed values were accepted where they are not supported")
    ctx.check(ref.close(linsolve_top(A, B), np.linalg.solve(A, B)), "linalg.linsolve")
    for n in (1, 2, 3, 5, 8):
        Z = np.zeros((n, n))
        for m in ("numpy", "Jordan", "Gauss-Jordan"):
            try:
                linsolve(Z, np.ones(n), method=m)
            except LinAlgError:
                continue
            ctx.fail(f"zero matrix of size {n} answered by {m}")
    ctx.step(20)
    ctx.trace()


KINDS = {"small": k_small, "opts": k_opts, "repeat": k_repeat, "family": k_family, "refuse": k_refuse, "scaled": k_scaled}


def chunks(n, alpha, size, **kw):
    total = len(alpha) ** (n * n)
    for lo in range(0, total, size):
        yield "small", dict(n=n, alpha=alpha, lo=lo, hi=min(total, lo + size), **kw)


def cases(tier):
    th = tier == "thorough"
    yield "refuse", {}
    M2 = [[[2, 1], [1, 3]], [[1, 2], [3, 4]], [[-1, 2], [2, -4]], [[0, 1], [1, 0]], [[0, 1], [1, 2]], [[3, 0], [0, 0]], [[2, -1], [4, 3]]]
    M3 = [
        [[3, 1, 2], [1, 1, 1], [2, 1, 2]], [[2, -1, 0], [-1, 2, -1], [0, -1, 2]], [[1, 2, 3], [4, 5, 6], [7, 8, 10]],
        [[0, 1, 2], [1, 0, 1], [2, 1, 0]], [[4, 0, 0], [1, 5, 0], [2, 3, 6]], [[1, 1, 1], [2, 2, 2], [1, 0, 3]], [[5, 1, 2], [0, 0, 1], [1, 1, 1]],
    ]
    M4 = [family(4, k).tolist() for k in ("tri", "dense", "min", "upper", "lastdep")]
    for n, Ms in ((1, [[[3]], [[-2]], [[0]]]), (2, M2), (3, M3), (4, M4)):
        for A in Ms:
            yield "opts", dict(n=n, A=A)
    U = [([e * (i == j) for i in range(4)], [0] * 4) for e in (-26, -20, -14, 14) for j in range(4)]
    U += [([0] * 4, [e * (i == j) for i in range(4)]) for e in (-26, -20, -14, 14) for j in range(4)]
    U += [([e] * 4, [0] * 4) for e in (-26, -20, -14, 10)] + [([0, -8, -16, -24], [0, 0, 0, 0]), ([-24, -16, -8, 0], [4, 0, 2, 8]), ([0, -13, 0, -13], [-13, 0, -13, 0])]
    R2 = [matrix_of(2, [-2, -1, 0, 1, 2], c).tolist() for c in range(625)]
    for k in range(0, 625, 40):
        yield "scaled", dict(n=2, As=R2[k : k + 40], units=[u for u in U])
    for n, Ms in ((1, [[[3]], [[-2]]]), (3, M3 + [matrix_of(3, [-1, 0, 1, 2], c * 4099 + 17).tolist() for c in range(60)]), (4, M4)):
        for A in Ms:
            yield "scaled", dict(n=n, As=[A], units=U)
    for A in ([[2, 1], [1, 3]], [[3, 1, 2], [1, 4, 1], [2, 1, 5]]):
        yield "repeat", dict(n=len(A), A=A)
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17) + ((24, 33, 48) if th else ()):
        for k in ("tri", "dense", "lower", "upper", "min", "lastdep"):
            if n == 1 and k == "lastdep":
                continue
            yield "family", dict(n=n, kind=k)
    allm = ["Jordan", "Gauss-Jordan", "reduce", "numpy"]
    yield from chunks(1, [-3, -2, -1, 0, 1, 2, 3], 7, methods=allm)
    yield from chunks(2, [-2, -1, 0, 1, 2] if not th else [-3, -2, -1, 0, 1, 2, 3, 4], 64, methods=allm)
    yield from chunks(3, [-1, 0, 1], 128, methods=["Jordan", "Gauss-Jordan", "numpy"])
    yield from chunks(4, [0, 1], 512, methods=["Gauss-Jordan"] if not th else allm[:2], **({} if th else {}))
    if th:
        yield from chunks(3, [-1, 0, 2, 3], 512, methods=["Jordan", "Gauss-Jordan", "numpy"])
