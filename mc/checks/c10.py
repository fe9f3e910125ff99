"""C10: unique values, positions, inverse and counts: all small integer arrays x all options."""
import collections
import itertools

import awkward as ak
import numpy as np

from ..core import Violation
from sigmaepsilon.math.arraysetops import unique2d
from sigmaepsilon.math.linalg import JaggedArray

OPTS = ("return_index", "return_inverse", "return_counts")
SUBSETS = [tuple(o for k, o in enumerate(OPTS) if c & (1 << k)) for c in range(8)]


def parse(res, opts):
    if not opts:
        return dict(u=res)
    if not isinstance(res, (list, tuple)) or len(res) != 1 + len(opts):
        raise Violation(f"unique2d with {opts} returned {res!r}")
    return dict(zip(("u",) + opts, res))


def check_one(ctx, got, opts, rows, matrix, what):
    """rows: the array as a list of lists; matrix: positions as (row, column)"""
    ctx.step()
    flat = [x for r in rows for x in r]
    U = sorted(set(flat))
    u = np.asarray(got["u"])
    if u.tolist() != U:
        raise Violation(f"{what}: unique values of {rows} are {u.tolist()}")
    if "return_counts" in opts:
        c = np.asarray(got["return_counts"]).tolist()
        n = collections.Counter(flat)
        if c != [n[x] for x in U]:
            raise Violation(f"{what}: counts of {rows} are {c}")
    if "return_inverse" in opts:
        inv = got["return_inverse"]
        if matrix:
            inv = np.asarray(inv)
            if inv.shape != (len(rows), len(rows[0]) if rows else 0) and rows:
                raise Violation(f"{what}: inverse of {rows} has shape {inv.shape}")
            L = inv.tolist()
        else:
            L = inv.to_list() if hasattr(inv, "to_list") else np.asarray(inv).tolist()
        if [[U[j] for j in r] for r in L] != rows:
            raise Violation(f"{what}: inverse of {rows} is {L}")
    if "return_index" in opts:
        d = got["return_index"]
        keys = sorted(int(k) for k in d.keys())
        if keys != U:
            raise Violation(f"{what}: positions of {rows} are given for {keys}")
        where = {}
        for i, r in enumerate(rows):
            for j, y in enumerate(r):
                where.setdefault(y, []).append([i, j])
        if not matrix:
            where = {}
            for k, y in enumerate(flat):
                where.setdefault(y, []).append(k)
        for x in U:
            P = np.asarray(d[x])
            if sorted(P.tolist()) != where[x]:
                raise Violation(f"{what}: positions of {x} in {rows} are {P.tolist()}")


def both_ways(ctx, arr, rows, matrix, what, subsets, copy):
    for opts in subsets:
        got = parse(unique2d(arr, **{o: True for o in opts}), opts)
        check_one(ctx, got, opts, rows, matrix, what)
        if not copy():
            raise Violation(f"{what}: {rows} was modified by unique2d")
    ctx.state((what, str(rows)))
    ctx.trace()


def matrix_of(code, n, m, alpha):
    out = []
    for _ in range(n * m):
        out.append(alpha[code % len(alpha)])
        code //= len(alpha)
    return [out[i * m : (i + 1) * m] for i in range(n)]


def lay(rows, n, m, dt, how):
    D = np.array(rows, dtype=dt).reshape(n, m)
    if how == "F":
        return np.asfortranarray(D)
    if how == "T":
        return np.ascontiguousarray(D.T).T
    if how == "S":
        big = np.full((2 * n + 1, 3 * m + 1), 99, dtype=dt)
        big[1 : 1 + 2 * n : 2, 1 : 1 + 3 * m : 3] = D
        return big[1 : 1 + 2 * n : 2, 1 : 1 + 3 * m : 3]
    if how == "R":
        return D[::-1, ::-1].copy()[::-1, ::-1]
    return D


def k_matrix(ctx, p):
    n, m = p["shape"]
    for code in range(p["lo"], p["hi"]):
        ctx.beat()
        rows = matrix_of(code, n, m, p["alpha"])
        D = lay(rows, n, m, p["dt"], p["lay"])
        keep = D.copy()
        both_ways(ctx, D, rows, True, f"{p['dt']} {p['lay']} matrix", SUBSETS, lambda: np.array_equal(D, keep))
        if p.get("jag"):
            J = JaggedArray(D.copy())
            both_ways(ctx, J, rows, True, "regular JaggedArray", SUBSETS, lambda: J.to_list() == rows)


def k_ragged(ctx, p):
    W = p["pattern"]
    N = sum(W)
    for code in range(p["lo"], p["hi"]):
        ctx.beat()
        flat = matrix_of(code, 1, N, p["alpha"])[0]
        rows, k = [], 0
        for w in W:
            rows.append(flat[k : k + w])
            k += w
        A = ak.Array(rows)
        both_ways(ctx, A, rows, False, "awkward array", SUBSETS if code % p["all"] == 0 else SUBSETS[-1:], lambda: A.to_list() == rows)
        J = JaggedArray([list(r) for r in rows])
        reg = len(set(W)) == 1
        both_ways(ctx, J, rows, reg, "JaggedArray", SUBSETS if code % p["all"] == 0 else SUBSETS[-1:], lambda: J.to_list() == rows)
        for opts in SUBSETS[-1:]:
            check_one(ctx, parse(J.unique(**{o: True for o in opts}), opts), opts, rows, reg, "JaggedArray.unique")
            check_one(ctx, parse(np.unique(J, **{o: True for o in opts}), opts), opts, rows, reg, "np.unique of a JaggedArray")


def k_large(ctx, p):
    n, m = p["shape"]
    k = np.arange(n * m)
    D = ((k * k * p["a"] + k * p["b"]) % p["mod"] - p["mod"] // 2).reshape(n, m) * p.get("scale", 1)
    rows = D.tolist()
    keep = D.copy()
    both_ways(ctx, D, rows, True, "large matrix", SUBSETS[-1:] + SUBSETS[:2], lambda: np.array_equal(D, keep))
    W = [(i * 7 + p["a"]) % 5 for i in range(n)]
    if p.get("rest"):
        W = [1, 0, n * m]
    flat = np.resize(D.ravel(), sum(W)).tolist()
    rows, j = [], 0
    for w in W:
        rows.append(flat[j : j + w])
        j += w
    if flat:
        J = JaggedArray(np.array(flat), cuts=W)
        both_ways(ctx, J, rows, len(set(W)) == 1, "large ragged array", SUBSETS[-1:], lambda: J.to_list() == rows)


def k_order(ctx, p):
    """answers do not depend on earlier calls with other arrays or options"""
    arrs = [([[1, 2], [2, 1]], True), ([[3, 3, 1]], True), ([[1], [2, 2], []], False), ([[5, 1, 5], [1]], False)]
    objs = [np.array(r) if m else ak.Array(r) for r, m in arrs]
    kept = []
    for i, c in p["seq"]:
        opts = SUBSETS[c]
        res = unique2d(objs[i], **{o: True for o in opts})
        kept.append((res, i, opts))
        for res, i, opts in kept:
            check_one(ctx, parse(res, opts), opts, arrs[i][0], arrs[i][1], f"after the calls {p['seq']}")
    ctx.state(str(p["seq"]))
    ctx.trace()
    ctx.deeper(len(p["seq"]))


KINDS = {"matrix": k_matrix, "ragged": k_ragged, "large": k_large, "order": k_order}


def cases(tier):
    th = tier == "thorough"
    for seq in itertools.product([(i, c) for i in range(4) for c in (0, 7, 3)], repeat=2):
        yield "order", dict(seq=[list(x) for x in seq])
    if th:
        for seq in itertools.product([(i, c) for i in range(4) for c in (0, 7)], repeat=3):
            yield "order", dict(seq=[list(x) for x in seq])
    for shp, a, b, mod in (((64, 5), 3, 1, 17), ((1000, 4), 1, 7, 101), ((3, 2000), 5, 1, 977), ((1, 1025), 1, 0, 1024), ((200, 200), 1, 1, 40000)):
        yield "large", dict(shape=list(shp), a=a, b=b, mod=mod)
        yield "large", dict(shape=list(shp), a=a, b=b, mod=mod, scale=2**33 + 1)
    for shp, mod in (((1, 70001), 2), ((70001, 1), 1), ((300, 300), 2), ((2, 33000), 1)):
        yield "large", dict(shape=list(shp), a=1, b=0, mod=mod, rest=1)
    plan = [
        ((1, 1), [-3, 0, 2]), ((1, 2), [-2, 0, 1, 5]), ((2, 1), [-2, 0, 1, 5]), ((1, 3), [-1, 0, 1, 7]), ((3, 1), [-1, 0, 7]),
        ((2, 2), [-2, 0, 1, 4]), ((2, 3), [-1, 0, 3] if th else [0, 3, -1][:2] + [5]), ((3, 2), [0, 2, -5] if th else [0, 2]), ((3, 3), [0, 1, -2] if th else [0, 1]), ((1, 4), [-1, 0, 2, 3]), ((4, 1), [0, -1]),
    ]
    for shp, alpha in plan:
        T = len(alpha) ** (shp[0] * shp[1])
        for lo in range(0, T, 128):
            yield "matrix", dict(shape=list(shp), alpha=alpha, lo=lo, hi=min(T, lo + 128), dt="int64", lay="C", jag=1)
    for dt in ("int64", "int32", "int16", "uint8"):
        for l in ("C", "F", "T", "S", "R"):
            if (dt, l) == ("int64", "C"):
                continue
            if dt != "int64" and l not in ("C", "S") and not th:
                continue
            for shp, alpha in (((2, 2), [0, 1, 3]), ((2, 3), [0, 4]), ((3, 2), [1, 2]), ((1, 3), [0, 1, 2])):
                T = len(alpha) ** (shp[0] * shp[1])
                yield "matrix", dict(shape=list(shp), alpha=alpha, lo=0, hi=T, dt=dt, lay=l)
    yield "matrix", dict(shape=[2, 2], alpha=[-(2**40), 0, 2**31, 2**32 + 1], lo=0, hi=256, dt="int64", lay="C")
    yield "matrix", dict(shape=[0, 3], alpha=[0], lo=0, hi=1, dt="int64", lay="C")
    yield "matrix", dict(shape=[2, 0], alpha=[0], lo=0, hi=1, dt="int64", lay="C")
    for n in (1, 2, 3) + ((4,) if th else ()):
        for W in itertools.product(range(4 if n < 3 or th else 3), repeat=n):
            N = sum(W)
            if not N or N > 6:
                continue
            alpha = [-1, 0, 2] if N <= (6 if th else 4) else [0, 3]
            T = len(alpha) ** N
            for lo in range(0, T, 256):
                yield "ragged", dict(pattern=list(W), alpha=alpha, lo=lo, hi=min(T, lo + 256), all=1 if th else 5)
