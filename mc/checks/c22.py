"""C22: nearest neighbours and neighbour averages: all sample sets of small grids x k x distance limits
x query points against brute force; ties by distance, not by index; all schedules of the averaging loops."""
import itertools

import numpy as np

from ..core import Violation
from .. import interleave
from sigmaepsilon.math.approx import MLSApproximator
from sigmaepsilon.math.knn import k_nearest_neighbours

EPS = 1e-9


def dist(X, y, p=2):
    D = np.abs(X - y)
    if p == 1:
        return D.sum(axis=1)
    if p == np.inf:
        return D.max(axis=1)
    return np.sqrt((D * D).sum(axis=1))


def valid(idx, d, k, limit, n):
    """is idx (k entries, n marks a missing one) a correct answer for distances d?  message or None"""
    real = [i for i in idx if i != n]
    if any(not 0 <= i <= n for i in idx):
        return "an index out of range"
    if len(set(real)) != len(real):
        return "a sample twice"
    if any(i == n for i in idx[: len(real)]):
        return "missing neighbours not at the end"
    got = [d[i] for i in real]
    if any(a > b + EPS for a, b in zip(got, got[1:])):
        return "not in increasing order of distance"
    if limit is not None and any(g > limit + EPS for g in got):
        return "a sample farther than the limit"
    inside = sorted(d if limit is None else [v for v in d if v < limit - EPS])
    need = inside[:k]
    if len(got) < len(need):
        return f"only {len(got)} neighbours, there are {len(inside)} samples"
    if any(abs(a - b) > EPS for a, b in zip(got, need)):
        return f"distances {got}, the nearest are {need}"
    every = sorted(d)[:k]
    if any(abs(a - b) > EPS for a, b in zip(got, every)):
        return f"distances {got}, the nearest are {every}"
    return None


def check_knn(ctx, X, Y, k, limit, own=False, p=2, **kw):
    """one query of all the points"""
    n = len(X)
    X0, Y0 = np.array(X, copy=True), np.array(Y, copy=True)
    args = (X,) if own else (X, Y)
    qk = kw.get("query_kwargs")
    qk0 = dict(qk) if qk is not None else None
    if limit is not None:
        kw["max_distance"] = limit
    d, i = k_nearest_neighbours(*args, k=k, return_distance=True, **kw)
    i2 = k_nearest_neighbours(*args, k=k, **kw)
    what = f"samples {X0.tolist()}, k={k}, limit={limit}, {kw}"
    if not np.array_equal(i, i2):
        raise Violation(f"{what}: {i.tolist()} with distances, {i2.tolist()} without")
    if qk is not None and qk != qk0:
        raise Violation(f"{what}: the options passed in were changed to {qk}")
    if not (np.array_equal(X, X0) and np.array_equal(Y, Y0)):
        raise Violation(f"{what}: the points were changed")
    want = (len(Y),) if k == 1 else (len(Y), k)
    if np.shape(i) != want or np.shape(d) != want:
        raise Violation(f"{what}: shapes {np.shape(i)}, {np.shape(d)} instead of {want}")
    I, D = np.reshape(i, (len(Y), -1)), np.reshape(d, (len(Y), -1))
    for q in range(len(Y)):
        ctx.step()
        dq = dist(X0.astype(float), Y0[q].astype(float), p)
        idx = [int(v) for v in I[q]]
        msg = valid(idx, dq, k, limit, n)
        if msg:
            raise Violation(f"{what}: neighbours of {Y0[q].tolist()} are {idx}: {msg}")
        for a, b in zip(idx, D[q]):
            ref = np.inf if a == n else dq[a]
            if not (ref == b or abs(ref - b) <= EPS):
                raise Violation(f"{what}: the distance of sample {a} from {Y0[q].tolist()} is {ref}, {b} was returned")
        if own and dq[idx[0]] > EPS:
            raise Violation(f"{what}: the first neighbour of a sample is not itself but {idx[0]}")
        if own and idx[0] != q and sum(v <= EPS for v in dq) == 1:
            raise Violation(f"{what}: the nearest to sample {q} is {idx[0]}")
    return I


def means(d, Y, k, limit):
    """all the averages a correct answer may be (ties); None in the list: no number"""
    n = len(d)
    out = []
    for close in ((True,) if limit is None else (True, False)):
        ins = [i for i in range(n) if limit is None or (d[i] <= limit + EPS if close else d[i] < limit - EPS)]
        ins.sort(key=lambda i: d[i])
        if not ins:
            out.append(None)
            continue
        if len(ins) <= k:
            out.append(np.mean([Y[i] for i in ins], axis=0))
            continue
        r = d[ins[k - 1]]
        sure = [i for i in ins if d[i] < r - EPS]
        tied = [i for i in ins if abs(d[i] - r) <= EPS]
        for c in itertools.combinations(tied, k - len(sure)):
            out.append(np.mean([Y[i] for i in sure + list(c)], axis=0))
    return out


def check_avg(ctx, ap, X, Y, T, k, limit, what):
    T0 = np.array(T, copy=True)
    X0, Y0 = np.array(ap.X_S, copy=True), np.array(ap.Y_S, copy=True)
    got = np.asarray(ap.approximate(T))
    again = np.asarray(ap.approximate(T))
    if not np.array_equal(got, again, equal_nan=True):
        raise Violation(f"{what}: asked twice, {got.tolist()} and {again.tolist()}")
    if not (np.array_equal(T, T0) and np.array_equal(ap.X_S, X0) and np.array_equal(ap.Y_S, Y0)):
        raise Violation(f"{what}: the data were changed")
    Xm = np.reshape(np.asarray(X, float), (len(X), -1))
    Tm = np.reshape(np.asarray(T, float), (len(T), -1))
    full = (len(T),) + np.shape(Y)[1:]
    if got.shape != np.squeeze(np.zeros(full)).shape:
        raise Violation(f"{what}: result of shape {got.shape} for data {np.shape(Y)} at {len(T)} points")
    G = got.reshape(full)
    Yf = np.asarray(Y, dtype=float)
    for q in range(len(T)):
        ctx.step()
        ok = False
        cand = means(dist(Xm, Tm[q]), Yf, k, limit)
        for c in cand:
            if c is None:
                ok = bool(np.all(np.isnan(G[q])))
            else:
                ok = np.allclose(G[q], c, rtol=1e-6 if np.asarray(Y).dtype == np.float32 else 1e-9, atol=1e-9)
            if ok:
                break
        if not ok:
            raise Violation(f"{what}: {G[q].tolist()} at {Tm[q].tolist()} is not the mean of the {k} nearest: {[None if c is None else np.asarray(c).tolist() for c in cand][:3]}")


GRID = {
    1: [[0.0], [1.0], [2.0], [3.5], [5.0]],
    2: [[float(a), float(b)] for a in (0, 1, 2) for b in (0, 1, 2)],
    3: [[float(a), float(b), 2.0 * c] for a in (0, 1) for b in (0, 1) for c in (0, 1)],
}
QUERY = {
    1: [[0.0], [0.5], [2.9], [7.0], [-3.0]],
    2: [[0.0, 0.0], [0.5, 0.5], [1.1, 0.3], [4.0, -1.0]],
    3: [[0.0, 0.0, 0.0], [0.5, 0.5, 1.0], [0.2, 0.9, 1.7], [5.0, 5.0, 5.0]],
}
LIMITS = {1: [None, 0.4, 1.0, 1.6], 2: [None, 0.8, 1.0, 1.5], 3: [None, 0.9, 1.0, 2.1]}


def k_knn(ctx, p):
    dim = p["dim"]
    G = GRID[dim]
    Y = np.array(QUERY[dim])
    for mask in range(p["lo"], p["hi"]):
        X = np.array([G[k] for k in range(len(G)) if mask >> k & 1])
        if not len(X):
            continue
        ctx.beat()
        for k in p["ks"]:
            for limit in LIMITS[dim]:
                check_knn(ctx, X, Y, k, limit)
                check_knn(ctx, X, X, k, limit, own=True)
        ctx.state((dim, mask))
        ctx.trace()


def k_multi(ctx, p):
    """repeated samples"""
    dim = p["dim"]
    X = np.array([GRID[dim][i] for i in p["idx"]])
    for k in (1, 2, 3, 5):
        for limit in LIMITS[dim]:
            check_knn(ctx, X, np.array(QUERY[dim]), k, limit)
            check_knn(ctx, X, X, k, limit, own=True)
    V = np.arange(1.0, len(X) + 1) ** 2
    ap = MLSApproximator(X, V, k=p["k"])
    check_avg(ctx, ap, X, V, np.array(QUERY[dim]), p["k"], None, f"repeated samples {X.tolist()}")
    ctx.state(str(p))
    ctx.trace()


def k_forms(ctx, p):
    """number types, memory layouts, metrics, tree and query options"""
    dim = p["dim"]
    X = np.array(GRID[dim])
    Y = np.array(QUERY[dim])
    kw = {}
    if p["form"] == "int":
        X = np.round(X).astype(int)
        Y = np.round(Y).astype(int)
    elif p["form"] == "f32":
        X, Y = X.astype(np.float32), np.round(Y * 4).astype(np.float32) / 4
        X = np.round(X * 4) / 4
    elif p["form"] == "F":
        X, Y = np.asfortranarray(X), np.asfortranarray(Y)
    elif p["form"] == "strided":
        B = np.zeros((2 * len(X), dim + 1))
        B[::2, :dim] = X
        X = B[::2, :dim]
    elif p["form"] == "readonly":
        X.setflags(write=False)
        Y.setflags(write=False)
    for leaf in (1, 2, 30):
        for workers in (1, 2, -1):
            for tk in (None, {}, {"balanced_tree": False}, {"compact_nodes": False}):
                kw = dict(leaf_size=leaf, workers=workers, tree_kwargs=tk)
                check_knn(ctx, X, Y, p["k"], p["limit"], **kw)
    for pw in (1, 2, np.inf):
        qk = {"p": pw}
        check_knn(ctx, X, Y, p["k"], p["limit"], p=pw, query_kwargs=qk)
        check_knn(ctx, X, Y, p["k"], None, p=pw, query_kwargs=qk)
        check_knn(ctx, X, X, p["k"], p["limit"], own=True, p=pw, query_kwargs=qk)
    ctx.state(str(p))
    ctx.trace()


def k_large(ctx, p):
    n, dim = p["n"], p["dim"]
    ks = np.arange(n)
    X = np.stack([((ks * m) % q) * 1.0 for m, q in ((7, 61), (13, 47), (29, 31))][:dim], axis=1)
    Y = np.stack([np.arange(40) * 1.37, np.arange(40)[::-1] * 1.1, np.arange(40) * 0.7], axis=1)[:, :dim]
    Y = np.ascontiguousarray(Y)
    for limit in (None, 2.5, 10.0):
        check_knn(ctx, X, Y, p["k"], limit, leaf_size=p["leaf"])
    V = np.stack([np.cos(ks * 1.0), ks * 1.0], axis=1)
    ap = MLSApproximator(X, V, k=3)
    got = ap.approximate(Y)
    for q in range(len(Y)):
        d = dist(X, Y[q])
        order = np.argsort(d)
        if d[order[3]] - d[order[2]] < 1e-6:
            continue
        ref = V[order[:3]].mean(axis=0)
        ctx.step()
        if not np.allclose(got[q], ref):
            raise Violation(f"{p}: average at {Y[q]} is {got[q]} instead of {ref}")
    for m in (1, 2):  # constant data
        C = np.full((n, m), 0.1)
        g = MLSApproximator(X, C, k=p["k"]).approximate(Y)
        if not np.allclose(g, 0.1, rtol=1e-12):
            raise Violation(f"{p}: constant data are not reproduced: {g}")
    ctx.state(str(p))
    ctx.trace()


def data(n, shape, dtype):
    m = int(np.prod(shape)) if shape else 1
    V = ((np.arange(1, n * m + 1) ** 2 * 7) % 23 - 9.0)
    if dtype != "int":
        V = V / 4
    return V.reshape((n,) + tuple(shape)).astype({"float": float, "int": int, "f32": np.float32}[dtype])


def k_avg(ctx, p):
    """averages over every sample subset, limit, data shape"""
    dim = p["dim"]
    G = GRID[dim]
    T = np.array(QUERY[dim] + [G[0], G[-1]])
    for mask in range(p["lo"], p["hi"]):
        X = np.array([G[k] for k in range(len(G)) if mask >> k & 1])
        if not len(X):
            continue
        ctx.beat()
        for shape, dtype in (((), "float"), ((2,), "float"), ((2, 2), "float"), ((), "int"), ((3,), "int"), ((1,), "float")):
            if mask % 4 and (shape, dtype) not in (((), "float"), ((2,), "int")) and not p.get("all"):
                continue
            V = data(len(X), shape, dtype)
            for k in (None, 1, 2, 3, 6):
                for limit in LIMITS[dim] if shape == () and dtype == "float" or k in (2, None) else (None,):
                    kw = {}
                    if k is not None:
                        kw["k"] = k
                    if limit is not None:
                        kw["max_distance"] = limit
                    ap = MLSApproximator(X, V, **kw)
                    check_avg(ctx, ap, X, V, T, k or 4, limit, f"samples {X.tolist()}, data {V.tolist()}, k={k}, limit={limit}")
        C = np.full(len(X), 0.3)
        g = MLSApproximator(X, C, k=3).approximate(T)
        if not np.allclose(g, 0.3, rtol=1e-12):
            raise Violation(f"constant data over {X.tolist()} give {np.asarray(g).tolist()}")
        ctx.state(("avg", dim, mask))
        ctx.trace()


def k_avgforms(ctx, p):
    """forms of the points and the data"""
    X = np.array(GRID[p["dim"]])
    T = np.array(QUERY[p["dim"]])
    V = data(len(X), p["shape"], p["dtype"])
    f = p["form"]
    if f == "flat":        # points in one dimension as plain vectors
        X, T = X[:, 0], T[:, 0]
    elif f == "int":
        X, T = np.round(X).astype(int), np.round(T).astype(int)
    elif f == "F":
        X, V = np.asfortranarray(X), np.asfortranarray(V)
    elif f == "strided":
        B = np.zeros((2 * len(X),) + V.shape[1:], dtype=V.dtype)
        B[::2] = V
        V = B[::2]
    elif f == "readonly":
        for a in (X, V, T):
            a.setflags(write=False)
    elif f == "one":
        T = T[:1]
    elif f == "backend":
        pass
    kw = dict(knn_backend="scipy") if f == "backend" else {}
    for k in (1, 2, 4):
        for limit in LIMITS[p["dim"]]:
            ap = MLSApproximator(X, V, k=k, **({} if limit is None else {"max_distance": limit}), **kw)
            check_avg(ctx, ap, X, V, T, k, limit, f"{p}, k={k}, limit={limit}")
    ctx.state(str(p))
    ctx.trace()


def k_history(ctx, p):
    """one approximator asked along a history, data replaced in between"""
    X = np.array(GRID[2])
    V = data(9, (), "float")
    X2, V2 = X[::-1].copy() * 0.5, data(9, (2,), "int")
    T = [np.array(QUERY[2]), np.array([[1.9, 0.2]]), np.array(GRID[2])]
    ap = MLSApproximator(X, V, k=p["k"], **({"max_distance": 1.3} if p["lim"] else {}))
    cx, cv = X, V
    for op in p["seq"]:
        if op < 3:
            check_avg(ctx, ap, cx, cv, T[op], p["k"], 1.3 if p["lim"] else None, f"history {p}")
        elif op == 3:
            ap.Y_S = cv = V2 if cv is V else V
        elif op == 4:
            ap.X_S = cx = X2 if cx is X else X
        else:   # another approximator in between
            check_avg(ctx, MLSApproximator(X2, V2, k=1), X2, V2, T[0], 1, None, f"history {p}")
    ctx.deeper(len(p["seq"]))
    ctx.state(str(p))
    ctx.trace()


def k_sched(ctx, p):
    lab = interleave.Lab()
    X = np.array(GRID[2])
    T = np.array([[0.2, 0.1], [1.8, 1.1], [1.2, 1.9]])[: p["n"]]
    V = data(9, p["shape"], "float")

    def run():
        return np.array(MLSApproximator(X, V, k=2).approximate(T))

    n = interleave.explore(ctx, lab, f"average of data {p['shape']}", run, lambda a, b: np.allclose(a, b, equal_nan=True), bound=p["bound"])
    ctx.outcome("schedules explored" if n else "no parallel loop")


def k_offset(ctx, p):
    """the grids far from the origin, in other units, and nearly tied (exact binary fractions)"""
    dim = p["dim"]
    s, o = 2.0 ** p["s"], p["o"]
    jit = [[k % 5 * 2.0**-9 - k % 3 * 2.0**-10 for k in range(q, q + dim)] for q in range(len(GRID[dim]))]
    X = (np.array(GRID[dim]) + (np.array(jit) if p["jit"] else 0)) * s + o
    Y = np.array(QUERY[dim]) * s + o
    n = len(X)
    V = data(n, [], "float")
    D = np.array([dist((X - o) / s, (y - o) / s) for y in Y])
    for k in (1, 2, 4):
        for limit in (None, 1.625):
            kw = {} if limit is None else dict(max_distance=limit * s)
            d, i = k_nearest_neighbours(X, Y, k=k, return_distance=True, **kw)
            I, E = np.reshape(i, (len(Y), -1)), np.reshape(d, (len(Y), -1))
            for q in range(len(Y)):
                ctx.step()
                idx = [int(v) for v in I[q]]
                msg = valid(idx, D[q], k, limit, n)
                if msg:
                    raise Violation(f"{p}: neighbours of {Y[q].tolist()} among {X.tolist()} are {idx}: {msg}")
                for a, b in zip(idx, E[q]):
                    if a != n and abs(D[q][a] - b / s) > 1e-7:
                        raise Violation(f"{p}: the distance of sample {a} from {Y[q].tolist()} is {D[q][a] * s}, {b} was returned")
            got = np.reshape(np.asarray(MLSApproximator(X, V, k=k, **kw).approximate(Y)), (len(Y),))
            for q in range(len(Y)):
                cand = means(D[q], V, k, limit)
                if not any(np.isnan(got[q]) if c is None else abs(got[q] - c) <= 1e-9 for c in cand):
                    raise Violation(f"{p}: the average of the {k} nearest to {Y[q].tolist()} is {got[q]}, not one of {cand}")
    ctx.state(str(p))
    ctx.trace()


KINDS = {"offset": k_offset, "knn": k_knn, "multi": k_multi, "forms": k_forms, "large": k_large, "avg": k_avg, "avgforms": k_avgforms, "history": k_history, "sched": k_sched}


def cases(tier):
    th = tier == "thorough"
    for lo in range(0, 32, 8):
        yield "knn", dict(dim=1, lo=lo, hi=lo + 8, ks=[1, 2, 3, 4, 5, 6, 7])
    for lo in range(0, 512, 16):
        yield "knn", dict(dim=2, lo=lo, hi=lo + 16, ks=[1, 2, 3, 4, 6, 9, 11] if th else [1, 2, 4, 10])
    for lo in range(0, 256, 16):
        yield "knn", dict(dim=3, lo=lo, hi=lo + 16, ks=[1, 2, 3, 5, 8, 9] if th else [1, 3, 9])
    for n in (2, 3, 4) if th else (2, 3):
        for idx in itertools.product(range(3), repeat=n):
            for k in (1, 2):
                yield "multi", dict(dim=1, idx=list(idx), k=k)
    for idx in itertools.product((0, 4, 5), repeat=3):
        yield "multi", dict(dim=2, idx=list(idx), k=2)
    for dim in (1, 2, 3):
        for form in ("C", "int", "f32", "F", "strided", "readonly"):
            for k in (1, 3):
                for limit in (None, 1.5):
                    yield "forms", dict(dim=dim, form=form, k=k, limit=limit)
        for n in (50, 400) + ((3000,) if th else ()):
            for k in (1, 4, 20):
                for leaf in (1, 30):
                    yield "large", dict(dim=dim, n=n, k=k, leaf=leaf)
    for lo in range(0, 32, 8):
        yield "avg", dict(dim=1, lo=lo, hi=lo + 8, all=1)
    for lo in range(0, 512, 16):
        yield "avg", dict(dim=2, lo=lo, hi=lo + 16, all=int(th))
    for lo in range(0, 256, 16):
        yield "avg", dict(dim=3, lo=lo, hi=lo + 16, all=int(th))
    for dim in (1, 2, 3):
        for form in ("C", "int", "F", "strided", "readonly", "one", "backend") + (("flat",) if dim == 1 else ()):
            for shape in ([], [1], [3], [2, 2], [1, 3], [2, 1, 2]):
                if not th and dim != 2 and shape not in ([], [2, 2]) and form not in ("flat", "C"):
                    continue
                for dtype in ("float", "int", "f32"):
                    yield "avgforms", dict(dim=dim, form=form, shape=shape, dtype=dtype)
    for dim in (1, 2, 3):
        for sc in (-20, -10, 0, 10, 20, -40, 40):
            for o in (0, 1, -3, 2.0**10, 2.0**20, -(2.0**24)):
                if abs(o) * 2.0 ** -(sc - 12) > 2.0**50:
                    continue
                for jit in (0, 1):
                    yield "offset", dict(dim=dim, s=sc, o=o, jit=jit)
    for n in (2, 3, 4) if th else (2, 3):
        for seq in itertools.product(range(6), repeat=n):
            yield "history", dict(seq=list(seq), k=2 + len(seq) % 2, lim=sum(seq) % 2)
    for shape in ([], [2], [2, 2]):
        for n in (2, 3):
            yield "sched", dict(shape=shape, n=n, bound=3 if th else 2)
