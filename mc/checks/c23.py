"""C23: array utilities against plain-Python definitions: all small arrays/shapes x number types x memory
layouts; all schedules of the parallel loops."""
import itertools

import awkward as ak
import numpy as np

from ..core import Violation
from .. import interleave
import sigmaepsilon.math as pkg
from sigmaepsilon.math import utils as U
from sigmaepsilon.math.hist import bin_centers, histogram
from sigmaepsilon.math.decorate import squeeze

DT = {"f8": np.float64, "f4": np.float32, "i8": np.int64, "i4": np.int32, "u8": np.uint64, "u1": np.uint8, "b": np.bool_, "c": np.complex128}


def lay(a, how):
    """the same array in another memory layout"""
    a = np.ascontiguousarray(a)
    if how == "C":
        return a.copy()
    if how == "F":
        return np.asfortranarray(a).copy(order="F")
    if how == "A":  # every second element of a larger array, in every direction
        b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "neg":
        return a[::-1].copy()[::-1]
    if how == "ro":
        a = a.copy()
        a.setflags(write=False)
        return a
    raise KeyError(how)


def distinct(shape, dt, seed=0):
    n = int(np.prod(shape)) if len(shape) else 1
    v = (np.arange(n) * 3 + 1 + seed) * (1 if dt in ("u8", "u1", "b") else (-1) ** np.arange(n))
    if dt == "u1":
        v = v % 251
    if dt == "b":
        v = (v % 5) % 2
    r = np.asarray(v).astype(DT[dt])
    if dt in ("f8", "f4"):
        r = r + DT[dt](0.25)
    if dt == "c":
        r = r + 0.5j * np.arange(n)
    return r.reshape(shape)


def same(ctx, got, ref, what, dtype=None):
    ctx.step()
    g = np.asarray(got)
    r = np.asarray(ref)
    if g.shape != r.shape:
        raise Violation(f"{what}: shape {g.shape} instead of {r.shape}")
    if not np.array_equal(g, r):
        raise Violation(f"{what}: {g.tolist()} instead of {r.tolist()}"[:1500])
    if dtype is not None and g.dtype != dtype:
        raise Violation(f"{what}: number type {g.dtype} instead of {dtype}")


def kept(a, copy, what):
    if not np.array_equal(a, copy):
        raise Violation(f"{what}: the input was changed to {np.asarray(a).tolist()}")


# -- content independent: repetition and reshaping --------------------------------
def sizes2(p):
    return [tuple(s) for s in itertools.product(range(0, p["m"] + 1), repeat=2)] + [tuple(s) for s in p.get("more", [])]


def k_repeat(ctx, p):
    fn, dt, how = p["fn"], p["dt"], p["lay"]
    for shape in sizes2(p):
        ctx.beat()
        base = distinct(shape, dt)
        for N in p["N"]:
            a = lay(base, how)
            what = f"{fn} of a {dt}/{how} array {base.tolist() if base.size < 20 else shape}, N={N}"
            rows = base.tolist()
            if fn == "repeat":
                same(ctx, U.repeat(a, N), np.array([rows] * N, dtype=DT[dt]).reshape((N,) + shape), what, DT[dt])
            elif fn == "diag":
                ref = np.zeros((shape[0] * N, shape[1] * N), dtype=DT[dt])
                for k in range(N):
                    for i in range(shape[0]):
                        for j in range(shape[1]):
                            ref[k * shape[0] + i, k * shape[1] + j] = base[i, j]
                same(ctx, U.repeat_diagonal_2d(a, N), ref, what, DT[dt])
            elif fn == "tile":
                d = distinct(shape, p["ddt"], 2)
                ref = np.zeros((N,) + shape, dtype=np.result_type(base, d))
                for k in range(N):
                    for i in range(shape[0]):
                        for j in range(shape[1]):
                            ref[k, i, j] = base[i, j] + k * d[i, j]
                da = lay(d, how)
                same(ctx, U.tile(a, da, N), ref, what + f" step {d.tolist() if d.size < 20 else ''}")
                kept(da, d, what)
            kept(a, base, what)
            if N == 1 and fn == "repeat":
                same(ctx, U.repeat(a), base.reshape((1,) + shape), what)
            if N == 2 and fn == "diag":
                same(ctx, U.repeat_diagonal_2d(a), ref, what)
        ctx.state((fn, dt, how, shape))
    ctx.trace()


def k_repeat1(ctx, p):
    fn, dt, how = p["fn"], p["dt"], p["lay"]
    for n in list(range(0, p["m"] + 1)) + p.get("more", []):
        base = distinct((n,), dt)
        for N in p["N"]:
            a = lay(base, how)
            what = f"{fn} of a {dt}/{how} array {base.tolist() if n < 20 else n}, N={N}"
            if fn == "repeat1d":
                same(ctx, U.repeat1d(a, N), np.array(base.tolist() * N, dtype=DT[dt]), what, DT[dt])
                if N == 1:
                    same(ctx, U.repeat1d(a), base, what)
            else:
                d = distinct((n,), p["ddt"], 2)
                ref = np.array([base[i] + k * d[i] for k in range(N) for i in range(n)], dtype=np.result_type(base, d))
                same(ctx, U.tile1d(a, lay(d, how), N), ref, what)
                if p["ddt"] == dt and dt in ("f8", "i8"):
                    ref = np.array([base[i] + k * 2 for k in range(N) for i in range(n)], dtype=DT[dt])
                    same(ctx, U.tile1d(a, DT[dt](2), N), ref, what + " number as step")
            kept(a, base, what)
        ctx.state((fn, dt, how, n))
    ctx.trace()


def k_flatten(ctx, p):
    dt, how = p["dt"], p["lay"]
    for shape in sizes2(p):
        base = distinct(shape, dt)
        a = lay(base, how)
        C = np.array([base[i, j] for i in range(shape[0]) for j in range(shape[1])], dtype=DT[dt])
        Fo = np.array([base[i, j] for j in range(shape[1]) for i in range(shape[0])], dtype=DT[dt])
        what = f"flatten2d of a {dt}/{how} array {base.tolist() if base.size < 20 else shape}"
        same(ctx, U.flatten2d(a), C, what, DT[dt])
        same(ctx, U.flatten2d(a, order="C"), C, what, DT[dt])
        same(ctx, U.flatten2d(a, order="F"), Fo, what + " order F", DT[dt])
        same(ctx, U.flatten2dC(a), C, what)
        same(ctx, U.flatten2dF(a), Fo, what + " order F")
        kept(a, base, what)
        ctx.state(("flatten", dt, how, shape))
    ctx.trace()


def k_shape(ctx, p):
    """at least so many dimensions; matrix form; contiguous; squeezing"""
    shape, dt, how = tuple(p["shape"]), p["dt"], p["lay"]
    base = distinct(shape, dt)
    what0 = f"{dt}/{how} array of shape {shape}"
    forms = [("array", lay(base, how) if base.ndim else base)]
    if how == "C" and base.size:
        forms.append(("list", base.tolist()))
        if base.ndim == 1:
            forms.append(("tuple", tuple(base.tolist())))
    for form, a in forms:
        for n in range(1, 6):
            for front, back in itertools.product((True, False), repeat=2):
                nd = base.ndim if form != "list" or base.ndim else 1
                s = shape if nd == base.ndim else (1,)
                if len(s) >= n:
                    ref = base.reshape(s)
                elif front and not back:
                    ref = base.reshape((1,) * (n - len(s)) + s)
                else:
                    ref = base.reshape(s + (1,) * (n - len(s)))
                what = f"atleastnd({what0} as {form}, {n}, front={front}, back={back})"
                same(ctx, U.atleastnd(a, n, front=front, back=back), ref, what)
                named = {2: U.atleast2d, 3: U.atleast3d, 4: U.atleast4d}.get(n)
                if named:
                    same(ctx, named(a, front=front, back=back), ref, what.replace("atleastnd", f"atleast{n}d"))
        d = (1,) * max(0, 2 - base.ndim) + shape
        same(ctx, U.atleast2d(a), base.reshape(d if base.ndim or form == "array" else (1, 1)), f"atleast2d({what0} as {form})")
        same(ctx, U.atleastnd(a), base.reshape(d if base.ndim or form == "array" else (1, 1)), f"atleastnd({what0} as {form})")
        same(ctx, U.atleast2d(a, back=True), base.reshape(shape + (1,) * max(0, 2 - base.ndim) if base.ndim else (1, 1)), f"atleast2d({what0} as {form}, back=True)")
        same(ctx, U.atleast1d(a), base.reshape(shape or (1,)), f"atleast1d({what0} as {form})")
        if base.ndim <= 2 and (base.ndim or form == "list"):
            same(ctx, U.matrixform(a), base.reshape(shape if base.ndim == 2 else (-1, 1) if base.size else (0, 1)), f"matrixform({what0} as {form})")
        elif base.ndim > 2:
            try:
                U.matrixform(a)
            except AssertionError:
                pass
            else:
                raise Violation(f"matrixform accepted {what0}")
    if base.ndim:
        a = forms[0][1]
        c = U.ascont(a)
        same(ctx, c, base, f"ascont({what0})", DT[dt])
        if not c.flags["C_CONTIGUOUS"]:
            raise Violation(f"ascont({what0}) is not contiguous")
        kept(a, base, what0)
    a = forms[0][1]

    for default in (True, False):
        @squeeze(default)
        def one(x):
            return x

        @squeeze(default=default)
        def pair(x, y=None):
            return x, x, 3

        @squeeze(default)
        def table(x, k=1):
            return {"a": x, "b": "text", k: x}

        sq = base.reshape(tuple(s for s in shape if s != 1))
        for flag in (None, True, False):
            kw = {} if flag is None else {"squeeze": flag}
            on = default if flag is None else flag
            ref = sq if on else base
            same(ctx, one(a, **kw), ref, f"squeeze of {what0} default={default} {kw}")
            r = pair(a, **kw)
            if len(r) != 3 or r[2] != 3:
                raise Violation(f"squeeze of several results of {what0}: {r}")
            same(ctx, r[0], ref, f"squeeze of the first result {what0} {kw}")
            same(ctx, r[1], ref, f"squeeze of the second result {what0} {kw}")
            r = table(a, k=7, **kw)
            if set(r) != {"a", "b", 7} or r["b"] != "text":
                raise Violation(f"squeeze of a dictionary of {what0}: {r}")
            same(ctx, r["a"], ref, f"squeeze in a dictionary of {what0} {kw}")
            same(ctx, r[7], ref, f"squeeze in a dictionary of {what0} {kw}")
    ctx.state(str(p))
    ctx.trace()


# -- content dependent ----------------------------------------------------------------
def k_minmax(ctx, p):
    dt, how = p["dt"], p["lay"]
    vals = p["vals"]
    for n in range(1, p["m"] + 1):
        for t in itertools.product(vals, repeat=n):
            base = np.array(t, dtype=DT[dt])
            a = lay(base, how)
            lo, hi = U.minmax(a)
            ctx.step()
            if lo != min(t) or hi != max(t):
                raise Violation(f"minmax of {dt}/{how} {t} is {lo}, {hi}")
            kept(a, base, f"minmax of {t}")
            if n == 4 and how in ("C", "F"):
                a = lay(base.reshape(2, 2), how)
                lo, hi = U.minmax(a)
                if lo != min(t) or hi != max(t):
                    raise Violation(f"minmax of the 2-D {dt}/{how} array {t} is {lo}, {hi}")
        ctx.state(("minmax", dt, how, n))
        ctx.beat()
    big = np.arange(5000) * 7 % 5003
    for k in (0, 1, 2499, 4999):
        b = (big + 1).astype(DT[dt])
        if dt == "u1":
            b = (big % 100 + 1).astype(DT[dt])
        b[k] = 0
        if U.minmax(lay(b, how)) != (0, b.max()):
            raise Violation(f"minmax of {dt}/{how}: the least at {k} of 5000")
    ctx.trace()


def k_clip(ctx, p):
    dt, how = p["dt"], p["lay"]
    vals = p["vals"]
    for n in range(0, p["m"] + 1):
        for t in itertools.product(vals, repeat=n):
            for lo, hi in p["lims"]:
                a = lay(np.array(t, dtype=DT[dt]), how)
                ref = np.array([min(max(x, lo), hi) for x in t], dtype=DT[dt])
                same(ctx, U.clip1d(a, lo, hi), ref, f"clip1d of {dt}/{how} {t} to [{lo}, {hi}]")
        ctx.state(("clip", dt, how, n))
        ctx.beat()
    big = (np.arange(3000) * 7 % 3001 - 1500).astype(DT[dt])
    lo, hi = p["lims"][0]
    same(ctx, U.clip1d(lay(big, how), lo, hi), np.array([min(max(x, lo), hi) for x in big.tolist()], dtype=DT[dt]), f"clip1d of 3000 values {dt}")
    ctx.trace()


def k_find(ctx, p):
    dt, how = p["dt"], p["lay"]
    vals = p["vals"]
    for m in range(1, len(vals) + 1):
        for space in itertools.permutations(vals, m):
            sp = np.array(space, dtype=DT[dt])
            s = lay(sp, how)
            for n in range(0, 3 if m > 2 else 4):
                for t in itertools.product(space, repeat=n):
                    base = np.array(t, dtype=DT[dt])
                    a = lay(base, how)
                    what = f"find1d of {t} in {space} ({dt}/{how})"
                    same(ctx, U.find1d(a, s), [space.index(x) for x in t], what)
                    kept(a, base, what)
                    kept(s, sp, what)
                    if n == 2:
                        b2 = np.array([t, t[::-1], (space[-1], t[0])], dtype=DT[dt])
                        a2 = lay(b2, how)
                        same(ctx, U.find2d(a2, s), [[space.index(x) for x in r] for r in b2.tolist()], what.replace("find1d", "find2d"))
            ctx.beat()
        ctx.state(("find", dt, how, m))
    # a value that occurs several times: any of its positions
    rep = np.array([vals[0], vals[1], vals[0], vals[1]], dtype=DT[dt])
    g = U.find1d(np.array([vals[1], vals[0]], dtype=DT[dt]), rep)
    if [rep[int(i)] for i in g] != [vals[1], vals[0]]:
        raise Violation(f"find1d in {rep.tolist()} gives {g.tolist()}")
    n = p.get("big", 0)
    if n:
        sp = (np.arange(n) * 7 % n).astype(DT[dt])
        a = lay(np.arange(0, n, 3).astype(DT[dt]), how)
        g = U.find1d(a, lay(sp, how))
        if not np.array_equal(sp[g.astype(int)], a):
            raise Violation(f"find1d in {n} values: wrong positions")
    ctx.trace()


def k_rows(ctx, p):
    """positions of equal rows: all pairs of small matrices"""
    dt, how, nx, ny, d = p["dt"], p["lay"], p["nx"], p["ny"], p["d"]
    vals = p["vals"]
    X = [np.array(t, dtype=DT[dt]).reshape(nx, d) for t in itertools.product(vals, repeat=nx * d)]
    Y = [np.array(t, dtype=DT[dt]).reshape(ny, d) for t in itertools.product(vals, repeat=ny * d)]
    for bx in X[p["lo"] : p["hi"]]:
        ctx.beat()
        for by in Y[:: p["skip"]]:
            x, y = lay(bx, how), lay(by, how)
            ref = [(i, j) for i in range(nx) for j in range(ny) if all(a == b for a, b in zip(bx[i].tolist(), by[j].tolist()))]
            what = f"indices_of_equal_rows of {dt}/{how} {bx.tolist()}, {by.tolist()}"
            check_rows(ctx, U.indices_of_equal_rows(x, y), ref, what)
            kept(x, bx, what)
            kept(y, by, what)
    ctx.state(str(p))
    ctx.trace()


def check_rows(ctx, got, ref, what):
    ctx.step()
    if len(got) != 2:
        raise Violation(f"{what}: {got}")
    pairs = list(zip([int(v) for v in got[0]], [int(v) for v in got[1]]))
    if len(got[0]) != len(got[1]) or sorted(pairs) != ref:
        raise Violation(f"{what}: {pairs} instead of {ref}")


def k_rowtol(ctx, p):
    """rows equal within the tolerance"""
    tol, nx, ny = p["tol"], p["nx"], p["ny"]
    steps = [0.0, 0.2, -0.4, 30.0, -1000.0]
    base = np.array([[0.5, -1.0, 2.0], [3.0, 3.0, 3.0], [0.5, -1.0, 2.5]])
    for e in itertools.product(steps, repeat=3):
        x = base[:nx].copy()
        y = base[:ny].copy()[::-1].copy()
        y[0] = base[min(nx, ny) - 1] + np.array(e) * (tol if tol else 1e-12)
        t = 1e-12 if tol is None else tol
        ref = [(i, j) for i in range(nx) for j in range(ny) if np.sum(np.abs(x[i] - y[j])) <= t]
        border = any(abs(np.sum(np.abs(x[i] - y[j])) - t) < 0.05 * t for i in range(nx) for j in range(ny))
        if border:
            continue
        got = U.indices_of_equal_rows(x, y) if tol is None else U.indices_of_equal_rows(x, y, tol)
        check_rows(ctx, got, ref, f"indices_of_equal_rows of {x.tolist()}, {y.tolist()}, tol={tol}")
        if tol is not None:
            check_rows(ctx, U.indices_of_equal_rows(x, y, tol=tol), ref, f"indices_of_equal_rows, tol={tol}")
    ctx.state(str(p))
    ctx.trace()


def k_rowbig(ctx, p):
    n, dt = p["n"], p["dt"]
    k = np.arange(n)
    x = np.stack([k * 7 % 13, k * 5 % 11], axis=1).astype(DT[dt])
    y = np.stack([k[: p["m"]] * 3 % 13, k[: p["m"]] * 2 % 11], axis=1).astype(DT[dt])
    X, Y = x.tolist(), y.tolist()
    ref = [(i, j) for i in range(n) for j in range(p["m"]) if X[i] == Y[j]]
    check_rows(ctx, U.indices_of_equal_rows(x, y), ref, f"rows {p}")
    ctx.state(str(p))
    ctx.trace()


def k_count(ctx, p):
    if p["of"] == "dense":
        for i in range(0, 6):
            for j in range(0, 5):
                a = lay(distinct((i, j), p["dt"]), p["lay"])
                same(ctx, U.count_cols(a), [j] * i, f"count_cols of shape {(i, j)}")
        ctx.state(str(p))
    elif p["of"] == "ragged":
        for n in range(1, 5):
            for L in itertools.product(range(4), repeat=n):
                if not any(L):
                    continue
                a = ak.Array([list(range(k)) for k in L])
                same(ctx, U.count_cols(a), L, f"count_cols of rows with lengths {L}")
                ctx.state(("ragged", L))
            ctx.beat()
    else:
        for n in range(0, 6):
            for L in itertools.product(range(4), repeat=n):
                ptr = np.concatenate([[0], np.cumsum(L)]).astype(DT[p["dt"]])
                ind = np.zeros(int(sum(L)), dtype=DT[p["dt"]])
                same(ctx, U.count_cols_csr(ptr, ind), np.array(L, dtype=int), f"count_cols_csr of lengths {L}")
                ctx.state(("csr", L))
            ctx.beat()
    ctx.trace()


def k_range(ctx, p):
    dt, how = p["dt"], p["lay"]
    V = [-1.0, 0.0, 0.5, 2.0, 10.0] if dt in ("f8", "f4") else [-1, 0, 2, 10]
    for n in range(0, 4):
        for t in itertools.product(V, repeat=n):
            base = np.array(t, dtype=DT[dt])
            for source, target in p["ranges"]:
                s = [0.0, 1.0] if source is None else source
                g = [-1.0, 1.0] if target is None else target
                a = lay(base, how)
                ref = np.array([g[0] + (x - s[0]) * (g[1] - g[0]) / (s[1] - s[0]) for x in t])
                kw = {} if target is None else {"target": target if p["form"] == "list" else np.array(target)}
                src = source if p["form"] == "list" or source is None else np.array(source)
                got = U.to_range_1d(a, source=src, **kw)
                ctx.step()
                what = f"to_range_1d of {dt}/{how} {t} from {source} to {target}"
                if got.shape != ref.shape or not np.allclose(got, ref, rtol=1e-12, atol=1e-12):
                    raise Violation(f"{what}: {got.tolist()} instead of {ref.tolist()}")
                kept(a, base, what)
                if how == "C" and n:
                    got = np.ravel(U.to_range_1d(list(t), source=src, **kw))
                    if got.shape != ref.shape or not np.allclose(got, ref, rtol=1e-12, atol=1e-12):
                        raise Violation(f"{what} as a list: {got.tolist()} instead of {ref.tolist()}")
                    got = np.ravel(U.to_range_1d(t[0], source=src, **kw))
                    if got.shape != (1,) or not np.allclose(got, ref[:1], rtol=1e-12, atol=1e-12):
                        raise Violation(f"{what}: the number {t[0]} gives {got}")
        ctx.state(("range", dt, how, n))
        ctx.beat()
    big = np.linspace(0, 1, 4001).astype(DT[dt]) if dt in ("f8", "f4") else np.arange(4001).astype(DT[dt])
    got = U.to_range_1d(lay(big, how), source=[0, 2], target=[1, 5])
    if not np.allclose(got, 1 + 2 * big.astype(float)):
        raise Violation(f"to_range_1d of 4001 values {dt}/{how}")
    ctx.trace()


def ref_hist(data, edges, weights=None):
    n = len(edges) - 1
    h = [0] * n
    for q, x in enumerate(data):
        for i in range(n):
            if edges[i] <= x < edges[i + 1] or (i == n - 1 and x == edges[n]):
                h[i] += 1 if weights is None else weights[q]
                break
    return h


def k_hist(ctx, p):
    vals = p["vals"]
    for n in range(0, p["m"] + 1):
        for t in itertools.product(vals, repeat=n):
            ctx.beat()
            data = np.array(t, dtype=DT[p["dt"]]) if p["form"] == "array" else list(t)
            for edges in p["edges"]:
                for ef in ("list", "array") + (("intarray",) if all(float(e).is_integer() for e in edges) else ()):
                    b = edges if ef == "list" else np.array(edges, dtype=float) if ef == "array" else np.array(edges, dtype=int)
                    if ef == "list":
                        b = [int(e) if float(e).is_integer() and p["ints"] else e for e in edges]
                    b0 = np.array(b, copy=True)
                    h, c = histogram(data, b)
                    what = f"histogram of {t} with the edges {b!r}"
                    same(ctx, h, ref_hist(t, edges), what)
                    same(ctx, c, [(x + y) / 2 for x, y in zip(edges, edges[1:])], what + " centres")
                    h, e = histogram(data, b, return_edges=True)
                    same(ctx, h, ref_hist(t, edges), what)
                    same(ctx, e, edges, what + " edges")
                    if not np.array_equal(b, b0):
                        raise Violation(f"{what}: the edges were changed")
            if n:
                for bins, rng in ((1, None), (2, None), (4, None), (4, (0.0, 2.0)), (3, (-1.0, 5.0))):
                    lo, hi = rng or (min(t), max(t))
                    if lo == hi:
                        lo, hi = lo - 0.5, hi + 0.5
                    edges = [lo + k * (hi - lo) / bins for k in range(bins)] + [hi]
                    kw = {} if rng is None else {"range": rng}
                    h, c = histogram(data, bins, **kw)
                    what = f"histogram of {t} with {bins} bins {kw}"
                    # samples on an inner edge are left out of the comparison of counts unless the edges are exact
                    exact = all((e * 8).is_integer() for e in map(float, edges))
                    if exact:
                        same(ctx, h, ref_hist(t, edges), what)
                    if int(np.sum(h)) != sum(lo <= x <= hi for x in t):
                        raise Violation(f"{what}: {h} does not count all samples")
                    if not np.allclose(c, [(x + y) / 2 for x, y in zip(edges, edges[1:])], atol=1e-12) or np.shape(c) != (bins,):
                        raise Violation(f"{what}: centres {c}")
                w = [0.5 + k for k in range(n)]
                edges = p["edges"][0]
                h, c = histogram(data, edges, weights=w)
                same(ctx, h, ref_hist(t, edges, w), f"weighted histogram of {t}")
                tot = sum(ref_hist(t, edges))
                if tot:
                    h, c = histogram(data, edges, density=True)
                    ref = [k / tot / (y - x) for k, x, y in zip(ref_hist(t, edges), edges, edges[1:])]
                    if not np.allclose(h, ref):
                        raise Violation(f"histogram density of {t}: {h} instead of {ref}")
            ctx.state(("hist", t, p["form"], p["dt"], p["ints"]))
    ctx.trace()


def k_centres(ctx, p):
    dt, how = p["dt"], p["lay"]
    for n in list(range(1, 6)) + [100, 1001]:
        e = np.cumsum(1 + np.arange(n) % 3).astype(DT[dt])
        if dt in ("u1",):
            e = (np.arange(n) % 200).astype(DT[dt])
        a = lay(e, how)
        ref = np.array([(float(x) + float(y)) / 2 for x, y in zip(e, e[1:])])
        same(ctx, bin_centers(a), ref, f"bin_centers of {n} edges {dt}/{how}")
        kept(a, e, "bin_centers")
    ctx.state(str(p))
    ctx.trace()


def k_misc(ctx, p):
    for n in range(0, 5):
        for t in itertools.product((True, False), repeat=n):
            for hi, lo in ((1.0, 0.0), (2.5, -1.0), (0.0, 1.0), (3, 7)):
                ref = [float(hi) if x else float(lo) for x in t]
                for a in (list(t), np.array(t, dtype=bool)):
                    if n == 0 and isinstance(a, list):
                        continue
                    got = U.bool_to_float(a, hi, lo)
                    same(ctx, got, ref, f"bool_to_float({t}, {hi}, {lo})", np.float64)
                if n == 4:
                    a = np.array(t, dtype=bool).reshape(2, 2)
                    for m in (a, np.asfortranarray(a), a.T):
                        b = m.copy()
                        same(ctx, U.bool_to_float(m, hi, lo), np.where(b, float(hi), float(lo)), f"bool_to_float({b.tolist()})")
                        kept(m, b, "bool_to_float")
            if n:
                same(ctx, U.bool_to_float(list(t)), [1.0 if x else 0.0 for x in t], f"bool_to_float({t})")
    for f, i in ((np.float32, np.int32), (np.float64, np.int64), ("float32", np.int32), ("float64", np.int64), (np.dtype("f4"), np.int32), (float, np.int64)):
        if np.dtype(U.itype_of_ftype(f)) != np.dtype(i):
            raise Violation(f"itype_of_ftype({f}) is {U.itype_of_ftype(f)}")
    for ch in ([False, True], [1, 2, 3], ["a", "b"], np.array([0.5, 1.5])):
        for size in ((2, 3), 4, (0,), (1, 1, 2)):
            got = U.choice(ch, size)
            if np.shape(got) != (size if isinstance(size, tuple) else (size,)) or not set(np.ravel(got).tolist()) <= set(list(ch)):
                raise Violation(f"choice({ch}, {size}) is {got}")
            for k in range(len(ch)):
                pr = [0.0] * len(ch)
                pr[k] = 1.0
                got = U.choice(ch, size, pr)
                if not all(x == ch[k] for x in np.ravel(got).tolist()):
                    raise Violation(f"choice({ch}, {size}, {pr}) is {got}")
            ctx.step()
    ctx.state("misc")
    ctx.trace()


SCHED = {
    "repeat": lambda: U.repeat(np.arange(6.0).reshape(2, 3), 3),
    "repeat1d": lambda: U.repeat1d(np.arange(3.0), 3),
    "tile": lambda: U.tile(np.arange(4.0).reshape(2, 2), np.ones((2, 2)), 3),
    "tile1d": lambda: U.tile1d(np.arange(3.0), np.array([1.0, -1.0, 2.0]), 3),
    "diag": lambda: U.repeat_diagonal_2d(np.arange(1.0, 5.0).reshape(2, 2), 3),
    "rows": lambda: np.array(U.indices_of_equal_rows(np.array([[1.0, 2], [3, 4], [1, 2]]), np.array([[1.0, 2], [3, 4]]))),
    "rowsint": lambda: np.array(U.indices_of_equal_rows(np.array([[1, 2], [3, 4], [1, 2]]), np.array([[1, 2], [3, 4]]))),
    "square": lambda: np.array(U.indices_of_equal_rows(np.array([[1.0, 2], [3, 4], [1, 2]]), np.array([[1.0, 2], [3, 4], [5, 6]]))),
    "count": lambda: U.count_cols(np.zeros((3, 2))),
    "countcsr": lambda: U.count_cols_csr(np.array([0, 1, 3, 3]), np.array([0, 1, 0])),
    "range": lambda: U.to_range_1d(np.array([0.0, 0.5, 1.0]), source=[0.0, 1.0], target=[2.0, 5.0]),
    "find1d": lambda: U.find1d(np.array([3, 1, 2]), np.array([1, 2, 3])),
    "find2d": lambda: U.find2d(np.array([[3, 1], [2, 2]]), np.array([1, 2, 3])),
    "centres": lambda: bin_centers(np.array([0.0, 1.0, 3.0, 7.0])),
}


def k_sched(ctx, p):
    lab = interleave.Lab()
    n = interleave.explore(ctx, lab, p["name"], SCHED[p["name"]], np.array_equal, bound=p["bound"])
    # the interpreted loop agrees with the compiled one
    ctx.outcome("schedules explored" if n > 1 else f"nothing to interleave: {p['name']}")


KINDS = {
    "repeat": k_repeat, "repeat1": k_repeat1, "flatten": k_flatten, "shape": k_shape, "minmax": k_minmax, "clip": k_clip,
    "find": k_find, "rows": k_rows, "rowtol": k_rowtol, "rowbig": k_rowbig, "count": k_count, "range": k_range,
    "hist": k_hist, "centres": k_centres, "misc": k_misc, "sched": k_sched,
}


def cases(tier):
    th = tier == "thorough"
    full = list(itertools.product(DT, ("C", "F", "A", "neg", "ro")))
    few = [("f8", "C"), ("f8", "F"), ("f8", "A"), ("f8", "ro"), ("i8", "C"), ("i8", "A"), ("f4", "C"), ("i4", "F"), ("u8", "C"), ("u1", "C"), ("b", "C"), ("c", "C")]
    combos = full if th else few
    N = [0, 1, 2, 3, 5, 17]
    for dt, how in combos:
        yield "repeat", dict(fn="repeat", dt=dt, lay=how, m=4, more=[[3, 50], [64, 3]], N=N)
        yield "repeat", dict(fn="diag", dt=dt, lay=how, m=4, more=[[20, 3]], N=N)
        if dt != "b":
            yield "repeat", dict(fn="tile", dt=dt, ddt=dt, lay=how, m=3, more=[[3, 50]], N=N)
            yield "repeat1", dict(fn="tile1d", dt=dt, ddt=dt, lay=how, m=5, more=[200], N=N)
        yield "repeat1", dict(fn="repeat1d", dt=dt, lay=how, m=6, more=[200], N=N + [100])
        yield "flatten", dict(dt=dt, lay=how, m=5, more=[[3, 70], [70, 3]])
    for dt, ddt in (("i8", "f8"), ("f8", "i8"), ("f4", "f8")):
        yield "repeat", dict(fn="tile", dt=dt, ddt=ddt, lay="C", m=3, N=N)
        yield "repeat1", dict(fn="tile1d", dt=dt, ddt=ddt, lay="C", m=4, N=N)
    for dt in ("f8", "i8", "b", "c", "u1", "f4"):
        for how in ("C", "F", "A", "neg", "ro"):
            for shape in [()] + [s for n in (1, 2, 3) for s in itertools.product((1, 2, 3) if n > 2 else (0, 1, 2, 3), repeat=n)] + [(2, 1, 1, 3), (1, 2, 3, 1, 2)]:
                if not th and how not in ("C", "A") and dt != "f8":
                    continue
                yield "shape", dict(shape=list(shape), dt=dt, lay=how)
    for dt, how in combos:
        if dt in ("b", "c"):
            continue
        u = dt in ("u8", "u1")
        yield "minmax", dict(dt=dt, lay=how, vals=[0, 1, 3] if u else [-2, 0, 1, 3], m=5 if th else 4)
        if how != "ro" and not u:
            yield "clip", dict(dt=dt, lay=how, vals=[-2, 0, 1, 3], m=4 if th else 3, lims=[(a, b) for a in (-3, -2, 0, 1, 2) for b in (-2, 0, 1, 5) if a <= b])
        yield "find", dict(dt=dt, lay=how, vals=[0, 7, 3, 2] if u else [0, -7, 3, 2], big=200 if dt != "u1" else 0)
    for dt, how in ([("f8", "C"), ("f8", "A"), ("i8", "C"), ("i8", "F"), ("u8", "C"), ("u1", "C"), ("i4", "C"), ("f4", "C")] if not th else [c for c in full if c[0] not in ("b", "c")]):
        for nx, ny, d in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3)):
            if nx * d > 6 or ny * d > 6:
                continue
            T = 2 ** (nx * d)
            skip = 1 if 2 ** (ny * d) * T <= 1024 or th else 5
            yield "rows", dict(dt=dt, lay=how, nx=nx, ny=ny, d=d, vals=[1, 2] if dt[0] == "u" else [-1, 2], lo=0, hi=T, skip=skip)
        yield "rows", dict(dt=dt, lay=how, nx=2, ny=2, d=2, vals=[0, 1, 2], lo=0, hi=81, skip=1 if th else 2)
    for tol in (None, 1e-12, 1e-6, 0.01):
        for nx, ny in itertools.product((1, 2, 3), repeat=2):
            yield "rowtol", dict(tol=tol, nx=nx, ny=ny)
    for dt in ("f8", "i8"):
        for n, m in ((150, 150), (200, 90), (90, 200)):
            if m <= n:
                yield "rowbig", dict(n=n, m=m, dt=dt)
    for dt in ("f8", "i8", "b"):
        for how in ("C", "F", "A"):
            yield "count", dict(of="dense", dt=dt, lay=how)
    yield "count", dict(of="ragged")
    for dt in ("i8", "i4"):
        yield "count", dict(of="csr", dt=dt)
    R = [(None, None), ([0.0, 2.0], None), ([-1.0, 1.0], [0.0, 10.0]), ([1.0, 0.0], [0.0, 1.0]), ([0, 4], [3, 1]), ([2.0, 5.0], [2.0, 2.0]), (None, [5.0, -5.0])]
    for dt, how in combos:
        if dt in ("f8", "f4", "i8", "i4"):
            for form in ("list", "array"):
                yield "range", dict(dt=dt, lay=how, ranges=R, form=form)
    E = [[0.0, 1.0, 2.0], [-1.0, 0.0, 3.0], [0.0, 0.5, 1.5, 4.0], [1.0, 2.0], [-2.0, -1.0, 0.0, 1.0, 2.0, 3.0]]
    for form, dt in (("array", "f8"), ("list", "f8"), ("array", "i8")):
        for ints in (0, 1):
            for ch in range(len(E)):
                yield "hist", dict(vals=[-1.0, 0.0, 0.75, 2.0] if dt == "f8" else [-1, 0, 1, 2], m=3 if not th else 4, dt=dt, form=form, ints=ints, edges=[E[ch]])
    for dt, how in combos:
        if dt not in ("b", "c"):
            yield "centres", dict(dt=dt, lay=how)
    yield "misc", {}
    for name in SCHED:
        yield "sched", dict(name=name, bound=3 if th else 2)
