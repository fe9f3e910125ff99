"""C09: ragged and sparse arrays: all small row patterns, all chains of conversions."""
import itertools

import awkward as ak
import numpy as np
import scipy.sparse as sp
from numba import njit

from .. import ref
from ..core import Violation
from ..interleave import Lab, explore
import sigmaepsilon.math.linalg.sparse.utils as SU
from sigmaepsilon.math.linalg import JaggedArray, csr_matrix

LAB = []
FINE = [0.1, 16777217.0, -1e300, 1e-300, 1 / 3, -0.5, 2.0**53, 123456789.125, -7.0]  # values a narrower type cannot hold


def rows_of(pattern, flavour):
    """the rows (lists of numbers) of a pattern of widths"""
    out, k = [], 0
    for w in pattern:
        row = []
        for _ in range(w):
            k += 1
            row.append({"int": k, "rep": (k * 5) % 4 - 1, "float": FINE[k % len(FINE)], "zero": (k % 3) - 1}[flavour])
        out.append(row)
    return out


def dense(rows):
    m = max([len(r) for r in rows], default=0)
    D = np.zeros((len(rows), m))
    for i, r in enumerate(rows):
        D[i, : len(r)] = r
    return D


def flat(rows, flavour="int"):
    return np.array([x for r in rows for x in r], dtype=float if flavour == "float" else int)


def want(cond, what, rows, got=None):
    if not cond:
        raise Violation(f"{what}; rows {rows}; got {got!r}")


def same_list(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(float(p) == float(q) for p, q in zip(x, y)) for x, y in zip(a, b))


BUILD = ("list", "arrays", "cuts", "cutsarr", "cutstuple", "ak", "awkreg", "np", "npF", "npS")


def build(how, rows, flavour, force):
    """a ragged array built from rows, or None if this way does not apply"""
    kw = {} if force is None else dict(force_numpy=force)
    dt = float if flavour == "float" else int
    if how == "list":
        return JaggedArray([list(r) for r in rows], **kw) if rows else None
    if how == "arrays":
        return JaggedArray([np.array(r, dtype=dt) for r in rows], **kw) if rows else None
    if how in ("cuts", "cutsarr", "cutstuple"):
        c = [len(r) for r in rows]
        c = {"cuts": c, "cutsarr": np.array(c, dtype=np.int32), "cutstuple": tuple(c)}[how]
        return JaggedArray(flat(rows, flavour), cuts=c, **kw)
    if how == "ak":
        return JaggedArray(ak.Array([list(r) for r in rows]), **kw) if rows else None
    if how == "awkreg":
        return JaggedArray(ak.unflatten(flat(rows, flavour), np.array([len(r) for r in rows], dtype=int)), **kw)
    if len({len(r) for r in rows}) != 1:
        return None
    D = np.array(rows, dtype=dt).reshape(len(rows), len(rows[0]))
    if how == "npF":
        D = np.asfortranarray(D)
    if how == "npS":
        big = np.full((D.shape[0] * 2, D.shape[1] * 2 + 1), 77, dtype=dt)
        big[::2, 1::2] = D
        D = big[::2, 1::2]
    return JaggedArray(D, **kw)


@njit
def nb_rows(m, i):
    return m.row(i), m.irow(i)


@njit
def nb_attr(m):
    return m.data, m.indices, m.indptr, m.shape


@njit
def nb_same(m):
    return m


def check_csr(ctx, m, D, what, inds=None, compiled=False, rowdata=None):
    """m must be the matrix D; inds: the expected column indices of each row"""
    ctx.step()
    want(tuple(m.shape) == D.shape, f"shape of {what}", D.tolist(), m.shape)
    X = m.to_numpy()
    want(X.shape == D.shape and np.array_equal(X, D), f"dense form of {what}", D.tolist(), X.tolist())
    S = m.to_scipy()
    want(sp.issparse(S) and S.shape == D.shape and np.array_equal(S.toarray(), D), f"SciPy form of {what}", D.tolist(), S)
    readers = [("", lambda i: (m.row(i), m.irow(i)))]
    if compiled:
        readers.append((" in compiled code", lambda i: nb_rows(m, i)))
    for name, rd in readers:
        for i in range(D.shape[0]):
            r, c = (np.asarray(x) for x in rd(i))
            want(len(r) == len(c), f"row {i} of {what}{name}: values and columns", D.tolist(), (r, c))
            full = np.zeros(D.shape[1])
            np.add.at(full, c.astype(int), r)
            want(np.array_equal(full, D[i]), f"row {i} of {what}{name}", D.tolist(), (r, c))
            if inds is not None:
                want(c.tolist() == list(inds[i]), f"column indices of row {i} of {what}{name}", D.tolist(), c)
            if rowdata is not None:
                want(r.tolist() == [float(x) for x in rowdata[i]], f"values of row {i} of {what}{name}", D.tolist(), r)
    if compiled:
        d, ii, pp, s = nb_attr(m)
        want(np.array_equal(d, m.data) and np.array_equal(ii, m.indices) and np.array_equal(pp, m.indptr) and tuple(s) == D.shape, f"attributes of {what} in compiled code", D.tolist())
        q = nb_same(m)
        want(tuple(q.shape) == D.shape and np.array_equal(q.to_numpy(), D), f"{what} returned by compiled code", D.tolist(), q)


def check_ragged(ctx, J, rows, what, csr=True, compiled=False):
    ctx.step()
    n = len(rows)
    W = [len(r) for r in rows]
    want(len(J) == n, f"number of rows of {what}", rows, len(J))
    L = J.to_list()
    want(same_list(L, rows), f"list of {what}", rows, L)
    want(np.array(J.widths()).tolist() == W, f"widths of {what}", rows, J.widths())
    want(int(J.size) == sum(W), f"size of {what}", rows, J.size)
    for i in range(n):
        want([float(x) for x in J[i]] == [float(x) for x in rows[i]], f"item {i} of {what}", rows, J[i])
    if n:
        want(bool(J.is_jagged()) == (len(set(W)) > 1), f"is_jagged of {what}", rows, J.is_jagged())
    s = J.shape
    want(int(s[0]) == n, f"shape of {what}", rows, s)
    if np.ndim(s[1]) == 0:
        want(len(set(W)) <= 1 and (not W or int(s[1]) == W[0]), f"shape of {what}", rows, s)
    else:
        want(np.array(s[1]).tolist() == W, f"shape of {what}", rows, s)
    typed = sum(W) > 0 or J.to_array().__class__ is np.ndarray
    F = [x for r in rows for x in r]
    if typed:
        f = np.array(J.flatten())
        want(f.ndim == 1 and f.tolist() == F, f"flat data of {what}", rows, f)
        c, f = J.flatten(return_cuts=True)
        want(np.array(c).tolist() == W and np.array(f).tolist() == F, f"flat data with cuts of {what}", rows, (c, f))
    A = J.to_ak()
    want(isinstance(A, ak.Array) and same_list(A.to_list(), rows), f"awkward form of {what}", rows, A)
    if n and typed:
        D = dense(rows)
        X = J.to_numpy()
        want(isinstance(X, np.ndarray) and X.shape == D.shape and np.array_equal(X, D), f"NumPy form of {what}", rows, X)
        if csr:
            check_csr(ctx, J.to_csr(), D, f"compressed rows of {what}", [list(range(w)) for w in W], compiled, rows)
            S = J.to_scipy()
            want(sp.issparse(S) and np.array_equal(S.toarray(), D), f"SciPy form of {what}", rows, S)
        if all(float(x).is_integer() for x in F) and F and not isinstance(F[0], float):
            u = np.array(J.unique())
            want(u.tolist() == sorted(set(F)), f"unique values of {what}", rows, u)
            u = np.array(np.unique(J))
            want(u.tolist() == sorted(set(F)), f"np.unique of {what}", rows, u)
            u, c = J.unique(return_counts=True)
            want(np.array(c).tolist() == [F.count(x) for x in sorted(set(F))], f"counts of {what}", rows, c)
    # asking changed nothing
    want(same_list(J.to_list(), rows), f"rows of {what} after conversions", rows, J.to_list())


CONV = {
    "list": lambda J: JaggedArray(J.to_list()),
    "listA": lambda J: JaggedArray(J.to_list(), force_numpy=False),
    "cuts": lambda J: (lambda c, f: JaggedArray(np.array(f), cuts=c))(*J.flatten(return_cuts=True)),
    "cutsA": lambda J: (lambda c, f: JaggedArray(np.array(f), cuts=list(c), force_numpy=False))(*J.flatten(return_cuts=True)),
    "ak": lambda J: JaggedArray(J.to_ak()),
    "akA": lambda J: JaggedArray(J.to_ak(), force_numpy=False),
    "array": lambda J: JaggedArray(J.to_array()),
    "wrap": lambda J: JaggedArray(wrap=J.to_array()),
    "vstack1": lambda J: np.vstack([J]),
    "concat1": lambda J: np.concatenate([J]),
    "double": lambda J: np.vstack([J, J]),
    "triple": lambda J: np.concatenate([J, J, J]),
}
MULT = {"double": 2, "triple": 3}


def k_build(ctx, p):
    """all ways of building, for one pattern"""
    rows = rows_of(p["pattern"], p["flavour"])
    for how in BUILD:
        for force in (None, True, False):
            J = build(how, rows, p["flavour"], force)
            if J is None:
                continue
            untyped = not sum(p["pattern"]) and how in ("list", "ak")
            check_ragged(ctx, J, rows, f"a ragged array built by {how}, force_numpy={force}", compiled=force is None and how in ("list", "cuts", "np"))
            ctx.state((how, force, str(rows)))
            ctx.outcome("built from " + how + (" (untyped)" if untyped else ""))
    ctx.trace()


def k_chain(ctx, p):
    """all chains of conversions up to a depth, breadth first"""
    rows = rows_of(p["pattern"], p["flavour"])
    front = []
    for how in ("list", "cuts", "ak", "np"):
        for force in (True, False):
            J = build(how, rows, p["flavour"], force)
            if J is not None:
                front.append((J, rows, [how + ("" if force else "A")]))
    seen = set()
    for d in range(p["depth"]):
        nxt = []
        for J, R, path in front:
            for name, f in CONV.items():
                ctx.beat()
                if len(R) * MULT.get(name, 1) > p["maxrows"]:
                    continue
                J2 = f(J)
                R2 = R * MULT.get(name, 1)
                check_ragged(ctx, J2, R2, f"a ragged array after {' > '.join(path + [name])}", csr=d < 2)
                want(same_list(J.to_list(), R), f"rows of the source after {' > '.join(path + [name])}", R, J.to_list())
                ctx.trace()
                arr = J2.to_array()
                key = (str(R2), type(arr).__name__, str(arr.dtype) if isinstance(arr, np.ndarray) else str(arr.type), str(getattr(arr, "flags", "")))
                ctx.state(key)
                if key not in seen:
                    seen.add(key)
                    nxt.append((J2, R2, path + [name]))
        ctx.deeper(d + 1)
        front = nxt


def k_stack(ctx, p):
    """stacking of two or three different patterns"""
    parts = [[[x + 100 * k for x in r] for r in rows_of(q, p["flavour"])] for k, q in enumerate(p["patterns"])]
    for hows in itertools.product(("list", "cuts", "np"), repeat=len(parts)):
        Js = [build(h, r, p["flavour"], f) for h, r, f in zip(hows, parts, (True, False, True))]
        if any(j is None for j in Js) or any(not sum(map(len, r)) and h == "list" for r, h in zip(parts, hows)):
            continue
        R = [r for q in parts for r in q]
        for name, f in (("vstack", np.vstack), ("concatenate", np.concatenate)):
            check_ragged(ctx, f(Js), R, f"{name} of {parts}", csr=False)
            check_ragged(ctx, f(tuple(Js)), R, f"{name} of a tuple {parts}", csr=False)
        for j, r in zip(Js, parts):
            want(same_list(j.to_list(), r), "operands of stacking changed", r, j.to_list())
        ctx.state((str(parts), hows))
        ctx.trace()


def k_csr(ctx, p):
    """all sparsity patterns of one shape, from every source"""
    n, m = p["shape"]
    for code in range(p["lo"], p["hi"]):
        ctx.beat()
        mask = np.array([(code >> k) & 1 for k in range(n * m)], dtype=bool).reshape(n, m)
        V = (np.arange(1, n * m + 1) * 3 % 7 - 3).reshape(n, m).astype(float)
        V[V == 0] = 5
        D = np.where(mask, V, 0.0)
        comp = code % p["comp"] == 0
        nz = [np.nonzero(mask[i])[0].tolist() for i in range(n)]
        for dt in (np.float64, np.int64, np.float32, np.int8):
            X = D.astype(dt)
            X0 = X.copy()
            check_csr(ctx, csr_matrix(X), D, f"csr_matrix of a dense {dt.__name__} array", compiled=comp and dt is np.float64)
            want(np.array_equal(X, X0), "dense source changed", D.tolist())
        check_csr(ctx, csr_matrix(np.asfortranarray(D)), D, "csr_matrix of a dense array in column order")
        check_csr(ctx, csr_matrix(np.ascontiguousarray(D.T).T), D, "csr_matrix of a transposed array")
        big = np.full((n + 1, 2 * m), 9.0)
        big[1:, ::2] = D
        check_csr(ctx, csr_matrix(big[1:, ::2]), D, "csr_matrix of a strided array")
        check_csr(ctx, csr_matrix(D[::-1, ::-1].copy()[::-1, ::-1]), D, "csr_matrix of a reversed view")
        for fmt in ("csr", "csc", "coo", "lil", "dok"):
            for mk in (sp.csr_matrix, sp.csr_array):
                S = mk(D).asformat(fmt)
                q = csr_matrix(S)
                check_csr(ctx, q, D, f"csr_matrix of a SciPy {fmt} matrix", nz, compiled=comp and fmt == "csc")
                want(np.array_equal(S.toarray(), D), "SciPy source changed", D.tolist())
        F = np.where(mask, np.resize(FINE, (n, m)), 0.0)  # values that must not be rounded
        check_csr(ctx, csr_matrix(F), F, "csr_matrix of a dense array of fine values")
        for fmt in ("csr", "coo"):
            check_csr(ctx, csr_matrix(sp.csr_matrix(F).asformat(fmt)), F, f"csr_matrix of a SciPy {fmt} matrix of fine values", nz)
        I = np.where(mask, np.resize([16777217, 2**31 + 5, -(2**40) - 1, 3], (n, m)), 0)
        check_csr(ctx, csr_matrix(I), I.astype(float), "csr_matrix of a dense array of large integers")
        check_csr(ctx, csr_matrix(sp.csr_matrix(I)), I.astype(float), "csr_matrix of a SciPy matrix of large integers", nz)
        # a SciPy matrix as it may come: explicit zeros, any order inside the rows, parts to be added up
        for how in ("zeros", "reversed", "parts"):
            ent = [[(c, D[i, c]) for c in range(m) if mask[i, c] or how == "zeros" and (i + c) % 2] for i in range(n)]
            if how == "reversed":
                ent = [r[::-1] for r in ent]
            if how == "parts":
                ent = [r + [(c, 2.0) for c, _ in r[:1]] + r[1:] for r in ent]
            ind = np.array([c for r in ent for c, _ in r], dtype=np.int32)
            dat = np.array([v for r in ent for _, v in r], dtype=float)
            ptr = np.cumsum([0] + [len(r) for r in ent]).astype(np.int32)
            X = np.zeros((n, m))
            for i, r in enumerate(ent):
                for c, v in r:
                    X[i, c] += v
            S = sp.csr_matrix((dat.copy(), ind.copy(), ptr.copy()), shape=(n, m))
            q = csr_matrix(S)
            check_csr(ctx, q, X, f"csr_matrix of a SciPy matrix ({how})", [[c for c, _ in r] for r in ent], False, [[v for _, v in r] for r in ent])
            q.to_scipy(), q.to_numpy(), [q.row(i) for i in range(n)]
            want(np.array_equal(S.data, dat) and np.array_equal(S.indices, ind) and np.array_equal(S.indptr, ptr), f"SciPy source ({how}) changed", X.tolist(), S)
        # raw data: sorted and reversed order inside the rows
        for rev in (False, True):
            order = [r[::-1] if rev else r for r in nz]
            ind = np.array([c for r in order for c in r], dtype=np.int64)
            ptr = np.cumsum([0] + [len(r) for r in order])
            dat = np.array([D[i, c] for i, r in enumerate(order) for c in r])
            rd = [[D[i, c] for c in r] for i, r in enumerate(order)]
            a = (dat.copy(), ind.copy(), ptr.copy())
            check_csr(ctx, csr_matrix(*a, (n, m)), D, "csr_matrix of raw data with shape", order, comp, rd)
            check_csr(ctx, csr_matrix(data=dat.astype(int), indices=ind.astype(np.int32), indptr=ptr.astype(np.int32), shape=(n, m)), D, "csr_matrix of raw integers with shape", order, False, rd)
            check_csr(ctx, csr_matrix(dat.tolist(), ind.tolist(), ptr.tolist(), (n, m)), D, "csr_matrix of raw lists with shape", order, False, rd)
            cols = int(ind.max()) + 1 if len(ind) else 0
            if cols:
                check_csr(ctx, csr_matrix(*a), D[:, :cols], "csr_matrix of raw data without shape", order, False, rd)
            want(all(np.array_equal(x, y) for x, y in zip(a, (dat, ind, ptr))), "raw source changed", D.tolist())
        # chains
        q = csr_matrix(D)
        check_csr(ctx, csr_matrix(q.to_scipy()), D, "csr_matrix through SciPy")
        check_csr(ctx, csr_matrix(q.to_numpy()), D, "csr_matrix through NumPy")
        check_csr(ctx, csr_matrix(csr_matrix(sp.csc_matrix(D).T).to_scipy().T), D, "csr_matrix through two transpositions", nz)
        ctx.state(("csr", n, m, code))
        ctx.trace()


def k_eye(ctx, p):
    for N in range(p["upto"]):
        check_csr(ctx, csr_matrix.eye(N), np.eye(N), f"eye({N})", [[i] for i in range(N)], compiled=N in (1, 2, 5))
        ctx.state(("eye", N))
        ctx.trace()


def k_large(ctx, p):
    """sizes beyond the thresholds of compiled and parallel code"""
    n = p["n"]
    pat = [(i * p["a"] + p["b"]) % p["m"] for i in range(n)]
    rows = rows_of(pat, "rep" if p["m"] > 1 else "int")
    for how in ("list", "cuts", "np"):
        J = build(how, rows, "rep", True)
        if J is not None and sum(pat):
            check_ragged(ctx, J, rows, f"{n} rows built by {how}")
    ctx.state(("large", n, p["m"], p["a"]))
    ctx.trace()


def k_sched(ctx, p):
    if not LAB:
        LAB.append(Lab())
    rows = rows_of(p["pattern"], "int")
    A = ak.Array(rows)
    ptr = np.cumsum([0] + [len(r) for r in rows]).astype(np.int32)
    run = {
        "count": lambda: [np.array(SU.count_cols(A))],
        "shape": lambda: [np.array(SU.get_shape_sp(ptr.copy()))],
        "ragged": lambda: [np.array(JaggedArray(A, force_numpy=False).widths())],
        "csr": lambda: [np.array(csr_matrix(A).shape)],
    }[p["what"]]
    explore(ctx, LAB[0], f"{p['what']} {p['pattern']}", run, lambda x, y: np.array_equal(x[0], y[0]), bound=p["bound"], limit=200000)


def k_mats(ctx, p):
    """a list of matrices is the list of these matrices"""
    shapes = [tuple(s) for s in p["shapes"]]
    M = [np.arange(1, a * b + 1).reshape(a, b) + 10 * k for k, (a, b) in enumerate(shapes)]
    J = JaggedArray([m.copy() for m in M])
    want(J.to_list() == [m.tolist() for m in M], "a ragged array of matrices", [m.tolist() for m in M], J.to_list())
    want(len(J) == len(M), "number of matrices", [m.tolist() for m in M], len(J))
    ctx.step()
    ctx.state(str(shapes))
    ctx.trace()


def k_parts(ctx, p):
    """the parts of a sparse matrix on and below (above) the diagonal"""
    n = p["n"]
    D0 = (np.arange(1, n * n + 1) * 1.5).reshape(n, n)
    for code in range(p["lo"], p["hi"]):
        mask = np.array([(code >> i) & 1 for i in range(n * n)], bool).reshape(n, n)
        M = sp.coo_matrix(D0 * mask)
        for order in (1, -1):
            d, r, c = M.data[::order], M.row[::order], M.col[::order]
            for f, ref_ in ((SU.lower_spdata, np.tril), (SU.upper_spdata, np.triu)):
                dd, rr, cc = f(d, r, c)
                got = sp.coo_matrix((dd, (rr, cc)), shape=(n, n)).toarray()
                want(np.array_equal(got, ref_(D0 * mask)), f.__name__, (D0 * mask).tolist(), got.tolist())
                ctx.step()
        ctx.state(("parts", n, code))
    ctx.trace()


KINDS = {"parts": k_parts, "build": k_build, "chain": k_chain, "stack": k_stack, "csr": k_csr, "eye": k_eye, "large": k_large, "sched": k_sched, "mats": k_mats}


def patterns(nmax, wmax):
    for n in range(0, nmax + 1):
        yield from itertools.product(range(wmax + 1), repeat=n)


def cases(tier):
    th = tier == "thorough"
    yield "eye", dict(upto=70)
    for n in (1, 2, 3):
        yield "parts", dict(n=n, lo=0, hi=2 ** (n * n))
    for w in ("count", "shape", "ragged", "csr"):
        for pat in ([0, 2], [2, 1], [1, 3, 0]) + (([3, 0, 2, 1],) if th else ()):
            yield "sched", dict(what=w, pattern=list(pat), bound=2 if len(pat) < 3 else 1)
    for pat in patterns(4 if th else 3, 3):
        for fl in ("rep", "float", "zero", "int") if th or len(pat) < 3 else ("rep", "float"):
            yield "build", dict(pattern=list(pat), flavour=fl)
    if not th:
        for pat in patterns(4, 2):
            if len(pat) == 4:
                yield "build", dict(pattern=list(pat), flavour="rep")
    for pat in patterns(3, 3) if th else patterns(3, 2):
        if sum(pat):
            yield "chain", dict(pattern=list(pat), flavour="rep", depth=4 if th else 2, maxrows=12 if th else 6)
    small = [q for q in patterns(2, 2) if len(q)]
    for a, b in itertools.product(small, repeat=2):
        yield "stack", dict(patterns=[list(a), list(b)], flavour="int")
    for a, b, c in itertools.product([(1,), (0, 2), (2, 2), (2, 1)], repeat=3):
        yield "stack", dict(patterns=[list(a), list(b), list(c)], flavour="rep")
    for n, m in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)) + (((3, 4), (4, 3)) if th else ()):
        T = 2 ** (n * m)
        for lo in range(0, T, 32):
            yield "csr", dict(shape=[n, m], lo=lo, hi=min(T, lo + 32), comp=1 if n * m < 7 else 5)
    for n in (8, 9, 63, 64, 65, 129, 1000) + ((5000,) if th else ()):
        for m, a, b in ((5, 3, 1), (2, 1, 0), (4, 0, 3), (7, 5, 0)):
            yield "large", dict(n=n, m=m, a=a, b=b)
    S = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2)]
    for k in (1, 2, 3):
        for c in itertools.product(S, repeat=k):
            yield "mats", dict(shapes=[list(x) for x in c])
