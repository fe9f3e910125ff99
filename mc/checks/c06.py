"""C06: collections behave as their items; parallel loops do not depend on the schedule."""
import numpy as np

from .. import ref
from ..core import Violation
from ..interleave import Lab, explore
from ..objs import FCLS
from .c02 import rotation
from sigmaepsilon.math.linalg import (
    CartesianFrame, RectangularFrame, ReferenceFrame, Tensor2, Tensor2x3, Tensor4, Tensor4x3, Vector,
)

NAMES = ["skew", "rot", "rect", "skewneg", "eye", "skewleft", "mirror"]
# kind -> class, rank, nested leading shape behind the items, keywords
K = {
    "v": (Vector, 1, (), {"bulk": True}),
    "t2": (Tensor2, 2, (), {"bulk": True}),
    "t4": (Tensor4, 4, (), {"bulk": True}),
    "t2x3": (Tensor2x3, 2, (), {}),
    "t2x3n": (Tensor2x3, 2, (3,), {}),
    "t2x3nn": (Tensor2x3, 2, (2, 2), {}),
    "t4x3": (Tensor4x3, 4, (), {}),
    "t4x3n": (Tensor4x3, 4, (2,), {}),
    "t4x3nn": (Tensor4x3, 4, (2, 2), {}),
}


def axes_of(dim, N, spec):
    """'skew' one frame; '*k' one frame per item starting from the k-th name"""
    A = ref.axes_alphabet(dim)
    if spec.startswith("*="):  # one frame per item, all of them equal
        return np.stack([A[spec[2:]]] * N) if N else np.zeros((0, dim, dim))
    if spec.startswith("*"):
        k = int(spec[1:])
        names = [n for n in NAMES if n in A]
        return np.stack([A[names[(i * 3 + k) % len(names)]] * (1 + 0.01 * (i % 5)) for i in range(N)]) if N else np.zeros((0, dim, dim))
    return A[spec]


def item_axes(A, i):
    return A if A.ndim == 2 else A[i]


def frame_for(dim, spec, A):
    if spec.startswith("*"):
        return ReferenceFrame(np.array(A))
    cls = {"!": None}.get(spec[0])
    return ReferenceFrame(np.array(A))


def amb_all(vals, A, r):
    """ambient components of a collection, item by item (vectorised over the rest)"""
    if vals.size == 0:
        return vals.copy()
    if A.ndim == 2:
        return ref.contract(vals, A.T, r)
    return np.stack([ref.contract(vals[i], A[i].T, r) for i in range(len(vals))])


def comp_all(amb, A, r):
    if amb.size == 0:
        return amb.copy()
    if A.ndim == 2:
        return ref.contract(amb, np.linalg.inv(A).T, r)
    return np.stack([ref.contract(amb[i], np.linalg.inv(A[i]).T, r) for i in range(len(amb))])


def mk(kind, vals, F):
    cls, r, lead, kw = K[kind]
    return cls(np.array(vals), frame=F, **kw)


def single(kind, val, A):
    """the item alone; nested items stay collections of their own"""
    cls, r, lead, kw = K[kind]
    if lead:
        return cls(np.array(val), frame=ReferenceFrame(np.array(A)))
    return cls(np.array(val), frame=ReferenceFrame(np.array(A)))


def values(kind, dim, N, seed, con=""):
    cls, r, lead, kw = K[kind]
    shape = (N,) + lead + (dim,) * r
    if N == 0:
        return np.zeros(shape)
    if con:  # contents with repetitions
        X = ref.mixed(shape, seed)
        if con == "same":
            X[:] = X[0].copy()
        elif con == "pairs":
            X = X[np.arange(N) // 2].copy()
        elif con == "period":
            X = X[np.arange(N) % 3 % N].copy()
        elif con == "zeros":
            X[1::2] = 0.0
        elif con == "ends":
            X[-1] = X[0]
        elif con == "ints":
            X = np.round(X)
        return X
    return ref.mixed(shape, seed) + 0.001 * np.arange(N).reshape((N,) + (1,) * (len(shape) - 1))


def picks(N):
    if N <= 8:
        return list(range(N))
    return sorted({0, 1, N // 2, N - 2, N - 1, 63 % N, 64 % N})


def expect(ctx, got, want, what, tol=1e-7):
    ctx.step()
    if not ref.close(np.asarray(got), want, tol):
        g, w = np.asarray(got), np.asarray(want)
        d = ""
        if g.shape == w.shape and g.size:
            bad = np.unravel_index(np.argmax(np.abs(g - w)), g.shape)
            d = f" (largest difference at {tuple(int(b) for b in bad)}: {g[bad]} instead of {w[bad]})"
        raise Violation(f"{what}: shape {g.shape} expected {w.shape}{d}")


def is_coll(ctx, t, kind, what):
    cls = K[kind][0]
    ctx.check(isinstance(t, cls), "%s: class %s", what, type(t).__name__)
    ctx.check(t.is_bulk() is True or t.is_bulk() == True, "%s: no longer reports to be a collection", what)  # noqa
    ctx.check(t.rank == K[kind][1], "%s: rank %s", what, t.rank)


def k_ops(ctx, p):
    import numba

    numba.set_num_threads(p.get("threads", 2))
    kind, dim, N = p["kind"], p["dim"], p["N"]
    cls, r, lead, kw = K[kind]
    S, T = axes_of(dim, N, p["S"]), axes_of(dim, N, p["T"])
    U = axes_of(dim, N, "skewneg" if dim < 4 else "rect")
    if N == 0 and (p["S"].startswith("*") or p["T"].startswith("*")):
        return
    vals, vals2 = values(kind, dim, N, 1, p.get("con", "")), values(kind, dim, N, 2, p.get("con", ""))
    amb, amb2 = amb_all(vals, S, r), amb_all(vals2, T, r)
    w = f"{p}"
    F = ReferenceFrame(np.array(S))
    G = ReferenceFrame(np.array(T))
    t = mk(kind, vals, F)
    u = mk(kind, vals2, G)
    is_coll(ctx, t, kind, w)
    ctx.check(len(t.array) == N, "%s: %s items", w, len(t.array))
    # showing
    expect(ctx, t.show(), amb, f"{w}: ambient components")
    expect(ctx, t.show(G), comp_all(amb, T, r), f"{w}: components in the other frame")
    expect(ctx, t.show(F), vals, f"{w}: components in its own frame")
    expect(ctx, t.show(ReferenceFrame(np.array(U))), comp_all(amb, U, r), f"{w}: components in a common frame")
    # arithmetic
    for name, f, want in (
        ("sum", lambda: t + u, amb + amb2),
        ("difference", lambda: t - u, amb - amb2),
        ("negative", lambda: -t, -amb),
        ("multiple", lambda: t * 2.5, 2.5 * amb),
        ("quotient", lambda: t / 2.0, amb / 2.0),
        ("copy", lambda: t.copy(), amb),
        ("deep copy", lambda: t.deepcopy(), amb),
        ("dual", lambda: t.dual(), amb),
    ):
        x = f()
        is_coll(ctx, x, kind, f"{w}: {name}")
        expect(ctx, x.show(), want, f"{w}: {name}")
        expect(ctx, t.array, vals, f"{w}: operand of {name}", 0)
        if name == "dual" and N:
            Ginv = np.linalg.inv(S)
            expect(ctx, x.array, comp_all(amb, np.swapaxes(Ginv, -1, -2), r), f"{w}: components in the dual frame")
    # rotation: of each item's components
    R, args = rotation(["Space", [0.3, -0.5, 0.9], "XYZ"])
    if dim == 3:
        want = ref.contract(vals, R.T, r) if N else vals
        x = t.orient_new(*args)
        is_coll(ctx, x, kind, f"{w}: rotated")
        expect(ctx, x.array, want, f"{w}: rotated")
        y = t.copy()
        z = y.orient(*args)
        ctx.check(z is y, "%s: rotation in place returned another object", w)
        expect(ctx, y.array, want, f"{w}: rotated in place")
    # transposition of second-order tensors
    if r == 2:
        x = t.T
        is_coll(ctx, x, kind, f"{w}: transposed")
        expect(ctx, x.array, np.swapaxes(vals, -1, -2), f"{w}: transposed")
        y = t.copy()
        y.transpose(inplace=True)
        expect(ctx, y.array, np.swapaxes(vals, -1, -2), f"{w}: transposed in place")
    # items alone
    for i in picks(N):
        s = single(kind, vals[i], item_axes(S, i))
        Gi = ReferenceFrame(np.array(item_axes(T, i)))
        v = single(kind, vals2[i], item_axes(T, i))
        expect(ctx, np.asarray(t.show())[i], s.show(), f"{w}: item {i} ambient")
        expect(ctx, np.asarray(t.show(G))[i], s.show(Gi), f"{w}: item {i} shown")
        expect(ctx, np.asarray((t + u).array)[i], (s + v).array, f"{w}: item {i} of the sum")
        expect(ctx, np.asarray((t - u).array)[i], (s - v).array, f"{w}: item {i} of the difference")
        expect(ctx, np.asarray(t.dual().array)[i], s.dual().array, f"{w}: item {i} of the dual")
        if dim == 3:
            expect(ctx, np.asarray(t.orient_new(*args).array)[i], s.orient_new(*args).array, f"{w}: item {i} rotated")
    # in place: sum, scaling, frame, axes
    y = mk(kind, vals, F)
    y += u
    is_coll(ctx, y, kind, f"{w}: sum in place")
    expect(ctx, y.show(), amb + amb2, f"{w}: sum in place")
    y -= u
    y *= 3.0
    y /= 1.5
    expect(ctx, y.show(), 2 * amb, f"{w}: scaled in place")
    y.frame = G
    is_coll(ctx, y, kind, f"{w}: moved")
    expect(ctx, y.array, comp_all(2 * amb, T, r), f"{w}: moved to the other frame")
    y.frame = np.array(U)
    expect(ctx, y.array, comp_all(2 * amb, U, r), f"{w}: moved to given axes")
    a0 = np.array(t.array)
    if S.shape == T.shape:
        F.axes = np.array(T)
        is_coll(ctx, t, kind, f"{w}: after a change of axes")
        expect(ctx, t.array, comp_all(amb, T, r), f"{w}: after a change of the axes")
        expect(ctx, t.show(), amb, f"{w}: ambient after a change of the axes")
        F.axes = np.array(S)
        expect(ctx, t.array, a0, f"{w}: axes changed back")
    expect(ctx, u.array, vals2, f"{w}: the other collection", 0)
    ctx.state((kind, dim, N, p["S"], p["T"], p.get("threads", 2), p.get("con")))
    ctx.outcome("collection")
    ctx.trace()


def k_threads(ctx, p):
    """identical results for every number of threads"""
    import numba

    kind, dim, N = p["kind"], p["dim"], p["N"]
    cls, r, lead, kw = K[kind]
    S, T = axes_of(dim, N, p["S"]), axes_of(dim, N, p["T"])
    vals = values(kind, dim, N, 1, p.get("con", ""))
    want = comp_all(amb_all(vals, S, r), T, r)
    for rep in range(p.get("rep", 2)):
        for n in (1, 2, 3, 5, 8):
            numba.set_num_threads(min(n, numba.config.NUMBA_NUM_THREADS))
            F, G = ReferenceFrame(np.array(S)), ReferenceFrame(np.array(T))
            t = mk(kind, vals, F)
            expect(ctx, t.show(G), want, f"{p} with {n} threads")
            t.frame = G
            expect(ctx, t.array, want, f"{p} moved with {n} threads")
            ctx.state((kind, N, p["S"], p["T"], n))
            ctx.trace()


LAB = []


def lab():
    if not LAB:
        LAB.append(Lab())
    return LAB[0]


def same(a, b):
    return len(a) == len(b) and all(ref.close(x, y, 1e-9) for x, y in zip(a, b))


def k_sched(ctx, p):
    """every schedule of the parallel loops behind one operation"""
    kind, dim, N, op = p["kind"], p["dim"], p["N"], p["op"]
    cls, r, lead, kw = K[kind]
    S, T = axes_of(dim, N, p["S"]), axes_of(dim, N, p["T"])
    vals, vals2 = values(kind, dim, N, 1, p.get("con", "")), values(kind, dim, N, 2, p.get("con", ""))
    _, args = rotation(["Space", [0.3, -0.5, 0.9], "XYZ"])
    amb = amb_all(vals, S, r)
    L = lab()

    def run():
        F, G = ReferenceFrame(np.array(S)), ReferenceFrame(np.array(T))
        t = mk(kind, vals, F)
        if op == "show":
            return [np.array(t.show(G))]
        if op == "ambient":
            return [np.array(t.show())]
        if op == "move":
            t.frame = G
            return [np.array(t.array)]
        if op == "axes":
            F.axes = np.array(T)
            return [np.array(t.array)]
        if op == "dual":
            x = t.dual()
            return [np.array(x.array), np.array(x.frame.axes)]
        if op == "orient":
            return [np.array(t.orient_new(*args).array)]
        if op == "add":
            return [np.array((t + mk(kind, vals2, G)).array)]
        raise KeyError(op)

    n = explore(ctx, L, f"{op} of {kind} N={N} {p['S']}->{p['T']}", run, same, bound=p["bound"], limit=p.get("limit", 20000))
    ctx.outcome("schedules" if n else "no schedules")


KINDS = {"ops": k_ops, "threads": k_threads, "sched": k_sched}


def cases(tier):
    th = tier == "thorough"
    # one item per kind first, so that every kernel is compiled early
    sizes = {
        1: [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025],
        2: [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 1000, 1025],
        4: [0, 1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 129],
    }
    frames = [("skew", "rect"), ("rot", "skewneg"), ("skew", "*0"), ("*0", "skew"), ("*1", "*2"), ("*0", "*0")]
    for kind, (cls, r, lead, kw) in K.items():
        dims = (3,) if cls in (Tensor2x3, Tensor4x3) else ((2, 3, 4) if r < 4 else (2, 3))
        for dim in dims:
            for N in sizes[r]:
                if lead and N > 129 and not th:
                    continue
                if r == 4 and (dim == 2 or lead) and N > 33 and not th:
                    continue
                if dim == 4 and N > 33:
                    continue
                for S, T in frames:
                    if dim == 4 and ("skewneg" in (S, T) or S[0] == "*" or T[0] == "*" ):
                        continue
                    if N > 129 and (S, T) in (("rot", "skewneg"), ("*0", "*0")) and not th:
                        continue
                    yield "ops", dict(kind=kind, dim=dim, N=N, S=S, T=T)
    for kind in K:
        for con in ("same", "pairs", "period", "zeros", "ends", "ints"):
            for N in (2, 3, 5, 9, 33, 129) if K[kind][1] < 4 else (2, 3, 5, 17):
                for S, T in (("skew", "rect"), ("*1", "*2"), ("*=skew", "*=rect")):
                    if N in (3, 9) and S == "skew":
                        continue
                    yield "ops", dict(kind=kind, dim=3, N=N, S=S, T=T, con=con, threads=8 if N > 8 else 2)
            for op in ("show", "dual", "orient"):
                for S, T in (("skew", "rect"), ("*=skew", "*=rect")):
                    if con in ("same", "zeros", "pairs"):
                        yield "sched", dict(kind=kind, dim=3, N=2, S=S, T=T, op=op, bound=2, limit=200000, con=con)
                        if con == "same" and not K[kind][2]:
                            yield "sched", dict(kind=kind, dim=3, N=3, S=S, T=T, op=op, bound=1, limit=200000, con=con)
        for N in (1, 2, 3, 7, 8, 9, 17, 64, 129) + ((1000,) if K[kind][1] < 4 else ()):
            for S, T in (("skew", "rect"), ("*0", "skew"), ("*1", "*2")):
                yield "threads", dict(kind=kind, dim=3, N=N, S=S, T=T, rep=4 if th else 1)
    for kind in K:
        cls, r, lead, kw = K[kind]
        for op in ("show", "ambient", "move", "axes", "dual", "orient", "add"):
            for S, T in (("skew", "rect"), ("skew", "*0"), ("*0", "skew"), ("*1", "*2")):
                if op == "axes" and (S[0] == "*") != (T[0] == "*"):
                    continue
                for N, bound in ((2, 2), (3, 1)) if not th else ((2, 3), (3, 2), (4, 1)):
                    if lead and N > 2:
                        bound = 1
                    if lead and N > 3:
                        continue
                    yield "sched", dict(kind=kind, dim=3, N=N, S=S, T=T, op=op, bound=bound, limit=200000)
