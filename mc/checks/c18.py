"""C18: polynomials are reproduced: every monomial of the degree (complete by linearity in the data),
all sample layouts (all determining subsets of small grids), weights, orders, ways of passing data."""
import itertools

import numpy as np

from ..core import Violation
from .. import lsq
from sigmaepsilon.math.approx import least_squares, moving_least_squares, weighted_least_squares


def compare(ctx, got, E, x, order, dim, cols, what, tol):
    """got: the library's tuple; the columns are the monomials E[cols]"""
    D = lsq.ORDER[dim]
    if not isinstance(got, tuple) or len(got) != len(D):
        raise Violation(f"{what}: returned {got!r}")
    for d, g in zip(D, got):
        if sum(d) > order:
            if g is not None:
                raise Violation(f"{what}: a derivative {d} that was not asked for is {g}")
            continue
        ref = np.array([lsq.mono(E[c], [float(v) for v in x], d) for c in cols])
        g = np.asarray(g, dtype=float)
        if g.shape != ref.shape:
            raise Violation(f"{what}: shape {g.shape} instead of {ref.shape}")
        scale = max(1.0, np.max(np.abs(ref)))
        if not np.all(np.abs(g - ref) <= tol * scale):
            k = int(np.argmax(np.abs(g - ref)))
            raise Violation(f"{what}: derivative {d} of the monomial {E[cols[k]]} at {x} is {g[k]!r} instead of {ref[k]!r}")
        ctx.step()


def fit(kind, P, V, deg, order, w):
    if kind == "ls":
        return least_squares(P, V, deg=deg, order=order)
    if kind == "wls":
        return weighted_least_squares(P, V, deg=deg, order=order, w=w)
    return moving_least_squares(P, V, deg=deg, order=order, w=w)


def check(ctx, kind, P, deg, order, spec, core, xs, pk="C", vk="all", xk="array", tol=1e-7):
    dim = len(P[0])
    E = lsq.monomials(dim, deg)
    A = lsq.arr(P, pk)
    V = np.array([[lsq.mono(e, p) for e in E] for p in P], dtype=float)
    if kind == "mls" and spec[0] in ("cubic", "support"):
        # the moving support must still determine the polynomial
        xs = [x for x in xs if lsq.determines([p for p in P if lsq.weight(spec, lsq.frac(x), lsq.frac(p)) > 0.01] or [[0.0] * dim], deg)]
    if kind == "wls" and spec[0] in ("cubic", "support"):
        if not lsq.determines([p for p in P if lsq.weight(spec, lsq.frac(core), lsq.frac(p)) > 0.01] or [[0.0] * dim], deg):
            return
    variants = {"all": [(V, list(range(len(E))))], "each": [(V[:, k].copy(), [k]) for k in range(len(E))],
                "column": [(V[:, k : k + 1].copy(), [k]) for k in range(len(E))],
                "F": [(np.asfortranarray(V), list(range(len(E))))],
                "int": [(V.astype(int), list(range(len(E))))],
                "list": [(V.tolist(), list(range(len(E))))]}[vk]
    for vals, cols in variants:
        w = lsq.make_weight(spec, core)
        before = (np.array(A, copy=True), np.array(vals, copy=True))
        what = f"{kind} fit of degree {deg}, order {order}, weight {spec}, samples {P} ({pk}, {vk})"
        f = fit(kind, A, vals, deg, order, w)
        for x in xs:
            y = lsq.at(x, xk)
            y0 = np.array(y, copy=True)
            compare(ctx, f(y), E, x, order, dim, cols, what, tol)
            if not np.array_equal(y0, np.asarray(y)):
                raise Violation(f"{what}: the evaluation point was changed to {y}")
            ctx.beat()
        if not np.array_equal(before[0], np.asarray(A)) or not np.array_equal(before[1], np.asarray(vals)):
            raise Violation(f"{what}: the data were changed")
    ctx.trace()


def weights(dim):
    sd = [6.0, 7.0, 8.0][:dim]
    W = [["none"], ["const", 2.5], ["support", 1.5, [20.0] * dim], ["singular", 0.5], ["rational"]]
    if dim < 3:
        W += [["cubic", [20.0] * dim], ["cubic", sd], ["cubic", [3.0, 4.0][:dim]]]
    W += [["support", 0.5, [2.5] * dim]]
    return W


def k_layout(ctx, p):
    dim, deg = p["dim"], p["deg"]
    P = lsq.LAYOUTS[dim][p["layout"]]
    c = np.mean(P, axis=0).tolist()
    if not lsq.determines(np.subtract(P, c).tolist(), deg):
        return
    xs = lsq.POINTS[dim] + [P[0], P[-1]]
    tol = 1e-7 * max(1.0, np.max(np.abs(P))) ** 2
    for kind in ("ls", "wls", "mls"):
        for spec in weights(dim) if kind != "ls" else [["none"]]:
            check(ctx, kind, P, deg, p["order"], spec, c, xs, tol=tol)
            ctx.state((p["layout"], dim, deg, kind, str(spec), p["order"]))


def k_subsets(ctx, p):
    """all determining subsets of a grid (a range of masks), in two orders"""
    dim, deg = p["dim"], p["deg"]
    G = lsq.grid_points(dim, p["vals"])
    xs = [lsq.POINTS[dim][0]]
    n = 0
    for mask in range(p["lo"], p["hi"]):
        P = [G[k] for k in range(len(G)) if mask >> k & 1]
        if not P or not lsq.determines(P, deg):
            continue
        n += 1
        for Q in (P, P[::-1], P[1:] + P[:1]):
            check(ctx, "ls", Q, deg, 2, ["none"], [0.0] * dim, xs, tol=1e-6)
        spec = ["cubic", [9.0, 8.0][:dim]] if dim < 3 else ["rational"]
        check(ctx, "mls", P, deg, 2, spec, [0.0] * dim, xs, tol=1e-6)
        ctx.state((dim, deg, mask, str(p["vals"])))
    ctx.outcome(f"determining subsets dim {dim} deg {deg}") if n else None


def k_orders(ctx, p):
    """every order of the samples"""
    P = lsq.LAYOUTS[p["dim"]][p["layout"]][: p["n"]]
    if not lsq.determines(P, p["deg"]):
        return
    for Q in itertools.permutations(P):
        check(ctx, "wls", list(Q), p["deg"], 2, p["w"], [0.0] * p["dim"], [lsq.POINTS[p["dim"]][0]])
        ctx.state((p["layout"], str(Q)))
    ctx.deeper(p["n"])


def k_forms(ctx, p):
    """every way of passing points, values and evaluation points"""
    dim = p["dim"]
    if p["pk"] in ("int",):
        P = [[round(v) for v in q] for q in lsq.LAYOUTS[dim]["grid" if dim > 1 else "three"]]
    else:
        P = lsq.LAYOUTS[dim]["grid" if dim > 1 else "uneven"]
    xs = [[1.0] * dim, [-2.0] * dim] if p["xk"] == "int" else lsq.POINTS[dim][:3]
    vk = p["vk"]
    if vk == "int" and any(v != int(v) for q in P for v in q):
        return
    for spec in (["none"], ["rational"]):
        check(ctx, p["kind"], P, p["deg"], p["order"], spec, [0.0] * dim, xs, p["pk"], vk, p["xk"], tol=1e-6 if p["pk"] != "f32" else 1e-4)
    ctx.state(str(p))


def k_many(ctx, p):
    """many samples"""
    dim, n, deg = p["dim"], p["n"], p["deg"]
    ks = np.arange(n)
    P = np.stack([((ks * m) % q) / q * 3 - 1 for m, q in ((1, n), (7, 101), (13, 89))][:dim], axis=1)
    P = P.tolist()
    check(ctx, p["kind"], P, deg, 2, p["w"], [0.0] * dim, lsq.POINTS[dim][:2], tol=1e-6)
    ctx.state(str(p))


def k_scaled(ctx, p):
    """small and large extents: the layout scaled about its centre"""
    dim, deg, s = p["dim"], p["deg"], p["s"]
    P = [[v * s for v in q] for q in lsq.LAYOUTS[dim]["grid" if dim > 1 else "uneven"]]
    xs = [[v * s for v in x] for x in lsq.POINTS[dim][:3]]
    E = lsq.monomials(dim, deg)
    V = np.array([[np.prod([(v / s) ** q for v, q in zip(pt, e)]) for e in E] for pt in P])
    f = fit(p["kind"], lsq.arr(P), V, deg, 2, None)
    for x in xs:
        got = f(lsq.at(x))
        for d, g in zip(lsq.ORDER[dim], got):
            ref = np.array([lsq.mono(e, [v / s for v in x], d) for e in E]) / s ** sum(d)
            if not np.all(np.abs(g - ref) <= 1e-6 * max(1.0, np.max(np.abs(ref)), s ** -sum(d))):
                raise Violation(f"{p}: derivative {d} at {x} is {g} instead of {ref}")
            ctx.step()
    ctx.state(str(p))
    ctx.trace()


KINDS = {"layout": k_layout, "subsets": k_subsets, "orders": k_orders, "forms": k_forms, "many": k_many, "scaled": k_scaled}


def cases(tier):
    th = tier == "thorough"
    for dim in (1, 2, 3):
        for deg in (1, 2):
            for layout in lsq.LAYOUTS[dim]:
                for order in (0, 1, 2):
                    yield "layout", dict(dim=dim, deg=deg, layout=layout, order=order)
    for deg in (1, 2):
        yield "subsets", dict(dim=1, deg=deg, vals=[-1.0, 0.0, 0.5, 1.0, 2.0], lo=0, hi=32)
        if th:
            yield "subsets", dict(dim=1, deg=deg, vals=[-1.5, -1.0, 0.0, 0.25, 0.5, 1.0, 2.0], lo=0, hi=128)
        for lo in range(0, 512, 32):
            yield "subsets", dict(dim=2, deg=deg, vals=[-1.0, 0.0, 1.0], lo=lo, hi=lo + 32)
            if th:
                yield "subsets", dict(dim=2, deg=deg, vals=[-1.0, 0.25, 2.0], lo=lo, hi=lo + 32)
    for lo in range(0, 256, 16):
        yield "subsets", dict(dim=3, deg=1, vals=[-1.0, 1.0], lo=lo, hi=lo + 16)
        if th:
            yield "subsets", dict(dim=3, deg=1, vals=[0.0, 1.5], lo=lo, hi=lo + 16)
    for w in (["none"], ["singular", 0.5]):
        for layout in ("uneven", "repeated") + (("shuffled",) if th else ()):
            for deg in (1, 2):
                yield "orders", dict(dim=1, deg=deg, layout=layout, n=5 if th else 4, w=w)
        yield "orders", dict(dim=2, deg=1, layout="scattered", n=4, w=w)
        yield "orders", dict(dim=3, deg=1, layout="lattice", n=5 if th else 4, w=w)
        if th:
            yield "orders", dict(dim=2, deg=2, layout="lattice", n=6, w=w)
    for dim in (1, 2, 3):
        for kind in ("ls", "wls", "mls"):
            for deg in (1, 2):
                for pk in ("C", "int", "f32", "F", "strided", "readonly", "list"):
                    yield "forms", dict(dim=dim, kind=kind, deg=deg, order=2, pk=pk, vk="all", xk="array")
                for vk in ("each", "column", "F", "int", "list"):
                    for order in (0, 1, 2):
                        yield "forms", dict(dim=dim, kind=kind, deg=deg, order=order, pk="int" if vk == "int" else "C", vk=vk, xk="array")
                for xk in ("list", "tuple", "int", "np"):
                    yield "forms", dict(dim=dim, kind=kind, deg=deg, order=2, pk="C", vk="all", xk=xk)
        for n in (50, 300) + ((1000, 3000) if th else ()):
            for kind, w in (("ls", ["none"]), ("wls", ["rational"]), ("mls", ["rational"])):
                for deg in (1, 2):
                    yield "many", dict(dim=dim, n=n, deg=deg, kind=kind, w=w)
        for s in (1e-3, 1e-1, 10.0, 1e3):
            for deg in (1, 2):
                for kind in ("ls", "mls"):
                    yield "scaled", dict(dim=dim, deg=deg, kind=kind, s=s)
