"""C19: fits minimize the weighted error: all unit data vectors (complete by linearity in the data)
over layouts x weights, against exact rational normal equations and difference quotients in exact
arithmetic; weight functions on grids with their kinks; all call orders on shared weight objects."""
import itertools
from fractions import Fraction as F

import numpy as np

from ..core import Violation
from .. import lsq
from sigmaepsilon.math.approx import (
    ConstantWeightFunction,
    CubicWeightFunction,
    SingularWeightFunction,
    least_squares,
    moving_least_squares,
    weighted_least_squares,
)

LOCALLY_CONSTANT = ("none", "const", "support")


def settled(P, deg, spec, core):
    """is the weighted problem well determined?"""
    E = lsq.monomials(len(P[0]), deg)
    w = np.array([float(lsq.weight(spec, lsq.frac(core), lsq.frac(p))) for p in P])
    X = np.array([[lsq.mono(e, [float(v) for v in p]) for e in E] for p in P]) * np.sqrt(w)[:, None]
    if X.shape[0] < X.shape[1]:
        return False
    s = np.linalg.svd(X, compute_uv=False)
    return s[-1] > 3e-3 * max(1.0, s[0])


def off_edges(P, spec, core):
    if spec[0] != "support":
        return True
    return all(abs(abs(a - b) - s) > 1e-3 for p in P for a, b, s in zip(p, core, spec[2]))


def compare(ctx, got, ref, order, dim, what, tol=1e-6):
    D = lsq.ORDER[dim]
    if not isinstance(got, tuple) or len(got) != len(D):
        raise Violation(f"{what}: returned {got!r}")
    for d, g, r in zip(D, got, ref):
        if sum(d) > order:
            if g is not None:
                raise Violation(f"{what}: a derivative {d} that was not asked for is {g}")
            continue
        if r is None:
            continue
        g = np.asarray(g, dtype=float)
        if g.shape != np.shape(r) or not np.all(np.abs(g - r) <= tol * max(1.0, np.max(np.abs(r)))):
            raise Violation(f"{what}: derivative {d} for the unit data vectors is {g.tolist()} instead of {np.asarray(r).tolist()}")
        ctx.step()


def expect(kind, P, deg, spec, core, x, order):
    dim = len(P[0])
    Pf = [lsq.frac(p) for p in P]
    xf = lsq.frac(x)
    D = lsq.ORDER[dim]
    if kind == "mls":
        if spec[0] in LOCALLY_CONSTANT:
            core, kind = x, "wls"
        elif spec[0] == "singular":
            r = lsq.shapes(Pf, deg, spec, xf, xf)
            return [np.array([float(v) for v in r])] + [None] * (len(D) - 1)
        else:
            return lsq.moving(Pf, deg, spec, xf, order)
    ds = [d for d in D if sum(d) <= (order if spec[0] in LOCALLY_CONSTANT else 0)]
    r = lsq.shapes(Pf, deg, spec, lsq.frac(core), xf, ds)
    out = [np.array([float(v) for v in col]) for col in r]
    return out + [None] * (len(D) - len(out))


def run(ctx, kind, P, deg, order, spec, core, xs, each=False):
    dim = len(P[0])
    A = lsq.arr(P)
    n = len(P)
    w = lsq.make_weight(spec, core)
    if kind != "mls" and not settled(P, deg, spec, core):
        return
    call = dict(ls=least_squares, wls=weighted_least_squares, mls=moving_least_squares)[kind]
    kw = {} if kind == "ls" else {"w": w}
    f = call(A, np.eye(n), deg=deg, order=order, **kw)
    for x in xs:
        ctx.beat()
        if kind == "mls" and not (settled(P, deg, spec, x) and off_edges(P, spec, x)):
            ctx.outcome("not determined there")
            continue
        what = f"{kind} fit of degree {deg}, order {order}, weight {spec} centred at {core}, samples {P}, at {x}"
        ref = expect(kind, P, deg, spec, core, x, order)
        got = f(lsq.at(x))
        compare(ctx, got, ref, order, dim, what)
        if each:
            for k in range(n):
                w = lsq.make_weight(spec, core)
                kw = {} if kind == "ls" else {"w": w}
                e = np.zeros(n)
                e[k] = 1.0
                g = call(A, e, deg=deg, order=order, **kw)(lsq.at(x))
                compare(ctx, g, [None if r is None else r[k : k + 1] for r in ref], order, dim, what + f" scalar unit data {k}")
        ctx.state((kind, deg, order, str(spec), str(core), str(P), str(x)))
        ctx.trace()


def weights(dim):
    W = [["none"], ["const", 2.5], ["support", 1.5, [2.5] * dim], ["support", 0.25, [2.5, 3.5, 4.5][:dim]], ["singular", 0.5], ["rational"]]
    if dim < 3:
        W += [["cubic", [4.0, 5.0][:dim]], ["cubic", [2.5, 2.25][:dim]], ["cubic", [7.0, 9.0][:dim]]]
    return W


def k_layout(ctx, p):
    dim = p["dim"]
    P = lsq.LAYOUTS[dim][p["layout"]]
    c = np.mean(P, axis=0).tolist()
    if max(np.max(np.abs(P)), 0) > 5:
        P = np.subtract(P, c).tolist()
        c = [0.25] * dim
    if not lsq.determines(P, p["deg"]):
        return
    xs = lsq.POINTS[dim][: (4 if dim < 3 else 2)] + [P[0]]
    run(ctx, p["kind"], P, p["deg"], p["order"], p["w"], c, xs, each=p["order"] == 2 and dim < 3)


def k_subsets(ctx, p):
    dim, deg = p["dim"], p["deg"]
    G = lsq.grid_points(dim, p["vals"])
    x = lsq.POINTS[dim][0]
    for mask in range(p["lo"], p["hi"]):
        P = [G[k] for k in range(len(G)) if mask >> k & 1]
        if not P or not lsq.determines(P, deg):
            continue
        run(ctx, "ls", P, deg, 2, ["none"], [0.0] * dim, [x])
        run(ctx, "wls", P, deg, 0, ["rational"], [0.5] * dim, [x])
        run(ctx, "mls", P, deg, 2, p["w"], [0.0] * dim, [x])


def k_weight(ctx, p):
    """value, gradient and Hessian of a weight function on a grid"""
    spec, dim = p["w"], p["dim"]
    core = p["core"]
    w = lsq.make_weight(spec, core)
    cf = lsq.frac(core)
    if spec[0] == "cubic":
        offs = [[F(s) * r for r in (F(0), F(1, 8), F(-1, 4), F(1, 2), F(-1, 2), F(3, 4), F(-7, 8), F(1), F(-1), F(5, 4), F(-3))] for s in spec[1]]
    elif spec[0] == "support":
        offs = [[F(s) * r for r in (F(0), F(1, 4), F(-1, 2), F(1), F(-1), F(9, 8), F(-3, 2))] for s in spec[2]]
    else:
        offs = [[F(v) for v in (0, 0.25, -0.5, 1, -2.5, 8)]] * dim
    h = F(1, 10**9)

    def W(c, x):
        return lsq.weight(spec, c, x)

    for off in itertools.product(*offs):
        x = [a + o for a, o in zip(cf, off)]
        xv = [float(v) for v in x]
        if [F(v) for v in xv] != x:
            x = [F(v) for v in xv]
        forms = [np.array(xv), list(xv), tuple(xv)] + ([xv[0]] if dim == 1 else [])
        val = float(W(cf, x))
        grad, hess = None, None
        if spec[0] in ("none", "const", "support"):
            grad, hess = np.zeros(dim), np.zeros((dim, dim))
        elif spec[0] == "cubic":
            e = np.eye(dim, dtype=int)
            sh = lambda i, j=None, a=1, b=1: [c + h * (a * int(e[i][k]) + (0 if j is None else b * int(e[j][k]))) for k, c in enumerate(cf)]
            grad = np.array([float((W(sh(i), x) - W(sh(i, a=-1), x)) / (2 * h)) for i in range(dim)])
            hess = np.zeros((dim, dim))
            for i in range(dim):
                for j in range(dim):
                    if i == j:
                        hess[i, i] = float((W(sh(i), x) - 2 * W(cf, x) + W(sh(i, a=-1), x)) / h**2)
                    else:
                        hess[i, j] = float((W(sh(i, j), x) - W(sh(i, j, 1, -1), x) - W(sh(i, j, -1, 1), x) + W(sh(i, j, -1, -1), x)) / (4 * h**2))
        for y in forms:
            for name in ("__call__", "f", "value"):
                v = getattr(w, name)(y)
                ctx.step()
                if not np.isclose(float(np.squeeze(v)), val, rtol=1e-9, atol=1e-12) or np.size(v) != 1:
                    raise Violation(f"weight {spec} centred at {core}: {name}({y!r}) is {v!r} instead of {val!r}")
            if grad is None:
                continue
            for name, r in (("g", grad), ("gradient", grad), ("G", hess), ("Hessian", hess)):
                v = np.asarray(getattr(w, name)(y), dtype=float)
                ctx.step()
                if v.shape != r.shape or not np.allclose(v, r, rtol=1e-6, atol=1e-6):
                    raise Violation(f"weight {spec} centred at {core}: {name}({y!r}) is {v.tolist()} instead of {r.tolist()}")
            ctx.trace()
        ctx.state((str(spec), str(core), str(xv)))


def k_move(ctx, p):
    """core and support changed along a history: the value follows"""
    dim = p["dim"]
    w = (CubicWeightFunction if p["name"] == "cubic" else ConstantWeightFunction)(core=[0.0] * dim, sd=[1.0] * dim, **({} if p["name"] == "cubic" else {"value": 3.0}))
    core, sd = [F(0)] * dim, [F(1)] * dim
    C = [[0.0] * dim, [1.0, -0.5][:dim], [0.25] * dim]
    S = [[1.0] * dim, [2.0, 4.0][:dim], [0.5, 1.5][:dim]]
    for op in p["seq"]:
        if op < 3:
            v = C[op]
            if p["form"] == "list":
                w.core = list(v)
            elif p["form"] == "number" and dim == 1:
                w.core = v[0]
            else:
                w.core = np.array(v)
            core = lsq.frac(v)
        else:
            v = S[op - 3]
            w.supportdomain = v if p["form"] == "list" else np.array(v)
            sd = lsq.frac(v)
        spec = ["cubic", sd] if p["name"] == "cubic" else ["support", 3.0, sd]
        for x in [[0.0] * dim, [0.5] * dim, [1.25, -0.75][:dim]]:
            ref = float(lsq.weight(spec, core, lsq.frac(x)))
            got = w(np.array(x))
            ctx.step()
            if not np.isclose(float(got), ref, rtol=1e-9, atol=1e-12):
                raise Violation(f"{p['name']} weight after {p['seq']}: value at {x} is {got!r} instead of {ref!r}")
            if not np.array_equal(np.asarray(w.core, float), [float(c) for c in core]):
                raise Violation(f"{p['name']} weight after {p['seq']}: core {w.core}")
    ctx.deeper(len(p["seq"]))
    ctx.state(str(p))
    ctx.trace()


def k_share(ctx, p):
    """fits sharing one weight object, made and evaluated in every order"""
    dim, spec = p["dim"], p["w"]
    lay = list(lsq.LAYOUTS[dim])
    P1, P2 = lsq.LAYOUTS[dim]["uneven" if dim == 1 else "scattered"], lsq.LAYOUTS[dim]["three" if dim == 1 else "grid"]
    w = lsq.make_weight(spec, [0.0] * dim)
    X = lsq.POINTS[dim]
    xs = [X[0], [0.6, 0.45][:dim]]
    fits = {}
    mk = lambda P, deg, order: moving_least_squares(lsq.arr(P), np.eye(len(P)), deg=deg, order=order, w=w)
    A = (P1, 1, 2, mk(P1, 1, 2))
    B = (P2, 2, 1, mk(P2, 2, 1))
    core = [0.0] * dim
    memo = {}

    def ref(kind, P, deg, c, x, order):
        k = (kind, str(P), deg, str(c), str(x), order)
        if k not in memo:
            memo[k] = expect(kind, P, deg, spec, c, x, order)
        return memo[k]

    stored = None
    for i, op in enumerate(p["seq"]):
        what = f"step {i} of {p['seq']} with shared weight {spec}"
        ctx.beat()
        if op in ("A0", "A1", "B0", "B1"):
            P, deg, order, f = A if op[0] == "A" else B
            x = xs[int(op[1])]
            if not settled(P, deg, spec, x):
                continue
            compare(ctx, f(lsq.at(x)), ref("mls", P, deg, x, x, order), order, dim, what)
        elif op == "make":   # a weighted fit centred at a set core
            c = [0.25, -0.25][:dim]
            w.core = np.array(c)
            if settled(P2, 1, spec, c):
                stored = (c, weighted_least_squares(lsq.arr(P2), np.eye(len(P2)), deg=1, order=0, w=w))
        elif op == "use" and stored is not None:
            c, f = stored
            for x in xs:
                compare(ctx, f(lsq.at(x)), ref("wls", P2, 1, c, x, 0), 0, dim, what)
        elif op == "plain":
            f = least_squares(lsq.arr(P1), np.eye(len(P1)), deg=1, order=1)
            compare(ctx, f(lsq.at(xs[0])), expect("wls", P1, 1, ["none"], [0.0] * dim, xs[0], 1), 1, dim, what)
        elif op == "core":
            w.core = np.array([5.0, -3.0][:dim])
    ctx.deeper(len(p["seq"]))
    ctx.state(str(p))
    ctx.trace()


def k_many(ctx, p):
    dim, n = p["dim"], p["n"]
    ks = np.arange(n)
    P = np.stack([np.floor(((ks * m) % q) * 64 / q) / 32 - 1 for m, q in ((1, n), (7, 101), (13, 89))][:dim], axis=1).tolist()
    x = lsq.POINTS[dim][0]
    dim = len(P[0])
    A = lsq.arr(P)
    V = np.stack([np.sin(3 * np.arange(n)), np.cos(np.arange(n) ** 2.0)], axis=1)
    spec = p["w"]
    call = dict(ls=least_squares, mls=moving_least_squares)[p["kind"]]
    f = call(A, V, deg=p["deg"], order=0, **({} if p["kind"] == "ls" else {"w": lsq.make_weight(spec, x)}))
    got = f(lsq.at(x))[0]
    E = lsq.monomials(dim, p["deg"])
    w = np.array([float(lsq.weight(spec, lsq.frac(x), lsq.frac(q))) for q in P])
    X = np.array([[lsq.mono(e, [float(v) for v in q]) for e in E] for q in P])
    sw = np.sqrt(w)[:, None]
    c = np.linalg.lstsq(X * sw, V * sw, rcond=None)[0]
    ref = np.array([lsq.mono(e, [float(v) for v in x]) for e in E]) @ c
    ctx.step()
    if got.shape != ref.shape or not np.allclose(got, ref, rtol=1e-6, atol=1e-7):
        raise Violation(f"{p}: {got} instead of {ref}")
    ctx.state(str(p))
    ctx.trace()


def k_near(ctx, p):
    """one moving fit asked at points that are close to each other or share coordinates, in every
    order of two and back, with fresh arrays, with one array written over, and with lists"""
    dim, spec, deg, order = p["dim"], p["w"], p["deg"], p["order"]
    P = lsq.LAYOUTS[dim]["uneven" if dim == 1 else "scattered" if deg == 1 else "grid"]
    a = [0.375, 0.25, -0.125][:dim]
    pts = [a]
    for k in range(dim):
        for h in (2.0**-3, 2.0**-17, 2.0**-20):
            b = list(a)
            b[k] += h
            pts.append(b)
    pts = [x for x in pts if settled(P, deg, spec, x) and off_edges(P, spec, x)]
    refs = [expect("mls", P, deg, spec, x, x, order) for x in pts]
    V = np.eye(len(P)) * 1.0
    f = moving_least_squares(lsq.arr(P), V, deg=deg, order=order, w=lsq.make_weight(spec, [0.0] * dim))
    buf = np.zeros(dim)
    for i, j in itertools.permutations(range(len(pts)), 2):
        for k in (i, j, i):
            ctx.beat()
            x = pts[k]
            if dim == 1:
                got = f(x[0])
            elif p["form"] == "buffer":
                buf[:] = x
                got = f(buf)
            else:
                got = f(list(x) if p["form"] == "list" else np.array(x))
            compare(ctx, got, refs[k], order, dim, f"{p}: asked at {pts[i]}, {pts[j]} and back, at {x}", 2e-8)
        ctx.state((str(p), i, j))
    ctx.deeper(3)
    ctx.trace()


KINDS = {"near": k_near, "layout": k_layout, "subsets": k_subsets, "weight": k_weight, "move": k_move, "share": k_share, "many": k_many}


def cases(tier):
    th = tier == "thorough"
    for dim in (1, 2, 3):
        for deg in (1, 2):
            for layout in lsq.LAYOUTS[dim]:
                for kind in ("ls", "wls", "mls"):
                    for w in weights(dim) if kind != "ls" else [["none"]]:
                        if dim == 3 and layout == "grid" and deg == 2 and w[0] == "rational" and not th and kind == "mls":
                            continue
                        for order in (0, 1, 2) if kind != "wls" else (0, 2):
                            if dim == 3 and order == 1 and not th:
                                continue
                            yield "layout", dict(dim=dim, deg=deg, layout=layout, kind=kind, w=w, order=order)
    for deg in (1, 2):
        yield "subsets", dict(dim=1, deg=deg, vals=[-1.0, 0.0, 0.5, 1.0, 2.0], lo=0, hi=32, w=["cubic", [4.0]])
        for lo in range(0, 512, 32):
            yield "subsets", dict(dim=2, deg=deg, vals=[-1.0, 0.0, 1.0], lo=lo, hi=lo + 32, w=["cubic", [4.0, 3.5]] if th or deg == 1 else ["const", 2.0])
    for lo in range(0, 256, 16):
        yield "subsets", dict(dim=3, deg=1, vals=[-1.0, 1.0], lo=lo, hi=lo + 16, w=["rational"] if th else ["const", 0.5])
    for dim in (1, 2, 3):
        for core in ([0.0] * dim, [0.25, -1.5, 2.0][:dim]):
            W = [["const", 1.0], ["const", -2.0], ["support", 2.0, [1.0, 0.5, 2.0][:dim]], ["singular", 0.25], ["singular", 1e-5]]
            if dim < 3:
                W += [["cubic", [1.0, 1.0][:dim]], ["cubic", [2.0, 0.5][:dim]]]
            for w in W:
                yield "weight", dict(dim=dim, core=core, w=w)
    for dim in (1, 2):
        for name in ("cubic", "support"):
            for form in ("array", "list", "number"):
                for seq in itertools.product(range(6), repeat=3 if th else 2):
                    yield "move", dict(dim=dim, name=name, form=form, seq=list(seq))
    ops = ["A0", "A1", "B0", "B1", "make", "use", "plain", "core"]
    for dim, w in ((1, ["cubic", [4.0]]), (1, ["support", 2.0, [2.6]]), (2, ["cubic", [4.0, 5.0]]), (2, ["rational"])):
        for n in (2, 3) if not th else (2, 3, 4):
            if dim == 2 and n > (3 if th else 2):
                continue
            for seq in itertools.product(ops, repeat=n):
                if "use" in seq and "make" not in seq:
                    continue
                yield "share", dict(dim=dim, w=w, seq=list(seq))
    for dim in (1, 2, 3):
        for form in ("array", "buffer", "list") if dim > 1 else ("array",):
            for w in (["rational"], ["singular", 0.5], ["support", 0.25, [2.5, 3.5, 4.5][:dim]]) + ((["cubic", [7.0, 9.0][:dim]],) if dim < 3 else ()):
                for deg, order in ((1, 0), (1, 2)) + (((2, 0),) if th or dim == 1 else ()):
                    yield "near", dict(dim=dim, form=form, w=w, deg=deg, order=order)
    for dim in (1, 2, 3):
        for n in (40, 250) + ((2000,) if th else ()):
            for deg in (1, 2):
                for kind, w in (("ls", ["none"]), ("mls", ["rational"]), ("mls", ["singular", 0.5])):
                    yield "many", dict(dim=dim, n=n, deg=deg, kind=kind, w=w)
