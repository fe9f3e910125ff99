"""C03: tensor algebra over all pairs of operand frames and all result frames."""
import itertools

import numpy as np

from .. import ref
from ..core import Violation
from ..objs import CON, FCLS, TK, comp_array, make_frame, make_tensor, rank_of, unit_of
from .c02 import RELATED, SCALED, ax, expect, frame
from sigmaepsilon.math.linalg import ReferenceFrame, Tensor, Tensor2, Vector, cross, dot


class Op:
    """an operand: the object, its ambient value and what must stay as it is"""

    def __init__(self, kind, dim, fspec, seed, F=None, A=None, con=None):
        if F is None:
            F, A = frame(dim, fspec)
        self.F, self.A, self.kind = F, A, kind
        self.c = comp_array(kind, dim, seed, con)
        self.r = rank_of(kind)
        self.t = make_tensor(kind, F, self.c)
        self.amb = ref.ambient(self.c, A, self.r)

    def same(self, what):
        if not (np.array_equal(np.array(self.t.array), self.c) and self.t.frame is self.F):
            raise Violation(f"{what}: an operand changed")
        if not np.array_equal(np.array(self.F.axes), self.A):
            raise Violation(f"{what}: the frame of an operand changed")


def result_ok(ctx, res, amb, rank, what, cls=None, fr=None, floor=1.0):
    """floor: the magnitude rounding errors are measured by, in ambient components"""
    ctx.step()
    if cls is not None and not isinstance(res, cls):
        raise Violation(f"{what}: result is a {type(res).__name__}")
    if fr is not None and res.frame is not fr:
        raise Violation(f"{what}: the result is not in the frame asked for")
    want = ref.components(amb, np.array(res.frame.axes), rank)
    if not ref.close(np.array(res.array), want, 1e-7, floor * float(np.max(np.abs(np.linalg.inv(res.frame.axes)))) ** rank):
        raise Violation(f"{what}: components\n{np.array(res.array)}\nexpected\n{want}")
    if not ref.close(res.show(), amb, 1e-7, floor):
        raise Violation(f"{what}: ambient components\n{res.show()}\nexpected\n{amb}")


def k_linear(ctx, p):
    """sums, differences, scaling, negation, comparison of two tensors of one kind"""
    dim, kind = p["dim"], p["kind"]
    shared = p["f"] == "same"
    con = p.get("con") or [None, None]
    a = Op(kind, dim, p["e"], 0, con=con[0])
    b = Op(kind, dim, None, 1, a.F, a.A, con=con[1]) if shared else Op(kind, dim, p["f"], 1, con=con[1])
    fl = max(float(np.max(np.abs(a.amb))), float(np.max(np.abs(b.amb)))) or 1.0
    r, cls = a.r, TK[kind][0]
    w = str(p)
    result_ok(ctx, a.t + b.t, a.amb + b.amb, r, w + " sum", cls, floor=fl)
    result_ok(ctx, a.t - b.t, a.amb - b.amb, r, w + " difference", cls, floor=fl)
    result_ok(ctx, b.t - a.t, b.amb - a.amb, r, w + " difference", cls, floor=fl)
    result_ok(ctx, -a.t, -a.amb, r, w + " negation", cls, floor=fl)
    result_ok(ctx, np.negative(b.t), -b.amb, r, w + " negation", cls, floor=fl)
    for s in (2, -0.5, np.float64(3.0)):
        result_ok(ctx, a.t * s, a.amb * s, r, w + f" times {s}", cls, floor=fl)
        result_ok(ctx, a.t / s, a.amb / s, r, w + f" over {s}", cls, floor=fl)
    # associativity mixes three frames
    c = Op(kind, dim, p["e"], 2, con=con[0])
    result_ok(ctx, (a.t + b.t) - c.t, a.amb + b.amb - c.amb, r, w + " a+b-c", cls, floor=fl)
    result_ok(ctx, a.t + (b.t - c.t), a.amb + b.amb - c.amb, r, w + " a+(b-c)", cls, floor=fl)
    result_ok(ctx, a.t - a.t, 0 * a.amb, r, w + " a-a", cls, floor=fl)
    # comparison is that of the objects
    same = make_tensor(kind, b.F, ref.components(a.amb, b.A, r))
    for fn, red in ((np.allclose, bool), (np.isclose, np.all)):
        ctx.check(bool(red(fn(a.t, same, atol=1e-8 * max(1.0, fl)))), "%s: equal objects compare different", w)
        if np.allclose(a.amb, b.amb):
            continue
        ctx.check(not bool(red(fn(a.t, b.t))), "%s: different objects compare equal", w)
    d = a.amb + 1e-3 * fl
    near = make_tensor(kind, b.F, ref.components(d, b.A, r))
    ctx.check(bool(np.allclose(a.t, near)) == bool(np.allclose(a.amb, d)), "%s: objects 1e-3 apart compare equal", w)
    ctx.check(np.allclose(a.t, near, atol=1e-2 * fl), "%s: objects 1e-3 apart differ with atol=1e-2", w)
    ctx.check(np.array(np.isclose(a.t, near)).shape == a.amb.shape, "%s: shape of the comparison", w)
    for o in (a, b, c):
        o.same(w)
    # in place
    u = make_tensor(kind, a.F, a.c)
    u0 = u
    u += b.t
    result_ok(ctx, u, a.amb + b.amb, r, w + " in-place sum", cls, a.F, fl)
    u -= b.t
    result_ok(ctx, u, a.amb, r, w + " in-place difference", cls, a.F, fl)
    u *= -3.0
    result_ok(ctx, u, -3.0 * a.amb, r, w + " in-place scaling", cls, a.F, fl)
    u /= 4
    result_ok(ctx, u, -0.75 * a.amb, r, w + " in-place division", cls, a.F, fl)
    ctx.check(u is u0, "%s: in-place operator returned another object", w)
    u += u
    result_ok(ctx, u, -1.5 * a.amb, r, w + " u += u", cls, a.F, fl)
    c1 = np.array(u.array)
    u += 2.0
    expect(ctx, np.array(u.array), c1 + 2.0, w + " in-place sum with a number")
    u -= 3.0
    expect(ctx, np.array(u.array), c1 - 1.0, w + " in-place difference with a number")
    u -= u
    result_ok(ctx, u, 0 * a.amb, r, w + " u -= u", cls, a.F, max(fl, 10.0))
    for o in (a, b, c):
        o.same(w)
    ctx.state(("lin", dim, kind, p["e"], p["f"], str(con)))
    ctx.trace()


def ref_dot(a, b, ra, rb):
    return a @ b


def ref_contract(a, b, i, j):
    n = a.ndim
    out = np.tensordot(a, b, axes=([i], [j]))
    return out


def k_dot(ctx, p):
    dim = p["dim"]
    ka, kb = p["k"]
    con = p.get("con") or [None, None]
    a = Op(ka, dim, p["e"], 0, con=con[0])
    b = Op(kb, dim, None, 1, a.F, a.A, con=con[1]) if p["f"] == "same" else Op(kb, dim, p["f"], 1, con=con[1])
    fl = (float(np.max(np.abs(a.amb))) * float(np.max(np.abs(b.amb)))) or 1.0
    w = str(p)
    general = a.r > 2 or b.r > 2
    axes_list = [None]
    if general:
        axes_list = [(i, j) for i in range(a.r) for j in range(b.r)]
    for axes in axes_list:
        want = ref_contract(a.amb, b.amb, *axes) if general else a.amb @ b.amb
        kw = dict(axes=axes) if general else {}
        for fn in (dot, np.dot):
            if fn is np.dot and general:
                continue
            res = fn(a.t, b.t, **kw)
            if a.r == 1 and b.r == 1:
                ctx.step()
                ctx.check(np.ndim(res) == 0, "%s: the product of two vectors is no number", w)
                ctx.check(ref.close(float(res), float(want), 1e-8, fl), "%s: dot %s, expected %s", w, res, want)
                continue
            result_ok(ctx, res, want, np.ndim(want), w + f" dot {axes}", floor=fl)
            ctx.check(res.rank == np.ndim(want), "%s: rank of the product", w)
        if not (a.r == 1 and b.r == 1):
            for g in p["g"]:
                G, B = frame(dim, g)
                res = dot(a.t, b.t, frame=G, **kw)
                result_ok(ctx, res, want, np.ndim(want), w + f" dot {axes} in {g}", None, G, fl)
                ctx.check(np.array_equal(np.array(G.axes), B), "%s: result frame changed", w)
        ctx.state(("dot", dim, ka, kb, p["e"], p["f"], axes, str(con)))
    if general:
        try:
            dot(a.t, b.t)
        except Exception:
            pass
        else:
            raise Violation(f"{w}: a general product without axes was not refused")
    a.same(w)
    b.same(w)
    ctx.trace()


def k_cross(ctx, p):
    ka, kb = p["k"]
    con = p.get("con") or [None, None]
    a = Op(ka, 3, p["e"], 0, con=con[0])
    b = Op(kb, 3, None, 1, a.F, a.A, con=con[1]) if p["f"] == "same" else Op(kb, 3, p["f"], 1, con=con[1])
    fl = (float(np.max(np.abs(a.amb))) * float(np.max(np.abs(b.amb)))) or 1.0
    w = str(p)
    eps = np.zeros((3, 3, 3))
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        eps[i, j, k], eps[i, k, j] = 1, -1
    if a.r == 1 and b.r == 1:
        want = np.einsum("ijk,j,k->i", eps, a.amb, b.amb)
    elif a.r == 2:
        want = np.einsum("ijk,jm,k->im", eps, a.amb, b.amb)
    else:
        want = np.einsum("ijk,j,km->im", eps, a.amb, b.amb)
    for fn in (cross, np.cross):
        result_ok(ctx, fn(a.t, b.t), want, want.ndim, w + " cross", floor=fl)
    for g in p["g"]:
        G, B = frame(3, g)
        result_ok(ctx, cross(a.t, b.t, frame=G), want, want.ndim, w + f" cross in {g}", None, G, fl)
    if a.r == 1 and b.r == 1:
        result_ok(ctx, cross(b.t, a.t), -want, 1, w + " anticommutation", floor=fl)
        ctx.check(abs(dot(cross(a.t, b.t), a.t)) <= 1e-7 * fl * float(np.max(np.abs(a.amb))), "%s: the cross product is not perpendicular", w)
        result_ok(ctx, cross(a.t, a.t), 0 * want, 1, w + " with itself", floor=fl)
    a.same(w)
    b.same(w)
    ctx.state(("cross", ka, kb, p["e"], p["f"], str(con)))
    ctx.trace()


def k_bulkdot(ctx, p):
    """a second-order tensor times a collection of vectors"""
    dim = p["dim"]
    a = Op("t2", dim, p["e"], 0)
    b = Op(p["kind"], dim, p["f"], 1)
    want = b.amb @ a.amb.T
    res = dot(a.t, b.t)
    result_ok(ctx, res, want, 1, f"{p} product with a collection")
    a.same(str(p))
    b.same(str(p))
    ctx.state(("bulkdot", dim, p["kind"], p["e"], p["f"]))
    ctx.trace()


def refused(ctx, what, fn):
    ctx.step()
    try:
        r = fn()
    except Exception as e:
        ctx.outcome("refused: " + type(e).__name__)
        return
    raise Violation(f"{what} was not refused, gave {r!r}")


def k_refuse(ctx, p):
    e = p["e"]
    v3, v2 = Op("v", 3, e, 0), Op("v", 2, "skew", 1)
    t2, t4, g3 = Op("t2", 3, e, 0), Op("t4", 3, e, 1), Op("g3", 3, e, 2)
    vb2, vb5 = Op("vb", 3, e, 0), Op("vb5", 3, e, 1)
    t22 = Op("t2", 2, "rot", 0)
    g2 = Op("g2", 3, e, 0)

    def ip(f):
        def run():
            return f()
        return run

    def iadd(a, b):
        a += b
        return a

    def isub(a, b):
        a -= b
        return a

    def imul(a, b):
        a *= b
        return a

    def idiv(a, b):
        a /= b
        return a

    L = [
        ("sum of 3-d and 2-d vectors", lambda: v3.t + v2.t),
        ("difference of 3-d and 2-d vectors", lambda: v3.t - v2.t),
        ("in-place sum of 3-d and 2-d vectors", lambda: iadd(v3.t, v2.t)),
        ("in-place difference of 3-d and 2-d vectors", lambda: isub(v3.t, v2.t)),
        ("sum of collections of different size", lambda: vb2.t + vb5.t),
        ("difference of collections of different size", lambda: vb2.t - vb5.t),
        ("in-place sum of collections of different size", lambda: iadd(vb2.t, vb5.t)),
        ("sum of a vector and a tensor", lambda: v3.t + t2.t),
        ("difference of a tensor and a vector", lambda: t2.t - v3.t),
        ("sum of second and fourth order", lambda: t2.t + t4.t),
        ("in-place sum of second and fourth order", lambda: iadd(t2.t, t4.t)),
        ("sum of 3-d and 2-d tensors", lambda: t2.t + t22.t),
        ("sum of a tensor and a number", lambda: t2.t + 1.0),
        ("sum of a vector and an array", lambda: v3.t + np.ones(3)),
        ("difference of a vector and a list", lambda: v3.t - [1, 2, 3]),
        ("vector times vector", lambda: v3.t * v3.t),
        ("vector times array", lambda: v3.t * np.ones(3)),
        ("vector over vector", lambda: v3.t / v3.t),
        ("in-place vector times vector", lambda: imul(v3.t, v3.t)),
        ("in-place vector over array", lambda: idiv(v3.t, np.ones(3))),
        ("matrix operator on tensors", lambda: t2.t @ v3.t),
        ("matrix operator on vectors", lambda: v3.t @ v3.t),
        ("power of a tensor", lambda: t2.t**2),
        ("sine of a vector", lambda: np.sin(v3.t)),
        ("universal sum of vectors", lambda: np.add(v3.t, v3.t)),
        ("square root of a tensor", lambda: np.sqrt(t2.t)),
        ("trace of a tensor by NumPy", lambda: np.trace(t2.t)),
        ("negation with an output", lambda: np.negative(v3.t, out=v3.t)),
        ("dot with an output array", lambda: dot(v3.t, v3.t, out=np.zeros(3))),
        ("dot with a frame and arrays", lambda: dot(np.ones(3), np.ones(3), frame=v3.F)),
        ("dot of a vector and an array", lambda: np.dot(v3.t, np.ones(3))),
        ("dot of a vector and a number", lambda: dot(v3.t, 2.0)),
        ("cross of two tensors", lambda: cross(t2.t, t2.t)),
        ("cross of a vector and an array", lambda: cross(v3.t, np.ones(3))),
        ("cross with a frame and arrays", lambda: cross(np.ones(3), np.ones(3), frame=v3.F)),
        ("dot of 3-d and 2-d vectors", lambda: dot(v3.t, v2.t)),
        ("a frame that is no frame", lambda: Vector(np.ones(3), frame=np.eye(3))),
        ("a second order tensor of a vector", lambda: Tensor2(np.ones(3))),
        ("a tensor with different ranges", lambda: Tensor(np.ones((3, 2)))),
        ("no components and no frame", lambda: Vector()),
    ]
    for what, fn in L:
        refused(ctx, what, fn)
        for o in (v3, v2, t2, t4, g3, vb2, vb5, t22, g2):
            o.same(f"after the refused {what}")
        ctx.state((e, what))
    ctx.trace()


def k_arrays(ctx, p):
    """dot and cross of plain arrays coincide with NumPy"""
    a, b = ref.mixed(tuple(p["a"]), 0), ref.mixed(tuple(p["b"]), 1)
    if p["op"] == "dot":
        expect(ctx, dot(a, b), np.dot(a, b), str(p))
        expect(ctx, dot(a.tolist(), b.tolist()), np.dot(a, b), str(p) + " lists")
    else:
        expect(ctx, cross(a, b), np.cross(a, b), str(p))
        expect(ctx, cross(a.tolist(), b.tolist()), np.cross(a, b), str(p) + " lists")
    ctx.state(repr(p))
    ctx.trace()


KINDS = {"linear": k_linear, "dot": k_dot, "cross": k_cross, "bulkdot": k_bulkdot, "refuse": k_refuse, "arrays": k_arrays}


def cases(tier):
    th = tier == "thorough"
    for dim in (2, 3) if not th else (1, 2, 3, 4):
        names = list(ref.axes_alphabet(dim))
        if not th:
            names = [n for n in names if n in ("eye", "rot", "rect", "skew", "skewneg", "skewleft")]
        spec = names + [("!" + n) for n in names if n in ("eye", "rot", "rect")]
        kinds = ["v", "t2", "g2", "g3", "t4", "vb", "t2b"]
        if dim == 3:
            kinds += ["t2x3", "t2x3n", "t4x3b"]
            if th:
                kinds += ["t4b", "t4x3", "t4x3n", "g5", "t2b5", "vb5"]
        for kind in kinds:
            for e in spec:
                for f in spec + ["same"]:
                    if rank_of(kind) >= 3 and not th and dim == 3 and (e.startswith("!") or f.startswith("!")):
                        continue
                    yield "linear", dict(dim=dim, kind=kind, e=e, f=f)
        # frames that share something
        for kind in ["v", "t2", "g3", "vb", "t2b"] + (["t2x3n"] if dim == 3 else []) + (kinds if th else []):
            for e in ("eye", "rot", "rect", "skew") if dim in (2, 3) else names:
                for rel in RELATED if e != "eye" else [r for r in RELATED if r != "T"]:
                    yield "linear", dict(dim=dim, kind=kind, e=e, f=f"{e}~{rel}")
        for k in (("v", "v"), ("t2", "v"), ("v", "t2"), ("t2", "t2"), ("g3", "g2")):
            for e in ("eye", "rot", "skew") if dim in (2, 3) else names:
                for rel in RELATED:
                    yield "dot", dict(dim=dim, k=k, e=e, f=f"{e}~{rel}", g=[e, "rect" if dim in (2, 3) else names[-1]])
        pairs = [("v", "v"), ("t2", "v"), ("v", "t2"), ("t2", "t2"), ("g2", "v"), ("g2", "g2"), ("g1", "g1")]
        for k in pairs:
            for e in spec:
                for f in spec + ["same"]:
                    yield "dot", dict(dim=dim, k=k, e=e, f=f, g=names)
        gen = [("g3", "g2"), ("t4", "t2"), ("g3", "v"), ("t2", "t4"), ("g2", "g3")]
        if th:
            gen += [("g5", "g3"), ("t4", "t4"), ("g1", "g3")]
        for k in gen:
            for e in names:
                for f in names + ["same"]:
                    yield "dot", dict(dim=dim, k=k, e=e, f=f, g=["skewneg"] if "skewneg" in names else ["rect" if "rect" in names else "two"])
        for kind in ("vb", "vb5"):
            for e in names:
                for f in names:
                    yield "bulkdot", dict(dim=dim, kind=kind, e=e, f=f)
        # special contents and other units
        CP = [(x, x) for x in CON] + [("sym", "anti"), ("anti", None), (None, "zero"), ("zero", None), ("big", "small"), ("same", "same"), ("iso", None), (None, "diag")]
        for e, f in (("eye", "skew"), ("skew", "rot"), ("!rot", "same")) if dim in (2, 3) else ((names[0], names[-1]),):
            for con in CP:
                for kind in ["v", "t2", "g3", "t2b"] + (["t4", "vb"] if th else []):
                    yield "linear", dict(dim=dim, kind=kind, e=e, f=f, con=con)
                for k in (("v", "v"), ("t2", "v"), ("v", "t2"), ("t2", "t2"), ("g3", "g2")):
                    yield "dot", dict(dim=dim, k=k, e=e, f=f, g=["skewneg" if dim > 1 and dim < 4 else names[-1]], con=con)
                if dim == 3:
                    for k in (("v", "v"), ("t2", "v"), ("v", "t2")):
                        yield "cross", dict(k=k, e=e, f=f, g=["skewneg"], con=con)
        for rel in SCALED[:3]:
            for e in ("eye", "skew") if dim in (2, 3) else names[:1]:
                for kind in ("v", "t2", "vb"):
                    yield "linear", dict(dim=dim, kind=kind, e=e, f=f"{e}~{rel}")
                    yield "linear", dict(dim=dim, kind=kind, e=f"{e}~{rel}", f=e)
                for k in (("v", "v"), ("t2", "v"), ("t2", "t2"), ("v", "t2")):
                    yield "dot", dict(dim=dim, k=k, e=e, f=f"{e}~{rel}", g=[e])
                    yield "dot", dict(dim=dim, k=k, e=f"{e}~{rel}", f=e, g=[e])
                    yield "dot", dict(dim=dim, k=k, e=f"{e}~{rel}", f="same", g=[e])
                if dim == 3:
                    yield "cross", dict(k=("v", "v"), e=f"{e}~{rel}", f=e, g=[e])
                    yield "cross", dict(k=("t2", "v"), e=f"{e}~{rel}", f="same", g=[e])
    names = list(ref.axes_alphabet(3))
    spec = names + ["!eye", "!rot", "!mirror", "!rect"]
    for k in (("v", "v"), ("t2", "v"), ("v", "t2"), ("t2x3", "v")):
        for e in spec:
            for f in spec + ["same"]:
                yield "cross", dict(k=k, e=e, f=f, g=names)
    for k in (("v", "v"), ("t2", "v")):
        for e in ("eye", "rot", "skew"):
            for rel in RELATED:
                yield "cross", dict(k=k, e=e, f=f"{e}~{rel}", g=[e, "rect"])
    for e in ("eye", "skew", "!rot"):
        yield "refuse", dict(e=e)
    for a, b in (((3,), (3,)), ((2, 3), (3,)), ((2, 3), (3, 4)), ((3, 3), (3, 3)), ((2, 2, 3), (3,))):
        yield "arrays", dict(op="dot", a=a, b=b)
    for a, b in (((3,), (3,)), ((4, 3), (3,)), ((4, 3), (4, 3)), ((2,), (2,))):
        yield "arrays", dict(op="cross", a=a, b=b)
