"""C04: who may share memory with whom; in place == new; all ways of reading agree."""
import copy
import itertools

import numpy as np

from .. import ref
from ..core import Violation
from ..objs import FCLS, TK, comp_array, make_frame, make_tensor, rank_of
from .c02 import ax as _ax, cls_for, expect, frame, variant
from sigmaepsilon.math.linalg import (
    CartesianFrame, RectangularFrame, ReferenceFrame, Tensor, Tensor2, Vector, cross, dot,
)



def ax(dim, name):
    try:
        return _ax(dim, name)
    except KeyError:  # spaces of one or four dimensions have fewer names
        return _ax(dim, ("neg" if name.startswith("skew") else "eye") if dim == 1 else "skew" if name.startswith("skew") else "rot")


HOW = ["", "F", "strided", "int", "f4", "T"]


def source(vals, how):
    if how == "T":
        return np.array(vals, dtype=float).T.copy().T
    return variant(vals, how)


def scramble(a):
    if a.size:
        a[...] = (a * 0 + 9).astype(a.dtype)


# ------------------------------------------------------------ reading the objects
def readings(x):
    """every public way of reading the components"""
    arr = np.array(x.axes if isinstance(x, ReferenceFrame) else x.array)
    yield "np.array", np.array(x)
    yield "np.asarray(float)", np.asarray(x, dtype=float)
    yield "to_numpy", np.array(x.to_numpy())
    yield "[...]", np.array(x[...])
    yield "rows", np.array([x[i] for i in range(len(x))]).reshape(arr.shape)
    yield "iteration", np.array([np.array(r) for r in x]).reshape(arr.shape)
    yield "tolist", np.array(x.tolist(), dtype=float).reshape(arr.shape)
    yield "flatten", np.array(x.flatten()).reshape(arr.shape)
    yield "astype", np.array(x.astype(float))


def consistent(ctx, x, what):
    arr = np.array(x.axes if isinstance(x, ReferenceFrame) else x.array)
    for name, got in readings(x):
        ctx.step()
        if got.shape != arr.shape or not np.array_equal(got, arr):
            raise Violation(f"{what}: read by {name}\n{got}\nbut the components are\n{arr}")
    ctx.check(tuple(x.shape) == arr.shape, "%s: shape %s", what, x.shape)
    ctx.check(len(x) == arr.shape[0], "%s: length", what)
    ctx.check(x.dim == arr.ndim, "%s: number of indices", what)
    if arr.size:
        lo, hi = x.minmax
        ctx.check(lo == arr.min() and hi == arr.max(), "%s: minimum and maximum %s %s", what, lo, hi)
        ctx.check(abs(float(x.sum()) - arr.sum()) < 1e-9 * (1 + np.abs(arr).sum()), "%s: sum", what)
        ctx.check(float(x.max()) == arr.max() and float(x.min()) == arr.min(), "%s: max/min", what)
    ctx.check(str(x) == np.array_str(arr), "%s: printed\n%s\nfor\n%s", what, str(x), np.array_str(arr))


# ------------------------------------------------------------------ construction
def k_build(ctx, p):
    """the caller's arrays are the caller's, whatever their layout and type"""
    what = str(p)
    if p["obj"] == "frame":
        vals = np.array(ax(p["dim"], p["ax"]))
        if p["how"] == "int":
            vals = np.round(vals * 2)
        src = source(vals, p["how"])
        vals = np.array(src, dtype=float)
        cls = FCLS[p["cls"]]
        if p["by"] == "ctor":
            F = cls(src)
        elif p["by"] == "frame":
            G = cls(src)
            F = cls(np.array(G)) if p["cls"] != "ref" else ReferenceFrame(G.axes)
            other = G
        elif p["by"] == "set":
            F = cls(np.eye(p["dim"]))
            F.axes = src
        elif p["by"] == "list":
            F = cls(np.eye(p["dim"]))
            src = src.tolist()
            F.axes = src
        expect(ctx, np.array(F.axes), vals, what, 1e-15)
        v = Vector(np.arange(1.0, p["dim"] + 1), frame=F)
        amb = v.show()
        if isinstance(src, list):
            for r in src:
                r[0] = 9.0
        else:
            scramble(src)
        expect(ctx, np.array(F.axes), vals, what + ": after the source array was modified", 1e-15)
        expect(ctx, v.show(), amb, what + ": a vector moved with the source array", 1e-12)
        if p["by"] == "frame":
            H = ReferenceFrame(np.array(F.axes))
            if p["cls"] == "ref":
                other.axes = np.array(ax(p["dim"], "skew")) * 3
            else:
                other.axes = np.array(F.axes)
            expect(ctx, np.array(F.axes), vals, what + ": after the source frame was modified", 1e-15)
        # and the other way round
        src2 = source(vals, "" if p["how"] == "int" else p["how"])
        keep = np.array(src2)
        F2 = cls(src2)
        if p["cls"] == "ref":
            F2 *= 2.0
            F2 += 0.25
        else:
            F2.axes = ax(p["dim"], "mirror")
        ctx.check(np.array_equal(np.array(src2), keep), "%s: changing the frame changed the caller's array", what)
        consistent(ctx, F, what)
    else:
        kind, dim = p["obj"], p["dim"]
        cls, r, lead, kw, _ = TK[kind]
        F, A = frame(dim, p["ax"])
        vals = comp_array(kind, dim, 0)
        if p["how"] == "int":
            vals = np.round(vals)
        src = source(vals, p["how"])
        vals = np.array(src, dtype=float)
        if p["by"] == "ctor":
            t = cls(src, frame=F, **kw)
        elif p["by"] == "set":
            t = cls(np.zeros(vals.shape), frame=F, **kw)
            t.array = src
        elif p["by"] == "frame":
            u = cls(src, frame=F, **kw)
            t = cls(u.array, frame=F, **kw)
        elif p["by"] == "list":
            src = src.tolist()
            t = cls(src, frame=F, **kw)
        expect(ctx, np.array(t.array), vals, what, 1e-15)
        if isinstance(src, list):
            src[0] = 99
        else:
            scramble(src)
        expect(ctx, np.array(t.array), vals, what + ": after the source array was modified", 1e-15)
        if p["by"] == "frame":
            u *= 5.0
            expect(ctx, np.array(t.array), vals, what + ": after the source tensor was modified", 1e-15)
        src2 = source(vals, "" if p["how"] == "int" else p["how"])
        keep = np.array(src2)
        t2 = cls(src2, frame=F, **kw)
        t2 *= 2.0
        t2 += 1.0
        t2.array = vals * 7
        ctx.check(np.array_equal(np.array(src2), keep), "%s: changing the tensor changed the caller's array", what)
        consistent(ctx, t, what)
    ctx.state(what)
    ctx.trace()


# -------------------------------------------------------------------- derivations
def frame_derive(name, F):
    d = F.axes.shape[-1]
    if name == "copy":
        return F.copy()
    if name == "copy_deep":
        return F.copy(deep=True)
    if name == "deepcopy":
        return F.deepcopy()
    if name == "mul":
        return F * 2.0
    if name == "mul1":
        return F * 1
    if name == "div":
        return F / 1
    if name == "add":
        return F + 0.0
    if name == "matmul":
        return F @ np.eye(d)
    if name == "T":
        return F.T
    if name == "transpose":
        return F.transpose()
    if name == "dual":
        return F.dual()
    if name == "orient_new0":
        return F.orient_new()
    if name == "orient_new":
        return F.orient_new("Space", [0, 0, 0.5], "XYZ") if d == 3 else F.deepcopy(name="x")
    if name == "neg":
        return -F
    if name == "abs":
        return np.absolute(F)
    if name == "ctor":
        return ReferenceFrame(F.axes)
    raise KeyError(name)


FRAME_DER = ["copy", "copy_deep", "deepcopy", "mul", "mul1", "div", "add", "matmul", "T", "transpose", "dual",
             "orient_new0", "orient_new", "neg", "ctor"]


def mutate_frame(name, F):
    d = F.axes.shape[-1]
    if name == "axes":
        F.axes = (ax(d, "rot") if isinstance(F, RectangularFrame) else ax(d, "skewneg"))
    elif name == "imul":
        F *= 2.0
    elif name == "iadd":
        F += ax(d, "skew") * 2
    elif name == "T":
        if type(F) is not RectangularFrame:
            F.transpose(inplace=True)
        else:
            F.axes = ax(d, "mirror")
    elif name == "orient":
        if d == 3:
            F.orient("Body", [0.1, 0.2, 0.3], "XYZ")
        else:
            F.axes = ax(d, "mirror")
    elif name == "ufunc":
        if type(F) is ReferenceFrame:
            np.multiply(F, 3.0, out=F)
    return F


FRAME_MUT = ["axes", "imul", "iadd", "T", "orient", "ufunc"]


def k_fder(ctx, p):
    """derive a frame, change one of the two, look at the other"""
    what = str(p)
    for side in ("derived", "original"):
        F, A = frame(p["dim"], p["ax"])
        v = Vector(np.arange(1.0, p["dim"] + 1), frame=F)
        amb = ref.ambient(np.array(v.array), A, 1)
        G = frame_derive(p["der"], F)
        if G is F:
            ctx.outcome("same object")
            ctx.check(p["der"] == "dual", "%s returned the object itself", what)
            return
        B = np.array(G.axes)
        expect(ctx, np.array(F.axes), A, what + ": deriving changed the original", 1e-15)
        ctx.check(v.frame is F, "%s: deriving took a vector away", what)
        w = Vector(np.arange(2.0, p["dim"] + 2), frame=G)
        ambw = ref.ambient(np.array(w.array), B, 1)
        if side == "derived":
            c = np.array(v.array)
            mutate_frame(p["mut"], G)
            expect(ctx, np.array(F.axes), A, what + ": changing the derived frame changed the original", 1e-15)
            expect(ctx, np.array(v.array), c, what + ": ... and a vector of the original", 1e-15)
        else:
            c = np.array(w.array)
            mutate_frame(p["mut"], F)
            expect(ctx, np.array(G.axes), B, what + ": changing the original changed the derived frame", 1e-15)
            expect(ctx, np.array(w.array), c, what + ": ... and a vector of the derived", 1e-15)
        expect(ctx, v.show(), amb, what + ": the vector of the original", 1e-8)
        expect(ctx, w.show(), ambw, what + ": the vector of the derived", 1e-8)
        consistent(ctx, F, what)
        consistent(ctx, G, what)
        ctx.state((what, side))
    ctx.trace()


def tensor_derive(name, t):
    if name == "copy":
        return t.copy()
    if name == "copy.copy":
        return copy.copy(t)
    if name == "copy_deep":
        return t.copy(deep=True)
    if name == "deepcopy":
        return t.deepcopy()
    if name == "copy.deepcopy":
        return copy.deepcopy(t)
    if name == "T":
        return t.T
    if name == "transpose":
        return t.transpose()
    if name == "dual":
        return t.dual()
    if name == "add":
        return t + t
    if name == "sub":
        return t - 0.5 * 2 * t if False else t - (t * 0.5)
    if name == "neg":
        return -t
    if name == "mul":
        return t * 1.0
    if name == "div":
        return t / 1
    if name == "orient_new":
        return t.orient_new("Space", [0, 0, 0.0], "XYZ")
    raise KeyError(name)


TENSOR_DER = ["copy", "copy.copy", "copy_deep", "deepcopy", "copy.deepcopy", "T", "transpose", "dual", "add", "sub", "neg", "mul", "div", "orient_new"]
EXPECT = {"add": 2.0, "sub": 0.5, "neg": -1.0}
TENSOR_MUT = ["imul", "iadd_num", "iadd", "iadd_self", "isub", "isub_self", "idiv", "array", "frame", "frame_axes", "frame_imul", "T", "setitem", "chop"]


def mutate_tensor(name, t, kind):
    """changes t in place; returns the expected ambient value of t"""
    r = rank_of(kind)
    A = np.array(t.frame.axes)
    amb = ref.ambient(np.array(t.array), A, r)
    d = A.shape[-1]
    if name == "imul":
        t *= -2.0
        return -2.0 * amb
    if name == "idiv":
        t /= 4
        return amb / 4
    if name == "iadd_num":
        c = np.array(t.array)
        t += 1.5
        return ref.ambient(c + 1.5, A, r)
    if name == "iadd":
        t += t * 2.0
        return 3 * amb
    if name == "iadd_self":
        t += t
        return 2 * amb
    if name == "isub_self":
        t -= t
        return 0 * amb
    if name == "isub":
        t -= t * 3.0
        return -2 * amb
    if name == "array":
        c = comp_array(kind, d, 7)
        t.array = c
        return ref.ambient(c, A, r)
    if name == "frame":
        t.frame = ReferenceFrame(ax(d, "skewneg") * 1.5)
        return amb
    if name == "frame_axes":
        f = t.frame
        f.axes = ax(d, "rot")
        return amb
    if name == "frame_imul":
        f = t.frame
        f *= 2.0
        return amb
    if name == "T":
        t.transpose(inplace=True)
        axs = list(range(amb.ndim))
        k = amb.ndim - r
        return amb.transpose(axs[:k] + axs[k:][::-1])
    if name == "setitem":
        c = np.array(t.array)
        c[0] = 6.0
        t[0] = 6.0
        return ref.ambient(c, A, r)
    if name == "chop":
        c = np.array(t.array)
        c[np.abs(c) < 0.7] = 0.0
        t.chop(0.7)
        return ref.ambient(c, A, r)
    raise KeyError(name)


def k_tder(ctx, p):
    kind, dim = p["kind"], p["dim"]
    r = rank_of(kind)
    for side in ("derived", "original"):
        what = f"{p} {side} changed"
        F, A = frame(dim, p["ax"])
        arr = comp_array(kind, dim, 0)
        t = make_tensor(kind, F, arr)
        amb = ref.ambient(arr, A, r)
        d = tensor_derive(p["der"], t)
        if p["der"] in ("T", "transpose"):
            axs = list(range(amb.ndim))
            k = amb.ndim - r
            dwant = amb.transpose(axs[:k] + axs[k:][::-1])
        else:
            dwant = EXPECT.get(p["der"], 1.0) * amb
        ctx.check(d is not t, "%s: the same object", what)
        ctx.check(type(d) is type(t), "%s: type %s", what, type(d).__name__)
        ctx.check(np.array_equal(np.array(t.array), arr) and t.frame is F, "%s: deriving changed the original", what)
        expect(ctx, d.show(), dwant, what + ": the derived object", 1e-7)
        if p["der"] in ("copy", "copy.copy"):
            ctx.check(d.frame is F, "%s: a shallow copy has another frame", what)
            ctx.check(np.array_equal(np.array(d.array), arr), "%s: components of the copy", what)
        if "deep" in p["der"]:
            ctx.check(d.frame is not F, "%s: a deep copy shares the frame", what)
            ctx.check(np.array_equal(np.array(d.array), arr), "%s: components of the copy", what)
        shared = d.frame is F
        a, b, bw, bk = (d, t, amb, arr) if side == "derived" else (t, d, dwant, np.array(d.array))
        aw = mutate_tensor(p["mut"], a, kind)
        expect(ctx, a.show(), aw, what + ": the changed object", 1e-7)
        expect(ctx, b.show(), bw, what + ": the other object as an entity", 1e-7)
        if not (shared and p["mut"] in ("frame_axes", "frame_imul")):
            expect(ctx, np.array(b.array), bk, what + ": components of the other object", 1e-15)
        consistent(ctx, a, what)
        consistent(ctx, b, what)
        ctx.state((kind, dim, p["ax"], p["der"], p["mut"], side))
        ctx.outcome("shared frame" if shared else "own frame")
    ctx.trace()


def k_shown(ctx, p):
    """arrays handed out by a question can be modified freely"""
    kind, dim = p["kind"], p["dim"]
    F, A = frame(dim, p["ax"])
    G, B = frame(dim, p["T"])
    arr = comp_array(kind, dim, 0)
    t = make_tensor(kind, F, arr)
    for fn in (lambda: t.show(), lambda: t.show(F), lambda: t.show(G), lambda: t.show(dcm=np.eye(dim)),
               lambda: F.dcm(target=G), lambda: F.Gram(), lambda: G.dcm(source=F), lambda: F.show(G),
               lambda: np.array(F.dual().axes), lambda: np.array(t.dual().array), lambda: F.dcm(target=F)):
        x = fn()
        y = np.array(x)
        x *= 0
        x += 5
        ctx.step()
        if not np.array_equal(np.array(t.array), arr) or not np.array_equal(np.array(F.axes), A):
            raise Violation(f"{p}: writing to a returned array changed the tensor or its frame")
        if not np.array_equal(np.array(G.axes), B):
            raise Violation(f"{p}: writing to a returned array changed the target frame")
        if not ref.close(fn(), y, 1e-12):
            raise Violation(f"{p}: writing to a returned array changed the next answer")
    ctx.state(str(p))
    ctx.trace()


# --------------------------------------------------------------- in place vs new
def k_pair(ctx, p):
    """operation in place on one twin, as a new object on the other"""
    what = str(p)
    if p["obj"] == "frame":
        d = p["dim"]
        F, A = frame(d, p["ax"])
        G, _ = frame(d, p["ax"])
        M = ax(d, "skew")
        o = p["op"]
        same_obj = type(F) is ReferenceFrame or o in ("T", "orient", "rotate")
        if o == "mul":
            n = F * 2.5
            G0 = G
            G *= 2.5
            same_obj = type(F) in (ReferenceFrame, RectangularFrame)
        elif o == "div":
            n = F / 2.5
            G0 = G
            G /= 2.5
            same_obj = type(F) in (ReferenceFrame, RectangularFrame)
        elif o == "mularr":
            n = F * M
            G0 = G
            G *= M
        elif o == "add":
            n = F + M
            G0 = G
            G += M
        elif o == "sub":
            n = F - 3 * M
            G0 = G
            G -= 3 * M
        elif o == "matmul":
            n = F @ M
            G0 = G
            G @= M
        elif o == "pow":
            n = F**2
            G0 = G
            G **= 2
        elif o == "T":
            n = F.transpose()
            G0 = G
            G = G.transpose(inplace=True)
        elif o == "orient":
            n = F.orient_new("Body", [0.2, 0.4, -0.3], "ZYX")
            G0 = G
            G = G.orient("Body", [0.2, 0.4, -0.3], "ZYX")
        elif o == "rotate":
            n = F.rotate("Body", [0.2, 0.4, -0.3], "ZYX", inplace=False)
            G0 = G
            G = G.rotate("Body", [0.2, 0.4, -0.3], "ZYX")
        if same_obj:
            ctx.check(G is G0, "%s: the in-place operation returned another object", what)
        ctx.check(n is not F, "%s: the operation returned its operand", what)
        expect(ctx, np.array(n.axes), np.array(G.axes), what + ": new against in place", 1e-12)
        ctx.check(np.array_equal(np.array(F.axes), A), "%s: the operand changed", what)
        consistent(ctx, n, what)
        consistent(ctx, G, what)
    else:
        kind, d = p["obj"], p["dim"]
        F, A = frame(d, p["ax"])
        H, _ = frame(d, "skew")
        arr = comp_array(kind, d, 0)
        s, t = make_tensor(kind, F, arr), make_tensor(kind, F, arr)
        u = make_tensor(kind, H, comp_array(kind, d, 1))
        uc = np.array(u.array)
        o = p["op"]
        t0 = t
        if o == "add":
            n = s + u
            t += u
        elif o == "sub":
            n = s - u
            t -= u
        elif o == "mul":
            n = s * -3
            t *= -3
        elif o == "div":
            n = s / 8.0
            t /= 8.0
        elif o == "T":
            n = s.transpose()
            t = t.transpose(inplace=True)
        elif o == "orient":
            n = s.orient_new("Body", [0.2, 0.4, -0.3], "ZYX")
            t = t.orient("Body", [0.2, 0.4, -0.3], "ZYX")
        ctx.check(t is t0, "%s: the in-place operation returned another object", what)
        ctx.check(n is not s, "%s: the operation returned its operand", what)
        expect(ctx, np.array(n.array), np.array(t.array), what + ": new against in place", 1e-12)
        expect(ctx, n.show(), t.show(), what + ": new against in place, ambient", 1e-9)
        ctx.check(np.array_equal(np.array(s.array), arr) and s.frame is F, "%s: the operand changed", what)
        ctx.check(np.array_equal(np.array(u.array), uc) and u.frame is H, "%s: the second operand changed", what)
        ctx.check(t.frame is F, "%s: the frame of the changed object", what)
        consistent(ctx, n, what)
        consistent(ctx, t, what)
    ctx.step()
    ctx.state(what)
    ctx.trace()


# ---------------------------------------------------------- histories of one object
def k_hist(ctx, p):
    kind, dim = p["kind"], p["dim"]
    F, A = frame(dim, p["ax"])
    t = make_tensor(kind, F, comp_array(kind, dim, 0))
    c = t.copy()
    d = t.deepcopy()
    amb = ref.ambient(comp_array(kind, dim, 0), A, rank_of(kind))
    dc = np.array(d.array)
    want = amb
    for i, m in enumerate(p["ops"]):
        want = mutate_tensor(m, t, kind)
        ctx.step()
        w = f"{p} after {p['ops'][: i + 1]}"
        expect(ctx, t.show(), want, w + ": the object", 1e-7)
        consistent(ctx, t, w)
        expect(ctx, c.show(), amb, w + ": its shallow copy", 1e-7)
        ctx.check(np.array_equal(np.array(d.array), dc), "%s: its deep copy changed", w)
        consistent(ctx, c, w)
        consistent(ctx, t.frame, w)
    ctx.state((kind, dim, ref.canon(want)))
    ctx.deeper(len(p["ops"]))
    ctx.trace()


KINDS = {"build": k_build, "fder": k_fder, "tder": k_tder, "shown": k_shown, "pair": k_pair, "hist": k_hist}


def cases(tier):
    th = tier == "thorough"
    for dim in (2, 3):
        for cls, axs in (("ref", ["eye", "skew", "rot"]), ("rect", ["rect", "eye"]), ("cart", ["eye", "mirror"])):
            for a in axs:
                for how in HOW:
                    if how == "int" and a in ("rot",) + (("rect",) if dim == 3 else ()):
                        continue
                    if how == "int" and cls == "cart":
                        continue
                    if how == "f4" and (a in ("rot", "rect") and cls != "ref"):
                        continue
                    for by in ("ctor", "set", "frame", "list"):
                        if by == "list" and how:
                            continue
                        yield "build", dict(obj="frame", dim=dim, cls=cls, ax=a, how=how, by=by)
        for kind in ("v", "t2", "g3", "t4", "vb", "t2b"):
            for how in HOW:
                for by in ("ctor", "set", "frame", "list"):
                    if by == "list" and (how or TK[kind][3]):
                        continue
                    yield "build", dict(obj=kind, dim=dim, ax="skew", how=how, by=by)
        if dim == 2:
            for d, axs in ((1, ["eye", "two", "neg"]), (4, ["eye", "skew", "rot"])):
                for how in HOW:
                    for by in ("ctor", "set", "frame", "list"):
                        if by == "list" and how:
                            continue
                        for a in axs:
                            yield "build", dict(obj="frame", dim=d, cls="ref", ax=a, how=how, by=by)
                        for kind in ("v", "t2", "g3", "vb"):
                            if by == "list" and TK[kind][3]:
                                continue
                            yield "build", dict(obj=kind, dim=d, ax=axs[1], how=how, by=by)
        for a in ["skew", "eye", "!eye", "!rot", "!rect", "rect"]:
            for der in FRAME_DER:
                if a == "!rect" and dim == 3 and der in ("T", "transpose"):
                    continue
                for mut in FRAME_MUT:
                    yield "fder", dict(dim=dim, ax=a, der=der, mut=mut)
            for op in ("mul", "div", "mularr", "add", "sub", "matmul", "pow", "T", "orient", "rotate"):
                if op in ("orient", "rotate") and dim == 2:
                    continue
                if op == "T" and a == "!rect" and dim == 3:
                    continue
                yield "pair", dict(obj="frame", dim=dim, ax=a, op=op)
        kinds = ["v", "t2", "g2", "g3", "t4", "vb", "t2b"] + (["t2x3", "t2x3n", "t4x3b"] if dim == 3 else [])
        for kind in kinds:
            for a in ("skew", "!rot", "eye") if not th else ("skew", "!rot", "eye", "!rect", "skewleft"):
                for der in TENSOR_DER:
                    if der == "orient_new" and dim == 2:
                        continue
                    for mut in TENSOR_MUT:
                        yield "tder", dict(kind=kind, dim=dim, ax=a, der=der, mut=mut)
                yield "shown", dict(kind=kind, dim=dim, ax=a, T="rect")
                for op in ("add", "sub", "mul", "div", "T", "orient"):
                    if op == "orient" and dim == 2:
                        continue
                    yield "pair", dict(obj=kind, dim=dim, ax=a, op=op)
        for kind in ("v", "t2", "g3", "t2b") if not th else kinds:
            for ops in itertools.product([m for m in TENSOR_MUT if m not in ("iadd_num", "isub_self")], repeat=2 if not th else 3):
                yield "hist", dict(kind=kind, dim=dim, ax="skew", ops=list(ops))
