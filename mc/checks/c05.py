"""C05: class invariants of frames over operator histories; dual, Gram, volume laws."""
import itertools

import numpy as np

from .. import ref
from ..core import Violation
from ..objs import FCLS, comp_array, make_frame, make_tensor, rank_of
from .c02 import ax, expect
from sigmaepsilon.math.linalg import (
    CartesianFrame, RectangularFrame, ReferenceFrame, Vector,
    is_independent_frame, is_normal_frame, is_orthonormal_frame, is_rectangular_frame,
)
from sigmaepsilon.math.linalg import Gram, dual_frame


def truth(A, tol=1e-6):
    """(rectangular, orthonormal), or None where it is too close to call"""
    G = A @ A.T
    n = np.sqrt(np.diag(G))
    off = (np.abs(G) / np.outer(n, n))
    off = (off - np.diag(np.diag(off))).max() if len(A) > 1 else 0.0
    dn = np.abs(n - 1).max()

    def call(x):
        if x < 1e-10:
            return True
        if x > 2e-3:
            return False
        return None

    r, o = call(off), call(dn)
    if r is False or o is False:
        return r, False
    if r is None or o is None:
        return r, None
    return r, (r and o)


def verify(ctx, F, what, deep=True):
    A = np.array(F.axes)
    d = A.shape[-1]
    G = A @ A.T
    r, o = truth(A)
    # a frame keeps the promise of its class
    if isinstance(F, RectangularFrame) and r is False:
        raise Violation(f"{what}: a {type(F).__name__} with axes\n{A}")
    if isinstance(F, CartesianFrame) and o is False:
        raise Violation(f"{what}: a CartesianFrame with axes\n{A}")
    if r is not None and bool(F.is_rectangular) != r:
        raise Violation(f"{what}: is_rectangular={F.is_rectangular} for axes\n{A}")
    if o is not None and bool(F.is_cartesian) != o:
        raise Violation(f"{what}: is_cartesian={F.is_cartesian} for axes\n{A}")
    if not bool(F.is_independent):
        raise Violation(f"{what}: is_independent is false for axes\n{A}")
    ctx.outcome(f"{type(F).__name__} rect={r} orth={o}")
    inv = np.linalg.inv(A)
    expect(ctx, F.Gram(), G, what + ": Gram matrix", 1e-9)
    M = F.metric_tensor()
    expect(ctx, np.array(M.array), G, what + ": metric tensor", 1e-9)
    expect(ctx, np.array(M.frame.axes), A, what + ": frame of the metric tensor", 1e-12)
    D = F.dual()
    expect(ctx, np.array(D.axes), inv.T, what + ": dual frame", 1e-8)
    if not deep:
        return
    expect(ctx, np.array(D.axes) @ A.T, np.eye(d), what + ": products of dual and base vectors", 1e-8)
    expect(ctx, np.array(D.dual().axes), A, what + ": dual of the dual", 1e-8)
    expect(ctx, np.array(D.Gram()) @ G, np.eye(d), what + ": Gram matrices of the frame and its dual", 1e-7)
    vol = abs(np.linalg.det(A))
    ctx.check(abs(abs(float(F.volume())) - vol) <= 1e-8 * max(1, vol), "%s: volume %s, expected %s", what, F.volume(), vol)
    dv = abs(float(D.volume()))
    ctx.check(abs(dv * vol - 1) < 1e-7, "%s: volume of the dual %s", what, dv)
    if type(D) is not type(F):
        raise Violation(f"{what}: the dual of a {type(F).__name__} is a {type(D).__name__}")
    expect(ctx, np.array(F.axes), A, what + ": axes changed by asking", 1e-15)
    for kind in ("v", "t2", "g3"):
        c = comp_array(kind, d, 1)
        t = make_tensor(kind, F, c)
        u = t.dual()
        rk = rank_of(kind)
        amb = ref.ambient(c, A, rk)
        expect(ctx, u.show(), amb, what + f": dual of {kind}", 1e-7)
        expect(ctx, np.array(u.array), ref.contract(c, G, rk), what + f": dual components of {kind}", 1e-7)
        expect(ctx, np.array(u.frame.axes), inv.T, what + f": frame of the dual of {kind}", 1e-8)
        expect(ctx, np.array(u.dual().array), c, what + f": dual of the dual of {kind}", 1e-7)
        expect(ctx, np.array(t.array), c, what + f": {kind} changed", 1e-15)


def mat(d, name):
    return ax(d, name)


def ops(d, cls, core=False):
    L = [
        ["imul", 2.0], ["imul", -1], ["itruediv", 4.0], ["imul_arr", [2.0, 0.5, -1.0, 1.5]], ["imul_mat", "skew"],
        ["imatmul", "rot"], ["imatmul", "skew"], ["iadd", "skew"], ["isub", "skewneg"], ["iadd_num", 0.5], ["ipow", 3],
        ["mul", 3.0], ["rmul", 2.0], ["div", -2.0], ["mul_mat", "skew"], ["div_mat", "pos"], ["matmul", "rect"], ["add", "skew"], ["sub", "skewneg"], ["neg"], ["pow", 3],
        ["axes", "rot"], ["axes", "rect"], ["axes", "skew"], ["axes", "mirror"], ["axes", "almost"], ["axes", "notunit"],
        ["T"], ["Tnew"], ["dual"], ["copy"], ["deepcopy"],
        ["ufunc", 2.0], ["bool", True], ["mul_arr", [2.0, 0.5, -1.0, 1.5]], ["div_arr", [2.0, 0.5, -1.0, 1.5]], ["idiv_arr", [-2.0, 0.5, 4.0, 1.5]],
        ["ipow", 1.5], ["pow", 0.5], ["mul_np", 2.5], ["imul_npi", 2], ["mul_0d", 0.5], ["setrow"], ["setitem", 0.3], ["add_frame", "skew"], ["iadd_frame", "skew"], ["iadd_self"],
    ]
    if core:
        L = L[:34]
    if d == 3:
        L += [["orient"], ["orient_new"]]
    return L


def axes_named(d, name):
    A = ref.axes_alphabet(d)
    if name in A:
        return A[name]
    if name == "almost":  # nearly rectangular, but not
        M = np.array(A["rot"])
        M[0] = M[0] + 0.01 * M[1]
        return M
    if name == "notunit":  # rectangular, nearly orthonormal
        M = np.array(A["rot"])
        M[-1] *= 1.01
        return M
    if name == "pos":
        return np.ones((d, d)) + np.arange(d * d).reshape(d, d) / 4.0
    return A["rot"]


REFUSED = "refused"


def apply(F, op):
    """the frame after the operation (REFUSED if the library refused it), and the axes it must have"""
    d = F.axes.shape[-1]
    A = np.array(F.axes)
    n = op[0]
    M = axes_named(d, op[1]) if len(op) > 1 and isinstance(op[1], str) else None
    v = np.array(op[1][:d]) if len(op) > 1 and isinstance(op[1], list) else None
    try:
        if n == "imul":
            F *= op[1]
            return F, A * op[1]
        if n == "itruediv":
            F /= op[1]
            return F, A / op[1]
        if n == "imul_arr":
            F *= v
            return F, A * v
        if n == "imul_mat":
            F *= M
            return F, A * M
        if n == "imatmul":
            F @= M
            return F, A @ M
        if n == "iadd":
            F += M
            return F, A + M
        if n == "iadd_num":
            F += op[1]
            return F, A + op[1]
        if n == "isub":
            F -= M
            return F, A - M
        if n == "ipow":
            F **= op[1]
            return F, A ** op[1]
        if n == "mul_arr":
            return F * v, A * v
        if n == "div_arr":
            return F / v, A / v
        if n == "idiv_arr":
            F /= v
            return F, A / v
        if n == "mul_np":
            return F * np.float64(op[1]), A * op[1]
        if n == "imul_npi":
            F *= np.int64(op[1])
            return F, A * op[1]
        if n == "mul_0d":
            return F * np.array(op[1]), A * op[1]
        if n == "setrow":
            F[0] = -A[0]
            A[0] *= -1
            return F, A
        if n == "setitem":
            F[-1, 0] = op[1]
            A[-1, 0] = op[1]
            return F, A
        if n == "add_frame":
            return F + ReferenceFrame(M), A + M
        if n == "iadd_frame":
            F += ReferenceFrame(M)
            return F, A + M
        if n == "iadd_self":
            F += F
            return F, A * 2
        if n == "mul":
            return F * op[1], A * op[1]
        if n == "rmul":
            return op[1] * F, A * op[1]
        if n == "div":
            return F / op[1], A / op[1]
        if n == "mul_mat":
            return F * M, A * M
        if n == "div_mat":
            return F / M, A / M
        if n == "matmul":
            return F @ M, A @ M
        if n == "add":
            return F + M, A + M
        if n == "sub":
            return F - M, A - M
        if n == "neg":
            return -F, -A
        if n == "pow":
            return F ** op[1], A ** op[1]
        if n == "axes":
            F.axes = M
            return F, M
        if n == "T":
            F.transpose(inplace=True)
            return F, A.T
        if n == "Tnew":
            return F.T, A.T
        if n == "dual":
            return F.dual(), np.linalg.inv(A).T
        if n == "copy":
            return F.copy(), A
        if n == "deepcopy":
            return F.deepcopy(), A
        if n == "ufunc":
            np.multiply(F, op[1], out=F)
            return F, A * op[1]
        if n == "bool":
            F *= op[1]
            return F, A * 1.0
        if n == "orient":
            F.orient("Body", [0.3, 0.2, -0.6], "YZX")
            return F, A @ ref.dcm_body([0.3, 0.2, -0.6], "YZX")
        if n == "orient_new":
            return F.orient_new("Space", [0.3, 0.2, -0.6], "YZX"), A @ ref.dcm_space([0.3, 0.2, -0.6], "YZX")
    except (ValueError, AssertionError, NotImplementedError, TypeError) as e:
        return REFUSED, None
    raise KeyError(n)


SCALING = {"mul", "rmul", "div", "imul", "itruediv", "neg", "bool"}


def must_accept(F, op):
    """operations every class offers: they keep the class or give a more general one"""
    n = op[0]
    if type(F) is ReferenceFrame:
        return True
    d = F.axes.shape[-1]
    if n == "axes":
        r, o = truth(axes_named(d, op[1]))
        return r if type(F) is RectangularFrame else o
    if n in ("T", "Tnew"):
        r, o = truth(np.array(F.axes).T)
        return bool(r) if type(F) is RectangularFrame else bool(o)
    if n in ("ufunc", "setitem"):
        return False
    return True


def must_refuse(F, op):
    """assignments and transpositions that would break the promise of the class"""
    n = op[0]
    if type(F) is ReferenceFrame or n not in ("axes", "T", "Tnew"):
        return False
    d = F.axes.shape[-1]
    r, o = truth(axes_named(d, op[1]) if n == "axes" else np.array(F.axes).T)
    return (r is False) if type(F) is RectangularFrame else (o is False)


def step(ctx, F, op, what):
    """one operation with all that can be said about it; None if it leads out of the bounds"""
    d = F.axes.shape[-1]
    A0, c0 = np.array(F.axes), type(F)
    n = op[0]
    acc, rej = must_accept(F, op), must_refuse(F, op)
    G, want = apply(F, op)
    ctx.step()
    if G is REFUSED:
        if acc:
            raise Violation(f"{what}: {op} on a {c0.__name__} was refused, axes\n{A0}")
        if not np.array_equal(np.array(F.axes), A0) or type(F) is not c0:
            raise Violation(f"{what}: the refused {op} changed the frame")
        verify(ctx, F, what + f" refused {op}", deep=False)
        ctx.outcome("refused")
        return F
    if rej:
        raise Violation(f"{what}: {op} on a {c0.__name__} was not refused")
    if not isinstance(G, ReferenceFrame):
        raise Violation(f"{what}: {op} gave a {type(G).__name__}")
    expect(ctx, np.array(G.axes), want, f"{what}: axes after {op}", 1e-9)
    # documented classes
    if c0 is CartesianFrame and n in ("orient", "orient_new") and type(G) is not CartesianFrame:
        raise Violation(f"{what}: a rotated Cartesian frame is a {type(G).__name__}")
    if c0 is RectangularFrame and n in ("imul", "itruediv", "mul", "div") and type(G) is not RectangularFrame:
        raise Violation(f"{what}: a scaled rectangular frame is a {type(G).__name__}")
    if c0 is CartesianFrame and n in ("imul", "itruediv") and type(G) is not RectangularFrame:
        raise Violation(f"{what}: a scaled Cartesian frame is a {type(G).__name__}")
    if c0 is not ReferenceFrame and n in ("imatmul", "iadd", "isub", "ipow", "iadd_num", "imul_mat", "imul_arr") and type(G) is not ReferenceFrame:
        raise Violation(f"{what}: {op} of a {c0.__name__} gave a {type(G).__name__}")
    if n in ("axes", "T", "copy", "deepcopy") and type(G) is not c0:
        raise Violation(f"{what}: {op} changed the class to {type(G).__name__}")
    return G


def inside(A):
    return np.all(np.isfinite(A)) and ref.cond(A) < 40 and 0.02 < np.abs(A).max() < 60


def predict(F, op):
    """axes the operation would lead to, computed on a twin that is thrown away"""
    T = ReferenceFrame(np.array(F.axes))
    G, want = apply(T, op)
    return want


def k_hist(ctx, p):
    F = make_frame(p["cls"], axes_named(p["dim"], p["ax"]))
    verify(ctx, F, f"{p}", deep=not p["ops"])
    for i, op in enumerate(p["ops"]):
        want = predict(F, op)
        if want is None or not inside(want):
            return
        F.dual(), F.Gram(), F.volume(), F.is_rectangular, F.is_cartesian  # answers must not outlive the axes
        F = step(ctx, F, op, f"{p['cls']} {p['ax']} {p['ops'][:i]}")
        if i == len(p["ops"]) - 1:
            # the laws depend on class and axes only: deep check once per distinct state
            new = ctx.state((type(F).__name__, ref.canon(np.array(F.axes)))) or i < 2
            verify(ctx, F, f"{p['cls']} {p['ax']} after {p['ops'][: i + 1]}", deep=new)
    ctx.deeper(len(p["ops"]))
    ctx.trace()


def k_tree(ctx, p):
    L = ops(p["dim"], p["cls"], p.get("core", False))
    for rest in itertools.product(L, repeat=p["more"]):
        q = dict(cls=p["cls"], dim=p["dim"], ax=p["ax"], ops=[p["first"]] + list(rest))
        ctx.beat()
        try:
            k_hist(ctx, q)
        except Violation as v:
            raise Violation(str(v), "hist", q)


def k_ctor(ctx, p):
    """a frame can be built exactly from axes that fulfil the promise of its class"""
    d = p["dim"]
    A = axes_named(d, p["ax"]) * p.get("scale", 1.0)
    r, o = truth(A)
    ok = {"ref": True, "rect": r, "cart": o}[p["cls"]]
    try:
        F = FCLS[p["cls"]](np.array(A))
        made = True
    except (AssertionError, ValueError):
        made = False
    ctx.step()
    ctx.check(made == ok, "%s: %s", p, "built" if made else "refused")
    if made:
        verify(ctx, F, str(p))
        expect(ctx, np.array(F.axes), A, str(p), 1e-15)
    if p["cls"] == "cart" and r:
        F = CartesianFrame(np.array(A), normalize=True)
        verify(ctx, F, f"{p} normalized")
        expect(ctx, np.array(F.axes), A / np.linalg.norm(A, axis=1)[:, None], f"{p} normalized")
    if p["cls"] != "ref" and ok:
        kw = dict(assume_rectangular=True) if p["cls"] == "rect" else dict(assume_cartesian=True)
        verify(ctx, FCLS[p["cls"]](np.array(A), **kw), f"{p} assumed")
    # predicates on the bare axes
    ctx.check(bool(is_rectangular_frame(A)) == r, "%s: rectangular predicate", p)
    ctx.check(bool(is_orthonormal_frame(A)) == o, "%s: orthonormal predicate", p)
    ctx.check(bool(is_normal_frame(A)) == bool(np.allclose((A * A).sum(1), 1)), "%s: normal predicate", p)
    ctx.check(bool(is_independent_frame(A)), "%s: independent predicate", p)
    expect(ctx, Gram(A), A @ A.T, f"{p} Gram")
    expect(ctx, dual_frame(A) @ A.T, np.eye(d), f"{p} dual")
    ctx.state(str(p))
    ctx.trace()


def k_eye(ctx, p):
    for cls in FCLS.values():
        for F in (cls.eye(dim=p["dim"]), cls(dim=p["dim"]), cls.eye(dim=p["dim"], name="E")):
            expect(ctx, np.array(F.axes), np.eye(p["dim"]), f"{p} standard frame", 1e-15)
            ctx.check(type(F) is cls, "class")
            verify(ctx, F, f"standard {cls.__name__}")
    ctx.state(str(p))
    ctx.trace()


def k_multi(ctx, p):
    A = np.stack([ax(3, n) for n in p["ax"]]) if p["ax"] else np.zeros((0, 3, 3))
    F = ReferenceFrame(np.array(A))
    n = len(A)
    D = F.dual()
    for i in range(n):
        expect(ctx, F.Gram()[i], A[i] @ A[i].T, f"{p} Gram {i}")
        expect(ctx, np.array(D.axes)[i] @ A[i].T, np.eye(3), f"{p} dual {i}")
        expect(ctx, np.array(D.dual().axes)[i], A[i], f"{p} dual of the dual {i}")
        expect(ctx, abs(np.asarray(F.volume())[i]), abs(np.linalg.det(A[i])), f"{p} volume {i}")
    expect(ctx, np.array(F.axes), A, f"{p} unchanged", 1e-15)
    ctx.state(str(p))
    ctx.trace()


KINDS = {"hist": k_hist, "tree": k_tree, "ctor": k_ctor, "eye": k_eye, "multi": k_multi}


def cases(tier):
    th = tier == "thorough"
    for d in (1, 2, 3, 4, 5):
        yield "eye", dict(dim=d)
    for d in (2, 3, 4):
        names = list(ref.axes_alphabet(d)) + ["almost", "notunit"]
        for c in FCLS:
            for a in names:
                for s in (1.0, 0.25, -3.0):
                    yield "ctor", dict(dim=d, cls=c, ax=a, scale=s)
    names = list(ref.axes_alphabet(3))
    for a in itertools.product(names, repeat=2):
        yield "multi", dict(ax=list(a))
    yield "multi", dict(ax=[])
    roots = [
        (2, "ref", "skew"), (2, "ref", "eye"), (2, "rect", "rect"), (2, "rect", "eye"), (2, "cart", "rot"), (2, "cart", "mirror"),
        (3, "ref", "skewleft"), (3, "rect", "rect"), (3, "cart", "eye"), (3, "cart", "rot"),
    ]
    for d, c, a in roots:
        L = ops(d, c)
        for first in L:
            if th:
                yield "tree", dict(dim=d, cls=c, ax=a, first=first, more=2)
            else:
                yield "tree", dict(dim=d, cls=c, ax=a, first=first, more=1)
    if not th:
        for d, c, a in ((2, "cart", "rot"), (2, "rect", "rect")):
            for first in ops(d, c, True):
                yield "tree", dict(dim=d, cls=c, ax=a, first=first, more=2, core=True)
    if th:
        for d, c, a in ((2, "cart", "rot"), (2, "rect", "rect")):
            for first in ops(d, c, True):
                yield "tree", dict(dim=d, cls=c, ax=a, first=first, more=3, core=True)
