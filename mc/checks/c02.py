"""C02: change of basis, all orders, all frame pairs/triples, all rotations, call orders."""
import itertools
import math

import numpy as np
import sympy as sy

from .. import ref
from ..core import Violation
from ..interleave import Lab, explore
from ..objs import CON, FCLS, TK, comp_array, make_frame, make_tensor, rank_of
from sigmaepsilon.math.linalg import (
    CartesianFrame, RectangularFrame, ReferenceFrame, Tensor, Tensor2, Tensor4, Vector, rotation_matrix, show_frame, show_vector,
)


def ax(dim, name):
    if name.startswith("multi:"):
        return np.stack([ref.axes_alphabet(dim)[n] for n in name[6:].split(",")])
    if "~" in name:
        base, rel = name.split("~")
        return related(ref.axes_alphabet(dim)[base], rel)
    return ref.axes_alphabet(dim)[name]


from ..ref import RELATED, SCALED, related  # noqa


def cls_for(name):
    return {"eye": "cart", "rot": "cart", "mirror": "cart", "rect": "rect"}.get(name, "ref")


def frame(dim, spec):
    """'skew' -> a ReferenceFrame; '!rot' -> the most special class that fits"""
    if spec.startswith("!"):
        return make_frame(cls_for(spec[1:]), ax(dim, spec[1:])), ax(dim, spec[1:])
    return make_frame("ref", ax(dim, spec)), ax(dim, spec)


def variant(arr, how):
    a = np.array(arr, dtype=float)
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros(tuple(2 * n for n in a.shape))
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "int":
        return np.round(a).astype(int)
    if how == "f4":
        return a.astype(np.float32)
    return a


def expect(ctx, got, want, what, tol=1e-8, floor=1.0):
    ctx.step()
    if not ref.close(got, want, tol, floor):
        raise Violation(f"{what}: got\n{np.asarray(got)}\nexpected\n{np.asarray(want)}")


def amb_to(amb, A, rank):
    return ref.components(amb, A, rank) if A is not None else amb


def k_show(ctx, p):
    """components of one tensor in every target frame, and back"""
    dim, kind = p["dim"], p["kind"]
    r = rank_of(kind)
    F, A = frame(dim, p["S"])
    arr = variant(comp_array(kind, dim, p.get("seed", 0), p.get("con")), p.get("how", ""))
    vals = np.array(arr, dtype=float)
    arr0 = np.array(arr)
    cls, _, _, kw, _ = TK[kind]
    t = cls(arr, frame=F, **kw)
    amb = ref.ambient(vals, A, r)
    bulk = vals.ndim > r
    expect(ctx, t.show(), amb, f"{p}: ambient components", 1e-7, 0.0)
    ctx.check(t.rank == r, "%s: rank %s", p, t.rank)
    targets = {}
    for name in p["T"]:
        G, B = frame(dim, name)
        want = ref.components(amb, B, r)
        got = t.show(G)
        expect(ctx, got, want, f"{p}: components in {name}", 1e-7, 0.0)
        ctx.check(isinstance(got, np.ndarray), "show did not return an array")
        expect(ctx, t.show(dcm=F.dcm(target=G)), want, f"{p}: components by the matrix to {name}", 1e-7, 0.0)
        # the same object described in the target, shown back, and through every other target
        u = cls(np.array(got), frame=G, **kw)
        expect(ctx, u.show(F), vals, f"{p}: back from {name}", 1e-7, 0.0)
        expect(ctx, u.show(), amb, f"{p}: ambient from {name}", 1e-7, 0.0)
        targets[name] = (u, G, B, want)
        ctx.state((dim, kind, p["S"], name, p.get("how", ""), p.get("con")))
    for (n1, (u1, G1, B1, w1)), (n2, (u2, G2, B2, w2)) in itertools.permutations(targets.items(), 2):
        expect(ctx, u1.show(G2), w2, f"{p}: from {n1} to {n2}", 1e-7, 0.0)
    # asking changed nothing
    ctx.check(np.array_equal(np.array(t.array), vals), "%s: components changed by asking", p)
    ctx.check(np.array_equal(np.array(arr), arr0), "%s: the given array changed", p)
    ctx.check(ref.close(np.array(F.axes), A, 1e-15) and t.frame is F, "%s: frame changed by asking", p)
    for n, (u, G, B, w) in targets.items():
        ctx.check(ref.close(np.array(G.axes), B, 1e-15), "%s: target %s changed by asking", p, n)
    ctx.trace()


def k_dcm(ctx, p):
    """transformation matrices among all triples of frames of a dimension"""
    dim = p["dim"]
    fs = {n: frame(dim, n) for n in p["F"]}
    a = p["first"]
    FA, A = fs[a]
    expect(ctx, FA.show(), A, f"{a} shown in the ambient frame")
    expect(ctx, FA.dcm(), A, f"matrix of {a}")
    for b, (FB, B) in fs.items():
        D = np.linalg.inv(B).T @ A.T
        expect(ctx, FA.dcm(target=FB), D, f"dim {dim}: matrix from {a} to {b}")
        expect(ctx, FB.dcm(source=FA), D, f"dim {dim}: matrix from {a} to {b}, asked from the target")
        expect(ctx, FA.dcm(target=FB) @ FB.dcm(target=FA), np.eye(dim), f"there and back {a} {b}")
        expect(ctx, FB.show(FA), D, f"dim {dim}: {b} shown in {a}")
        expect(ctx, FA.show(FB), np.linalg.inv(A).T @ B.T, f"dim {dim}: {a} shown in {b}")
        ctx.state((dim, a, b))
        for c, (FC, C) in fs.items():
            expect(ctx, FB.dcm(target=FC) @ FA.dcm(target=FB), FA.dcm(target=FC), f"composition {a} {b} {c}")
            ctx.state((dim, a, b, c))
    for n, (X, M) in fs.items():
        ctx.check(np.array_equal(np.array(X.axes), M), "frame %s changed by asking", n)
    ctx.trace()


def rotation(spec):
    """the matrix of a rotation by its definition, rows = rotated unit vectors; and the arguments"""
    t = spec[0]
    if t == "Body":
        return ref.dcm_body(spec[1], str(spec[2]).upper()), (t, spec[1], spec[2])
    if t == "Space":
        return ref.dcm_space(spec[1], str(spec[2]).upper()), (t, spec[1], spec[2])
    if t == "Quaternion":
        q = np.array(spec[1]) / np.linalg.norm(spec[1])
        return ref.dcm_quaternion(q), (t, q.tolist())
    if t == "DCM":
        M = ref.dcm_space(spec[1], "XYZ")
        return M, (t, sy.Matrix(M.T))
    raise KeyError(t)


def k_rot(ctx, p):
    R, args = rotation(p["spec"])
    M = rotation_matrix(*args)
    expect(ctx, M, R, f"{p}: rotation matrix")
    ctx.state(repr(p["spec"]))
    for name in p["F"]:
        F, A = frame(3, name)
        keep = np.array(A)
        for new in (F.orient_new(*args), F.rotate_new(*args), F.rotate(*args, inplace=False)):
            expect(ctx, np.array(new.axes), A @ R, f"{p}: {name} rotated, new")
            ctx.check(type(new) is type(F), "%s: class of the rotated frame", p)
            ctx.check(new is not F, "not new")
        expect(ctx, np.array(F.axes), keep, f"{p}: {name} changed by making a rotated one", 1e-15)
        for kind in p["K"]:
            t = make_tensor(kind, F, comp_array(kind, 3, 1))
            r = rank_of(kind)
            c0 = np.array(t.array)
            want = ref.contract(c0, R.T, r)
            u = t.orient_new(*args)
            expect(ctx, np.array(u.array), want, f"{p}: {kind} in {name} rotated, new", 1e-7)
            ctx.check(type(u) is type(t) and u.frame is F, "%s: class or frame of the rotated %s", p, kind)
            expect(ctx, np.array(t.array), c0, f"{p}: {kind} changed", 1e-15)
            if kind == "v":
                w = Vector(np.array(c0), frame=F)
                back = w.orient(dcm=np.array(R))
                expect(ctx, np.array(w.array), want, f"{p}: vector rotated by a matrix")
                ctx.check(back is w, "orient returned another object")
            back = t.orient(*args)
            ctx.check(back is t, "orient returned another object")
            expect(ctx, np.array(t.array), want, f"{p}: {kind} in {name} rotated in place", 1e-7)
            expect(ctx, np.array(F.axes), keep, f"{p}: rotating {kind} changed its frame", 1e-15)
            ctx.state((repr(p["spec"]), name, kind))
        for meth in ("orient", "rotate"):
            G, B = frame(3, name)
            back = getattr(G, meth)(*args)
            ctx.check(back is G, "%s returned another object", meth)
            expect(ctx, np.array(G.axes), B @ R, f"{p}: {name} rotated in place")
            G.orient(*args)
            expect(ctx, np.array(G.axes), B @ R @ R, f"{p}: {name} rotated in place twice")
    ctx.trace()


SEQ_ITEMS = [
    ("g1", 2), ("g2", 3), ("g3", 2), ("g3", 3), ("g2", 4), ("t4", 2), ("t4", 3), ("t2", 3), ("g5", 2), ("v", 3), ("g6", 2),
    ("t4b", 3), ("t2b", 2),
]


def k_seq(ctx, p):
    """a sequence of calls on tensors of different order and dimension in one process"""
    for i in p["seq"]:
        kind, dim = SEQ_ITEMS[i]
        F, A = frame(dim, "skew")
        G, B = frame(dim, "rect")
        for seed in (0, 1):
            arr = comp_array(kind, dim, seed)
            t = make_tensor(kind, F, arr)
            amb = ref.ambient(arr, A, rank_of(kind))
            expect(ctx, t.show(G), ref.components(amb, B, rank_of(kind)), f"{p}: {kind} in {dim}d", 1e-7)
            expect(ctx, t.show(), amb, f"{p}: {kind} in {dim}d ambient", 1e-7)
    ctx.state(repr(p["seq"]))
    ctx.deeper(len(p["seq"]))
    ctx.trace()


def k_multi(ctx, p):
    """one frame per item on either side"""
    dim, kind, n = 3, p["kind"], 2
    r = rank_of(kind)
    F, A = frame(dim, p["S"])
    G, B = frame(dim, p["T"])
    arr = comp_array(kind, dim, 2)
    cls, _, _, kw, _ = TK[kind]
    t = cls(np.array(arr), frame=F, **kw)
    amb = ref.ambient(arr, A, r)
    want = ref.components(amb, B, r)
    expect(ctx, t.show(G), want, f"{p}: items", 1e-7)
    expect(ctx, t.show(), amb, f"{p}: items in the ambient frame", 1e-7)
    expect(ctx, cls(np.array(want), frame=G, **kw).show(F), arr, f"{p}: back", 1e-7)
    D = F.dcm(target=G)
    A3 = A if A.ndim == 3 else np.stack([A] * n)
    B3 = B if B.ndim == 3 else np.stack([B] * n)
    D3 = np.asarray(D) if np.ndim(D) == 3 else np.stack([D] * n)
    expect(ctx, D3, np.stack([np.linalg.inv(b).T @ a.T for a, b in zip(A3, B3)]), f"{p}: matrices")
    expect(ctx, np.array(t.array), arr, f"{p}: changed", 1e-15)
    ctx.state((p["kind"], p["S"], p["T"]))
    ctx.trace()


def k_direct(ctx, p):
    """show_vector and show_frame on bare arrays: each vector is multiplied by its matrix"""
    dim, n = p["dim"], p["n"]
    D = ref.axes_alphabet(dim)[p["D"]]
    Ds = np.stack([D * (1 + 0.5 * i) + 0.25 * i * np.arange(dim) for i in range(n)]) if n else np.zeros((0, dim, dim))
    v = comp_array("v", dim, 1)
    vs = ref.mixed((n, dim), 1)
    A = comp_array("t2", dim, 1)
    As = ref.mixed((n, dim, dim), 2)
    plan = [
        (show_vector, D, v, lambda: D @ v), (show_vector, D, vs, lambda: vs @ D.T), (show_vector, Ds, vs, lambda: np.einsum("nij,nj->ni", Ds, vs)),
        (show_frame, D, A, lambda: A @ D.T), (show_frame, D, As, lambda: np.einsum("ij,nkj->nki", D, As)), (show_frame, Ds, As, lambda: np.einsum("nij,nkj->nki", Ds, As)),
    ]
    for f, d, a, want in plan:
        for how in (None, "F", "strided"):
            d2, a2 = variant(d, how), variant(a, how)
            got = np.array(f(d2, a2))
            expect(ctx, got, want(), f"{p}: {f.__name__} {d.shape} {a.shape} {how}")
            expect(ctx, d2, d, f"{p}: matrix changed", 1e-15)
            expect(ctx, a2, a, f"{p}: array changed", 1e-15)
    for f, d, a in ((show_vector, Ds, v), (show_vector, v, v), (show_frame, D, v), (show_frame, Ds, A), (show_frame, v, A)):
        try:
            f(d, a)
        except Exception:  # noqa
            continue
        raise Violation(f"{p}: {f.__name__} answered for shapes {d.shape} and {a.shape}")
    ctx.state(("direct", dim, n, p["D"]))
    ctx.trace()


LAB = []


def k_sched(ctx, p):
    """schedules of the loops over the items"""
    if not LAB:
        LAB.append(Lab())
    N, dim = p["N"], 3
    D, Ds = ref.axes_alphabet(dim)["skew"], ref.mixed((N, dim, dim), 3)
    vs, As = ref.mixed((N, dim), 1), ref.mixed((N, dim, dim), 2)
    f, d, a = {"v1": (show_vector, D, vs), "vN": (show_vector, Ds, vs), "f": (show_frame, D, As[0]), "f1": (show_frame, D, As), "fN": (show_frame, Ds, As)}[p["what"]]
    explore(ctx, LAB[0], f"{p['what']} N={N}", lambda: [np.array(f(d.copy(), a.copy()))], lambda x, y: ref.close(x[0], y[0], 1e-10), bound=p["bound"], limit=300000)


KINDS = {"sched": k_sched, "direct": k_direct, "show": k_show, "dcm": k_dcm, "rot": k_rot, "seq": k_seq, "multi": k_multi}

ORDERS = ["".join(o) for o in itertools.product("XYZ", repeat=3) if o[0] != o[1] and o[1] != o[2]]


def cases(tier):
    thorough = tier == "thorough"
    n = len(SEQ_ITEMS)
    # call orders first: every share starts with another first call in a fresh process
    for k in range(8):
        yield "seq", dict(seq=[(k + 3 * j) % n for j in range(n)])
    for dim in (1, 2, 3, 4):
        names = list(ref.axes_alphabet(dim))
        spec = names + ["!" + x for x in names]
        for a in spec:
            yield "dcm", dict(dim=dim, first=a, F=spec)
        kinds = ["v", "t2", "t4", "g1", "g2", "g3", "vb", "vb5", "t2b", "t2b5", "t4b"]
        if dim <= 3:
            kinds += ["g5"]
        if dim <= 2 or (dim == 3):
            kinds += ["g6"]
        if dim == 3:
            kinds += ["t2x3", "t2x3b", "t2x3n", "t2x3nn", "t4x3", "t4x3b", "t4x3n"]
        for kind in kinds:
            for a in spec:
                if rank_of(kind) >= 5 and dim >= 3 and a.startswith("!"):
                    continue
                T = spec if rank_of(kind) <= 2 or thorough else names
                if rank_of(kind) >= 5 and dim == 3 and not thorough:
                    T = ["eye", "skewneg", "skew"]
                yield "show", dict(dim=dim, kind=kind, S=a, T=T)
    for w in ("v1", "vN", "f", "f1", "fN"):
        for N, b in ((2, 2), (3, 1)) if not thorough else ((2, 3), (3, 2)):
            yield "sched", dict(what=w, N=N, bound=b)
    for dim in (1, 2, 3, 4):
        for nm in ref.axes_alphabet(dim):
            for k in (0, 1, 2, 3, 4, 5, 17, 64, 65, 1000):
                yield "direct", dict(dim=dim, D=nm, n=k)
    for dim in (2, 3):  # frames that share something
        for a in ("eye", "rot", "rect", "skew"):
            R = [f"{a}~{r}" for r in RELATED]
            for kind in ("v", "t2", "t4", "g3", "vb", "t2b"):
                yield "show", dict(dim=dim, kind=kind, S=a, T=R)
            for r in RELATED:
                yield "dcm", dict(dim=dim, first=f"{a}~{r}", F=[a] + R)
        for a in ("eye", "rot", "skew"):  # other units
            R = [f"{a}~{r}" for r in SCALED]
            for kind in ("v", "t2", "t4", "g3", "vb", "t2b"):
                yield "show", dict(dim=dim, kind=kind, S=a, T=R[:3])
                yield "show", dict(dim=dim, kind=kind, S=R[2], T=[a] + R[:2] + ["skewneg"])
                if rank_of(kind) == 1:
                    yield "show", dict(dim=dim, kind=kind, S=R[3], T=[a, "rect~mixed"])
        for a in ("eye", "!rot", "skew", "!rect"):  # special contents
            for kind in ("v", "t2", "t4", "g2", "g3", "vb", "t2b", "t4b") + (("t2x3", "t2x3n", "t4x3n") if dim == 3 else ()):
                for con in CON:
                    yield "show", dict(dim=dim, kind=kind, S=a, T=["skewneg", "!rot", "mirror"] if rank_of(kind) < 4 or thorough else ["skewneg", "rot"], con=con)
    for kind in ("v", "t2", "t4", "g3", "vb", "t2b", "t4b"):
        for how in ("F", "strided", "int", "f4"):
            for a in ("eye", "skew", "!rect"):
                yield "show", dict(dim=3, kind=kind, S=a, T=["skewneg", "rot"], how=how)
    ms = ["multi:eye,skew", "multi:rot,skewleft", "multi:rect,skewneg"]
    for kind in ("vb", "t2b", "t4b", "t2x3b", "t2x3n", "t2x3nn", "t4x3b", "t4x3n"):
        for a in ms + ["skew", "!rect"]:
            for b in ms + ["skewleft", "!rot"]:
                yield "multi", dict(kind=kind, S=a, T=b)
    angs = [[0.3, -0.5, 1.1], [math.pi / 2, 0.0, 0.0], [0.0, math.pi / 2, -2.5]]
    if thorough:
        angs += [[math.pi, -math.pi / 2, 0.25], [0.0, 0.0, 0.0], [1e-3, 3.0, -1.5]]
    for t in ("Body", "Space"):
        for o in ORDERS:
            for i, an in enumerate(angs):
                yield "rot", dict(spec=[t, an, o], F=["eye", "!rot", "skew"] if i == 0 or thorough else ["skewneg"], K=["v", "t2", "g3", "t4"] if i == 0 else ["v", "t2b", "vb"])
        yield "rot", dict(spec=[t, angs[0], "zxy"], F=["!rect"], K=["v"])
        yield "rot", dict(spec=[t, angs[0], 132], F=["!rect"], K=["v"])
        yield "rot", dict(spec=[t, angs[0], "213"], F=["!rect"], K=["v"])
    for q in ([1, 0, 0, 0], [0.5, 0.5, -0.5, 0.5], [0.1, 0.9, 0.2, -0.3], [0, 0, 0, 1], [-0.7, 0.1, 0.2, 0.3]):
        yield "rot", dict(spec=["Quaternion", q], F=["eye", "skew", "!rot"], K=["v", "t2", "t4"])
    for an in angs:
        yield "rot", dict(spec=["DCM", an], F=["eye", "skew", "!rot"], K=["v", "t2", "t4"])
    for s in itertools.product(range(n), repeat=3 if thorough else 2):
        yield "seq", dict(seq=list(s))
