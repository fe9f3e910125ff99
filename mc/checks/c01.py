"""C01: histories of frame changes; the reference model keeps ambient values."""
import gc
import operator

import numpy as np

from .. import ref
from ..core import Violation
from ..objs import FCLS, TK, comp_array, make_frame, make_tensor, rank_of
from sigmaepsilon.math.linalg import ReferenceFrame

IOP = {"add": operator.iadd, "sub": operator.isub, "mul": operator.imul, "matmul": operator.imatmul}
MOP = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "matmul": np.matmul}
NPU = {"multiply": np.multiply, "add": np.add, "subtract": np.subtract, "divide": np.divide}


_AX = {}


def axes_of(dim, name):
    """an axes alphabet entry; 'multi:a,b' is a collection of frames"""
    if (dim, name) not in _AX:
        if name.startswith("multi:"):
            a = np.stack([ref.axes_alphabet(dim)[n] for n in name[6:].split(",")])
        else:
            a = ref.axes_alphabet(dim)[name]
        a.setflags(write=False)
        _AX[dim, name] = a
    return np.array(_AX[dim, name])


class Refused(Exception):
    pass


class Sys:
    """The real objects next to the reference model."""

    def __init__(self, root):
        self.root = root
        self.dim = root["dim"]
        self.F, self.T = {}, {}
        self.axes, self.cls = {}, {}
        self.amb, self.fr, self.kind = {}, {}, {}
        for name, (cls, ax) in root["frames"].items():
            self.F[name] = make_frame(cls, axes_of(self.dim, ax))
            self.axes[name] = axes_of(self.dim, ax)
            self.cls[name] = cls
        for i, (name, (kind, fname)) in enumerate(root["tensors"].items()):
            self.new(name, kind, fname, i)
        self.anon = 0

    def new(self, name, kind, fname, seed):
        arr = comp_array(kind, self.dim, seed)
        self.T[name] = make_tensor(kind, self.F[fname], arr)
        self.kind[name], self.fr[name] = kind, fname
        self.amb[name] = ref.ambient(arr, self.axes[fname], rank_of(kind))

    def attached(self, fname):
        return [t for t in self.T if self.fr[t] == fname]

    # -- model of one frame change ---------------------------------------
    def result_axes(self, op):
        """the axes a frame operation leads to, by its definition"""
        name, f = op[0], op[1]
        A = self.axes[f]
        if name in ("axes", "axes_list"):
            return axes_of(self.dim, op[2])
        if name in ("setrow", "setitem", "setall", "chop"):
            A = np.array(A)
            if name == "setrow":
                A[..., -1, :] = axes_of(self.dim, op[2])[-1]
            elif name == "setitem":
                A[..., 0, -1] = op[2]
            elif name == "setall":
                A[...] = axes_of(self.dim, op[2])
            else:
                A[np.abs(A) < op[2]] = 0.0
            return A
        if name == "axes_rel":
            return np.array([ref.related(a, op[2]) for a in A]) if A.ndim == 3 else ref.related(A, op[2])
        if name in ("ibin", "ufr"):
            return MOP[op[2]](A, self.axes[op[3]])
        if name == "imul":
            return A * op[2]
        if name == "imul_arr":
            return A * np.array(op[2][: self.dim])
        if name == "itruediv":
            return A / op[2]
        if name == "imatmul":
            return A @ axes_of(self.dim, op[2])
        if name == "iadd":
            return A + axes_of(self.dim, op[2])
        if name == "iadd_num":
            return A + op[2]
        if name == "isub":
            return A - axes_of(self.dim, op[2])
        if name == "ipow":
            return A ** op[2]
        if name == "orient" or name == "rotate":
            f_ = {"Body": ref.dcm_body, "Space": ref.dcm_space}[op[2]]
            return A @ f_(op[3], op[4])
        if name == "T":
            return np.swapaxes(A, -1, -2)
        if name == "ufunc":
            return NPU[op[2]](A, op[3] if not isinstance(op[3], str) else axes_of(self.dim, op[3]))
        if name == "ufunc_other":
            return NPU[op[2]](self.axes[op[3]], op[4])
        raise KeyError(name)

    def result_cls(self, op):
        name, c = op[0], self.cls[op[1]]
        if c == "ref" or name in ("axes", "axes_list", "axes_rel", "setrow", "setitem", "setall", "chop", "orient", "rotate", "T"):
            return c
        if name in ("imul", "itruediv"):
            return "rect"
        return "ref"

    def admissible(self, op):
        """the new axes are regular enough and admissible for the class"""
        A = self.result_axes(op)
        if not np.all(np.isfinite(A)) or ref.cond(A) > 50:
            return False
        m = np.abs(A).max()
        if m > 50 or m < 0.02:
            return False
        c = self.result_cls(op)
        if c == "ref":
            return True
        G = A @ A.T
        if c == "rect":
            return ref.close(G - np.diag(np.diag(G)), np.zeros_like(G), 1e-12)
        return ref.close(G, np.eye(len(G)), 1e-12)

    FRAME_OPS = {
        "axes", "axes_list", "axes_rel", "setrow", "setitem", "setall", "chop", "ibin", "ufr", "imul", "imul_arr", "itruediv", "imatmul", "iadd", "iadd_num", "isub",
        "ipow", "orient", "rotate", "T", "ufunc", "ufunc_other",
    }

    def enabled(self, op):
        name = op[0]
        if name in self.FRAME_OPS:
            if op[1] not in self.F:
                return False
            if name in ("ibin", "ufr") and op[3] not in self.F:
                return False
            if (name.startswith("ufunc") or name == "ufr") and self.cls[op[1]] != "ref":
                return False
            if name == "ufunc_other" and op[3] not in self.F:
                return False
            if name in ("orient", "rotate") and (self.dim != 3 or self.axes[op[1]].ndim != 2):
                return False
            return self.admissible(op)
        if name in ("bad_shape", "bad_type"):
            return op[1] in self.F
        if name in ("bad_sing", "bad_isub"):
            return op[1] in self.F and bool(self.attached(op[1]))
        if name == "bad_item":
            if op[1] not in self.F or self.cls[op[1]] == "ref":
                return False
            A = np.array(self.axes[op[1]])
            A[0, -1] += 0.5
            G = A @ A.T
            return np.abs(G - np.diag(np.diag(G))).max() > 0.01 * np.abs(G).max()
        if name in ("bad_ufunc", "bad_cls"):
            return op[1] in self.F and self.cls[op[1]] != "ref"
        if name == "bad_matmul":
            return op[1] in self.F
        if name == "move":
            return op[1] in self.T and op[2] in self.F
        if name in ("move_arr", "bad_move", "scale", "Tt"):
            return op[1] in self.T
        if name in ("copy", "mul", "neg", "deepcopy"):
            return op[1] in self.T and op[2] not in self.T
        if name == "addt":
            return (
                op[1] in self.T and op[2] in self.T
                and self.T[op[1]].array.shape == self.T[op[2]].array.shape
                and self.kind[op[1]] == self.kind[op[2]]
            )
        if name == "new":
            return op[1] not in self.T and op[3] in self.F
        if name == "del":
            return op[1] in self.T
        if name == "delframe":
            return op[1] in self.F and len(self.F) > 1
        if name == "newframe":
            return op[1] not in self.F and op[2] in self.F
        raise KeyError(name)

    # -- the operation on the real objects -------------------------------
    def apply(self, op):
        name = op[0]
        if name in self.FRAME_OPS:
            return self.apply_frame(op)
        if name.startswith("bad_"):
            return self.apply_bad(op)
        T, F = self.T, self.F
        if name == "move":
            T[op[1]].frame = F[op[2]]
            self.fr[op[1]] = op[2]
        elif name == "move_arr":
            A = np.array(axes_of(self.dim, op[2]))
            if self.axes[self.fr[op[1]]].ndim == 3:
                A = np.stack([A * (1 + i) for i in range(len(self.axes[self.fr[op[1]]]))])
            A0 = A.copy()
            T[op[1]].frame = A
            self.anon += 1
            fn = f"_anon{self.anon}"
            F_ = T[op[1]].frame
            A[...] = 7.0  # the caller's array is the caller's
            self.fr[op[1]] = fn
            self.axes[fn], self.cls[fn] = A0, "ref"
            self.F[fn] = F_
        elif name == "scale":
            T[op[1]] *= op[2]
            self.amb[op[1]] = self.amb[op[1]] * op[2]
        elif name == "Tt":
            r = rank_of(self.kind[op[1]])
            T[op[1]].transpose(inplace=True)
            a = self.amb[op[1]]
            ax = list(range(a.ndim))
            self.amb[op[1]] = a.transpose(ax[: a.ndim - r] + ax[a.ndim - r:][::-1])
        elif name == "addt":
            T[op[1]] += T[op[2]]
            self.amb[op[1]] = self.amb[op[1]] + self.amb[op[2]]
        elif name == "copy":
            T[op[2]] = T[op[1]].copy()
            self._clone(op[1], op[2], self.amb[op[1]])
        elif name == "deepcopy":
            T[op[2]] = T[op[1]].deepcopy()
            self.anon += 1
            fn = f"_anon{self.anon}"
            self.axes[fn], self.cls[fn] = self.axes[self.fr[op[1]]].copy(), "ref"
            self.F[fn] = T[op[2]].frame
            self._clone(op[1], op[2], self.amb[op[1]])
            self.fr[op[2]] = fn
        elif name == "mul":
            T[op[2]] = T[op[1]] * 3.0
            self._clone(op[1], op[2], 3.0 * self.amb[op[1]])
        elif name == "neg":
            T[op[2]] = -T[op[1]]
            self._clone(op[1], op[2], -self.amb[op[1]])
        elif name == "new":
            self.new(op[1], op[2], op[3], 5)
        elif name == "del":
            del T[op[1]], self.amb[op[1]], self.fr[op[1]], self.kind[op[1]]
        elif name == "delframe":
            f = op[1]
            obj = F.pop(f)
            self.anon += 1
            fn = f"_anon{self.anon}"
            self.axes[fn], self.cls[fn] = self.axes.pop(f), self.cls.pop(f)
            for t in self.fr:
                if self.fr[t] == f:
                    self.fr[t] = fn
            self.F_only_model = fn
            del obj
        elif name == "newframe":
            F[op[1]] = F[op[2]] * op[3]
            self.axes[op[1]] = self.axes[op[2]] * op[3]
            self.cls[op[1]] = "ref" if self.cls[op[2]] == "ref" else "rect"
        else:
            raise KeyError(name)

    def _clone(self, a, b, amb):
        self.kind[b], self.fr[b], self.amb[b] = self.kind[a], self.fr[a], np.array(amb)

    def apply_frame(self, op):
        name, f = op[0], op[1]
        newA, newc = self.result_axes(op), self.result_cls(op)
        X = self.F[f]
        if name == "axes":
            B = np.array(axes_of(self.dim, op[2]))
            X.axes = B
            B[...] = -3.0
        elif name == "axes_list":
            X.axes = axes_of(self.dim, op[2]).tolist()
        elif name == "axes_rel":
            X.axes = np.array(newA)
        elif name == "setrow":
            X[..., -1, :] = axes_of(self.dim, op[2])[-1]
        elif name == "setitem":
            X[..., 0, -1] = op[2]
        elif name == "setall":
            X[...] = axes_of(self.dim, op[2])
        elif name == "chop":
            X.chop(op[2])
        elif name == "ibin":
            X = IOP[op[2]](X, self.F[op[3]])
        elif name == "ufr":
            MOP[op[2]](X, self.F[op[3]], out=X)
        elif name == "imul":
            X *= op[2]
        elif name == "imul_arr":
            X *= np.array(op[2][: self.dim])
        elif name == "itruediv":
            X /= op[2]
        elif name == "imatmul":
            X @= axes_of(self.dim, op[2])
        elif name == "iadd":
            X += axes_of(self.dim, op[2])
        elif name == "iadd_num":
            X += op[2]
        elif name == "isub":
            X -= axes_of(self.dim, op[2])
        elif name == "ipow":
            X **= op[2]
        elif name == "orient":
            X.orient(op[2], op[3], op[4])
        elif name == "rotate":
            X.rotate(op[2], op[3], op[4])
        elif name == "T":
            X.transpose(inplace=True)
        elif name == "ufunc":
            NPU[op[2]](X, op[3] if not isinstance(op[3], str) else axes_of(self.dim, op[3]), out=X)
        elif name == "ufunc_other":
            NPU[op[2]](self.F[op[3]], op[4], out=X)
        self.F[f] = X
        self.axes[f], self.cls[f] = newA, newc

    def apply_bad(self, op):
        name = op[0]
        d = self.dim
        try:
            if name == "bad_shape":
                self.F[op[1]].axes = np.eye(d + 1)
            elif name == "bad_type":
                self.F[op[1]].axes = 5
            elif name == "bad_sing":
                A = np.array(self.axes[op[1]])
                A[..., 0, :] = 0.0
                self.F[op[1]].axes = A
            elif name == "bad_isub":
                X = self.F[op[1]]
                X -= np.array(X.axes)
            elif name == "bad_ufunc":
                np.multiply(self.F[op[1]], 2.0, out=self.F[op[1]])
            elif name == "bad_item":
                self.F[op[1]][0, -1] += 0.5
            elif name == "bad_cls":
                self.F[op[1]].axes = axes_of(d, "skew")
            elif name == "bad_matmul":
                X = self.F[op[1]]
                X @= np.eye(d + 2)
            elif name == "bad_move":
                self.T[op[1]].frame = op[2]
        except Exception:
            return
        raise Violation(f"{op} was not refused")

    # -- the property -----------------------------------------------------
    def verify(self):
        for f, X in self.F.items():
            if not ref.close(np.array(X.axes), self.axes[f]):
                raise Violation(f"frame {f}: axes are\n{np.array(X.axes)}\nexpected\n{self.axes[f]}")
            if type(X) is not FCLS[self.cls[f]]:
                raise Violation(f"frame {f} is a {type(X).__name__}, expected {self.cls[f]}")
        for t, X in self.T.items():
            fr, r = self.fr[t], rank_of(self.kind[t])
            if fr in self.F and X.frame is not self.F[fr]:
                raise Violation(f"tensor {t} is not attached to its frame {fr}")
            if type(X) is not TK[self.kind[t]][0]:
                raise Violation(f"tensor {t} turned into {type(X).__name__}")
            want = ref.components(self.amb[t], self.axes[fr], r)
            if not ref.close(np.array(X.array), want, 1e-7):
                raise Violation(
                    f"tensor {t} ({self.kind[t]}) in frame {fr}: components\n{np.array(X.array)}\nexpected\n{want}"
                )
            if not ref.close(np.array(X.frame.axes), self.axes[fr]):
                raise Violation(f"the frame of tensor {t} has axes\n{X.frame.axes}\nexpected\n{self.axes[fr]}")
            if self.axes[fr].ndim == 2 and not ref.close(X.show(), self.amb[t], 1e-7):
                raise Violation(f"tensor {t} ({self.kind[t]}): ambient components\n{X.show()}\nexpected\n{self.amb[t]}")

    def key(self):
        k = []
        for f in sorted(self.axes):
            k.append((f, self.cls[f], ref.canon(self.axes[f])))
        for t in sorted(self.T):
            k.append((t, self.fr[t], ref.canon(self.amb[t])))
        return repr(k).encode()


# ------------------------------------------------------------------ alphabets
def alphabet(root):
    d, F = root["dim"], sorted(root["frames"])
    multi = root["frames"][F[0]][1].startswith("multi:")
    cls = root["frames"][F[0]][0]
    T = sorted(root["tensors"])
    f, g = F[0], F[-1]
    ops = []
    if not multi:
        if cls == "ref":
            ops += [["axes", f, "skew"], ["axes_list", f, "rect"], ["axes", g, "skewneg"]]
            ops += [["imul_arr", f, [2.0, 0.5, -1.0]], ["imatmul", f, "skew"], ["iadd", f, "skewneg"]]
            ops += [["isub", f, "skewleft"], ["ipow", f, 3], ["iadd_num", f, 0.25]]
            ops += [["ufunc", f, "multiply", 2.0], ["ufunc", f, "add", "skew"], ["ufunc_other", f, "multiply", g, 0.5]]
        elif cls == "rect":
            ops += [["axes", f, "rect"], ["axes_list", f, "rot"], ["imatmul", f, "rot"], ["iadd", f, "rect"]]
            ops += [["isub", f, "skewleft"], ["imul_arr", f, [2.0, 0.5, -1.0]], ["ipow", f, 3], ["bad_ufunc", f], ["bad_cls", f]]
        else:
            ops += [["axes", f, "rot"], ["axes_list", f, "mirror"], ["imatmul", f, "skew"], ["iadd", f, "skewneg"]]
            ops += [["isub", f, "skewleft"], ["imul_arr", f, [2.0, 0.5, -1.0]], ["bad_ufunc", f], ["bad_cls", f]]
        ops += [["imul", f, 2.0], ["itruediv", f, -2.0], ["imul", g, 2], ["T", f]]
        if root.get("fr"):
            ops = [["ibin", f, "add", f], ["ibin", f, "matmul", f], ["ibin", f, "add", g], ["ibin", f, "sub", g], ["ibin", g, "matmul", f], ["ibin", g, "mul", f]]
            ops += [["ufr", f, "add", f], ["ufr", f, "matmul", g], ["ufr", g, "add", f], ["axes_rel", f, "last-"]]
        if d == 3:
            ops += [["orient", f, "Body", [0.3, -0.5, 0.8], "ZXY"], ["rotate", f, "Space", [0.0, 0.0, 1.2], "XYZ"]]
    else:
        n = len(root["frames"][F[0]][1].split(","))
        names = ["skew", "rect", "skewneg", "rot"]
        m1 = "multi:" + ",".join((names * n)[:n])
        m2 = "multi:" + ",".join((names * n)[1: n + 1])
        ops += [["axes", f, m1], ["axes_list", f, m2], ["axes", g, m2], ["imul", f, 2.0], ["itruediv", f, -2.0]]
        ops += [["imul_arr", f, [2.0, 0.5, -1.0]], ["imatmul", f, "skew"], ["iadd", f, m2], ["ufunc", f, "multiply", 0.5], ["T", f]]
    ops += [["bad_shape", f], ["bad_sing", f], ["bad_isub", f]]
    t, u = T[0], T[-1]
    ops += [["move", t, g], ["move", t, f], ["move", u, g], ["move_arr", u, "skew"]]
    ops += [["del", t], ["new", t, root["tensors"][t][0], f], ["new", "n", root["tensors"][u][0], g]]
    ops += [["scale", t, -2.0], ["copy", t, "c"], ["mul", u, "m"], ["delframe", g]]
    if d == 3:
        ops += [["Tt", u]]
    if not multi and d == 2:
        ops += [["neg", t, "k"], ["deepcopy", u, "dc"], ["addt", t, u], ["newframe", "H", f, 2.0], ["bad_type", f], ["bad_matmul", f], ["bad_move", t, 3]]
    return ops


def roots(tier):
    R = []

    def root(dim, frames, tensors, **kw):
        R.append(dict(dim=dim, frames=frames, tensors=tensors, **kw))

    root(2, {"A": ("ref", "eye"), "B": ("ref", "skew")}, {"t": ("v", "A"), "u": ("v", "A")})
    root(3, {"A": ("ref", "skewleft"), "B": ("ref", "rot")}, {"t": ("v", "A"), "u": ("t2", "A")})
    root(2, {"A": ("ref", "skew"), "B": ("cart", "rot")}, {"t": ("t4", "A"), "u": ("g3", "B")})
    root(3, {"A": ("cart", "eye"), "B": ("ref", "skew")}, {"t": ("vb", "A"), "u": ("t2x3b", "A")})
    root(3, {"A": ("rect", "rect"), "B": ("ref", "skew")}, {"t": ("v", "A"), "u": ("t2", "A")})
    root(2, {"A": ("rect", "rect"), "B": ("cart", "rot")}, {"t": ("t2b", "A"), "u": ("t2b", "B")})
    root(3, {"A": ("ref", "multi:eye,skew"), "B": ("ref", "multi:rot,skewneg")}, {"t": ("vb", "A"), "u": ("t2b", "A")})
    root(3, {"A": ("ref", "skew"), "B": ("ref", "eye")}, {"t": ("t2x3n", "A"), "u": ("t4x3", "A")})
    root(2, {"A": ("cart", "rot"), "B": ("cart", "mirror")}, {"t": ("v", "A"), "u": ("g2", "B")})
    root(3, {"A": ("ref", "multi:rect,skewleft"), "B": ("ref", "multi:eye,eye")}, {"t": ("t2x3n", "A"), "u": ("vb", "B")})
    root(2, {"A": ("ref", "mirror"), "B": ("rect", "rect")}, {"t": ("v", "A"), "u": ("v", "B"), "w": ("t2", "A")})
    # operands that are frames themselves
    for cls, ax in (("ref", "skew"), ("rect", "rect"), ("cart", "rot")):
        root(3, {"A": (cls, ax), "B": ("ref", "skewleft")}, {"t": ("v", "A"), "u": ("t2", "A"), "w": ("v", "B")}, fr=1)
    root(2, {"A": ("cart", "eye"), "B": ("cart", "rot")}, {"t": ("vb", "A"), "u": ("t2", "B")}, fr=1)
    if tier == "thorough":
        root(3, {"A": ("ref", "multi:eye,skew"), "B": ("ref", "multi:rot,skewneg")}, {"t": ("t4x3b", "A"), "u": ("t4x3n", "B")})
        root(3, {"A": ("cart", "rot"), "B": ("rect", "rect")}, {"t": ("t4b", "A"), "u": ("vb", "B")})
        root(2, {"A": ("ref", "skewneg"), "B": ("ref", "skewneg")}, {"t": ("g5", "A"), "u": ("t2", "A")})
    return R


# ------------------------------------------------------------------- explorer
def build(root, hist, ctx=None):
    s = Sys(root)
    for op in hist:
        s.apply(op)
        if ctx:
            ctx.step()
    return s


def check_hist(ctx, p):
    """replay of one history with the property checked after every step"""
    s = Sys(p["root"])
    s.verify()
    for i, op in enumerate(p["hist"]):
        if not s.enabled(op):
            continue
        s.apply(op)
        ctx.step()
        try:
            s.verify()
        except Violation as v:
            raise Violation(f"after {p['hist'][: i + 1]}: {v}")
    ctx.trace()


def explore(ctx, p):
    """all histories that extend p['hist'] up to p['depth']"""
    root, ops = p["root"], alphabet(p["root"])
    todo = [list(p["hist"])]
    while todo:
        hist = todo.pop()
        ctx.beat()
        # the prefix was verified when it was extended; the last step is verified here
        s = Sys(root)
        ok = True
        for i, op in enumerate(hist):
            if not s.enabled(op):
                ok = False
                break
            try:
                s.apply(op)
                ctx.step()
                if i == len(hist) - 1 or len(hist) <= 2:
                    s.verify()
            except Violation as v:
                raise Violation(f"after {hist[: i + 1]}: {v}", "hist", dict(root=root, hist=hist[: i + 1]))
            except Exception as e:
                import traceback

                raise Violation(
                    f"after {hist[:i]}: {op} raised {type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}",
                    "hist", dict(root=root, hist=hist[: i + 1]),
                )
        if not ok:
            continue
        ctx.trace()
        ctx.deeper(len(hist))
        ctx.state(s.key())
        for f, c in s.cls.items():
            if f == "A":
                ctx.outcome("class of A: " + c)
        if len(hist) < p["depth"]:
            for op in ops:
                if s.enabled(op):
                    todo.append(hist + [op])


def k_crowd(ctx, p):
    """n objects share a frame; some are moved away or destroyed; then the frame changes"""
    dim, n, kinds = p["dim"], p["n"], p["kinds"]
    names = ["t%03d" % i for i in range(n)]
    root = dict(dim=dim, frames={"A": ("ref", p["S"]), "B": ("ref", "rot")},
                tensors={t: (kinds[i % len(kinds)], "A") for i, t in enumerate(names)})
    s = Sys(root)
    hist = []
    for w in p["gone"]:
        hist.append(["del", names[w]])
    for w in p["moved"]:
        hist.append(["move", names[w], "B"])
    hist += [["axes", "A", "skew"]]
    for w in p["back"]:
        hist.append(["move", names[w], "A"])
    hist += [["imul", "A", 2.0], ["axes_rel", "B", "last2"], ["axes_rel", "A", "T"]]
    for op in hist:
        if not s.enabled(op):
            raise RuntimeError(f"{op} not possible")
        s.apply(op)
        ctx.step()
        if op[0] not in ("del", "move"):
            try:
                s.verify()
            except Violation as v:
                raise Violation(f"{p}: after {op}: {v}")
    ctx.state(s.key())
    ctx.trace()


KINDS = {"hist": check_hist, "explore": explore, "crowd": k_crowd}


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for i, root in enumerate(roots(tier)):
        ops = alphabet(root)
        if tier == "quick":
            depth = 3 if i < 8 else 2
        yield "explore", dict(root=root, hist=[], depth=1)
        for op in ops:
            for op2 in ops:
                yield "explore", dict(root=root, hist=[op, op2], depth=depth)
    # new axes that share something with the current ones, in pairs
    for i, root in enumerate(roots(tier)):
        F = sorted(root["frames"])
        T = sorted(root["tensors"])
        if tier == "quick" and i > 7:
            continue
        for a in ref.RELATED:
            for b in ref.RELATED + ["back"]:
                h = [["axes_rel", F[0], a], ["axes_rel", F[0], b]] if b != "back" else [
                    ["axes_rel", F[0], a], ["move", T[0], F[-1]], ["axes_rel", F[-1], a], ["move", T[0], F[0]]]
                yield "hist", dict(root=root, hist=h)
        # axes written item by item
        I = [["setrow", F[0], "skewleft"], ["setitem", F[0], 0.75], ["setall", F[0], "rot"], ["chop", F[0], 0.45], ["bad_item", F[0]], ["ipow", F[0], 1.5]]
        for a in I:
            for b in I + [["move", T[0], F[-1]], ["imul", F[0], 2.0]]:
                for c in I if i < 4 or tier == "thorough" else I[:2]:
                    yield "hist", dict(root=root, hist=[a, b, c])
    for n in (1, 2, 3, 7, 20, 130) + ((300, 1100) if tier == "thorough" else ()):
        for dim, kinds in ((2, ["v", "t2"]), (3, ["v", "t2x3b", "vb", "t4"])):
            for gone in ([], [0], [n - 1], list(range(0, n, 2))):
                for m in range(3):
                    if n > 100 and tier == "quick" and (m == 1 or gone in ([0], [n - 1])):
                        continue
                    left = [i for i in range(n) if i not in gone]
                    moved = [[], left[:1], left[::3]][m]
                    for back in ([], moved[-1:], moved)[: 1 + 2 * bool(moved)]:
                        yield "crowd", dict(dim=dim, n=n, kinds=kinds, S="skewleft" if m else "eye", gone=gone, moved=moved, back=back)
