"""C25: benchmark functions against exact polynomials on all grid points and parameters; the catalogue of calls
(mc.probes) in processes with every hash seed of the range, every number of threads, cold and warm kernels and every
listed order of calls; all ordered pairs of calls of the catalogue in one process."""
import json
import os
import shutil
import subprocess
import sys
from fractions import Fraction as F

import numpy as np

from ..core import Violation
from .. import probes
from sigmaepsilon.math.function import functions as FN


# ------------------------------------------------------------------ exact polynomials in x, y
class Pol(dict):
    @staticmethod
    def of(v):
        return v if isinstance(v, Pol) else Pol({(0, 0): F(v)})

    def __add__(self, o):
        r = Pol(self)
        for k, c in Pol.of(o).items():
            r[k] = r.get(k, F(0)) + c
        return r

    def __mul__(self, o):
        r = Pol()
        for (i, j), c in self.items():
            for (k, l), d in Pol.of(o).items():
                r[i + k, j + l] = r.get((i + k, j + l), F(0)) + c * d
        return r

    __radd__ = __add__
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + -Pol.of(o)

    def __rsub__(self, o):
        return -self + o

    def __pow__(self, n):
        r = Pol.of(1)
        for _ in range(n):
            r = r * self
        return r

    def dx(self, v):
        r = Pol()
        for (i, j), c in self.items():
            k = (i, j)[v]
            if k:
                r[(i - 1, j) if v == 0 else (i, j - 1)] = c * k
        return r

    def at(self, x, y):
        """value and the sum of the magnitudes of the terms"""
        t = [c * F(x) ** i * F(y) ** j for (i, j), c in self.items()]
        return float(sum(t)), float(sum(abs(u) for u in t))


X, Y = Pol({(1, 0): F(1)}), Pol({(0, 1): F(1)})


def textbook(name, a=None, b=None):
    if name == "Rosenbrock":
        return (F(a) - X) ** 2 + F(b) * (Y - X**2) ** 2, 0
    if name == "Himmelblau":
        return (X**2 + Y - 11) ** 2 + (X + Y**2 - 7) ** 2, 0
    if name == "GoldsteinPrice":
        return (1 + (X + Y + 1) ** 2 * (19 - 14 * X + 3 * X**2 - 14 * Y + 6 * X * Y + 3 * Y**2)) * (
            30 + (2 * X - 3 * Y) ** 2 * (18 - 32 * X + 12 * X**2 + 48 * Y - 36 * X * Y + 27 * Y**2)
        ), 3
    if name == "Beale":
        return (F(3, 2) - X + X * Y) ** 2 + (F(9, 4) - X + X * Y**2) ** 2 + (F(21, 8) - X + X * Y**3) ** 2, 0
    if name == "Matyas":
        return F(26, 100) * (X**2 + Y**2) - F(48, 100) * X * Y, 0
    raise KeyError(name)


def make(p):
    f = getattr(FN, p["f"])
    if p["f"] != "Rosenbrock":
        return f(), textbook(p["f"])
    kw = {k: p[k] for k in "ab" if k in p}
    if p.get("how") == "pos":
        return f(*[p[k] for k in "ab" if k in p]), textbook("Rosenbrock", p.get("a", 1), p.get("b", 100))
    return f(**kw), textbook("Rosenbrock", p.get("a", 1), p.get("b", 100))


def k_bench(ctx, p):
    f, (pol, best) = make(p)
    g = [pol.dx(0), pol.dx(1)]
    G = [[q.dx(0), q.dx(1)] for q in g]
    grid = [F(k, p["den"]) for k in range(-5 * p["den"], 5 * p["den"] + 1)]
    low = None

    def close(v, ref, what):
        v = np.asarray(v, dtype=float)
        if v.shape != () and v.size != 1:
            raise Violation(f"{what}: shape {v.shape}")
        w, m = ref
        if not abs(float(v.ravel()[0]) - w) <= 1e-9 + 1e-12 * m:
            raise Violation(f"{what} is {v!r}, should be {w!r}")

    for x in grid:
        fx = float(x)
        col = f(np.array([[fx] * len(grid), [float(y) for y in grid]]))
        col = np.broadcast_to(np.asarray(col, dtype=float), (len(grid),))
        for k, y in enumerate(grid):
            fy = float(y)
            what = f"{p['f']}{ {q: p[q] for q in 'ab' if q in p} or ''} at ({fx}, {fy})"
            ref = pol.at(x, y)
            low = ref[0] if low is None else min(low, ref[0])
            close(f([fx, fy]), ref, what)
            close(col[k], ref, what + " in an array of points")
            if (k + int(x * p["den"])) % 3 == 0:
                close(f(np.array([fx, fy])), ref, what)
                close(f((fx, fy)), ref, what)
                close(f.f([fx, fy]), ref, what)
            gr = np.asarray(f.g([fx, fy]), dtype=float)
            Gr = np.asarray(f.G([fx, fy]), dtype=float)
            if gr.shape != (2,) or Gr.shape != (2, 2):
                raise Violation(f"{what}: shapes of the derivatives {gr.shape}, {Gr.shape}")
            for i in range(2):
                close(gr[i], g[i].at(x, y), f"gradient {i} of {what}")
                for j in range(2):
                    close(Gr[i, j], G[i][j].at(x, y), f"Hessian {i}{j} of {what}")
            ctx.step(8)
        ctx.beat()
    if list(map(str, f.variables)) != ["x", "y"] or f.dimension != 2:
        raise Violation(f"{p['f']}: variables {f.variables}, dimension {f.dimension}")
    opt = list(f.optimums)
    if len(opt) != (4 if p["f"] == "Himmelblau" else 1):
        raise Violation(f"{p['f']}: optimums {opt}")
    if f.optText != "min":
        raise Violation(f"{p['f']}: optText {f.optText!r}")
    seen = []
    for o in opt:
        x, y = (float(v) for v in o)
        v = float(f([x, y]))
        tol = 1e-6 if p["f"] == "Himmelblau" else 1e-9
        if abs(v - best) > tol or v > low + tol:
            raise Violation(f"{p['f']} {p}: value {v} at the optimum {o}; the minimum is {best}, the least value on the grid {low}")
        gr = np.asarray(f.g([x, y]), dtype=float)
        if np.abs(gr).max() > (1e-3 if p["f"] == "Himmelblau" else 1e-8):
            raise Violation(f"{p['f']} {p}: gradient {gr} at the optimum {o}")
        if any(abs(x - a) + abs(y - b) < 1e-3 for a, b in seen):
            raise Violation(f"{p['f']}: optimum {o} listed twice")
        seen.append((x, y))
    # objects are independent
    f.optimums.append((99.0, 99.0))
    h, _ = make(p)
    if [tuple(map(float, o)) for o in h.optimums] != seen:
        raise Violation(f"{p['f']}: a new object has the optimums {h.optimums} after the list of another was changed")
    ctx.state(json.dumps(p))
    ctx.trace()


def k_params(ctx, p):
    """objects with different parameters used in turns"""
    fs = [(make(dict(f="Rosenbrock", a=a, b=b)), a, b) for a in p["a"] for b in p["b"]]
    for x in p["pts"]:
        for y in p["pts"]:
            for (f, (pol, best)), a, b in fs:
                ctx.step()
                w, m = pol.at(F(x), F(y))
                if abs(float(f([x, y])) - w) > 1e-9 + 1e-12 * m:
                    raise Violation(f"Rosenbrock({a}, {b}) at ({x}, {y}) is {f([x, y])}, should be {w}")
    for (f, _), a, b in fs:
        o = f.optimums
        if len(o) != 1 or abs(float(o[0][0]) - a) > 1e-12 or abs(float(o[0][1]) - a * a) > 1e-12:
            raise Violation(f"Rosenbrock({a}, {b}): optimum {o}")
        ctx.state((a, b))
    ctx.trace()


# ------------------------------------------------------------------ reproducibility
BASE = {}


def base(name):
    if name not in BASE:
        BASE[name] = probes.run(name)
    return BASE[name]


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) or (a != a and b != b)
    return a == b


def k_process(ctx, p):
    names = probes.SYMBOLIC if p["which"] == "symbolic" else list(probes.NAMES)
    k = p.get("rot", 0) % len(names)
    order = names[k:] + names[:k]
    if p.get("rev"):
        order = order[::-1]
    env = dict(os.environ, PYTHONHASHSEED=str(p["hash"]))
    cold = None
    if p.get("threads"):
        env["NUMBA_NUM_THREADS"] = str(p["threads"])
    if p.get("cold"):
        cold = os.path.join(ctx.scratch, "cold")
        shutil.rmtree(cold, ignore_errors=True)
        os.makedirs(cold)
        env["NUMBA_CACHE_DIR"] = cold
    q = subprocess.Popen([sys.executable, "-m", "mc.probes"] + order, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    while True:
        try:
            out, _ = q.communicate(timeout=2)
            break
        except subprocess.TimeoutExpired:
            try:
                ctx.beat()
            except BaseException:
                q.kill()
                raise
    if cold:
        shutil.rmtree(cold, ignore_errors=True)
    line = [t for t in out.splitlines() if t.startswith("RESULT ")]
    if q.returncode or not line:
        raise Violation(f"the process with {p} ended with {q.returncode} and no result")
    res = json.loads(line[0][7:])
    for n in order:
        ctx.step()
        b = base(n)
        if not same(res[n], b):
            raise Violation(f"{n}: {str(res[n])[:400]} in a process with {p}, {str(b)[:400]} here")
        ctx.state((n, json.dumps(res[n])[:2000]))
    ctx.trace()
    ctx.outcome(f"process {p['which']}")
    ctx.sample(p)


def k_pairs(ctx, p):
    """first, other, first again; for all others"""
    i = p["i"]
    a = base(i)
    for j in probes.NAMES:
        b = probes.run(j)
        c = probes.run(i)
        ctx.step(2)
        if not same(a, c):
            raise Violation(f"{i} gives {str(c)[:400]} after {j}, and {str(a)[:400]} before")
        if not same(b, base(j)):
            raise Violation(f"{j} gives {str(b)[:400]} after {i}, and {str(base(j))[:400]} alone")
        ctx.state((i, j))
        ctx.beat()
    ctx.trace()


def cases(tier):
    deep = tier != "quick"
    # processes first: they take longest
    nfull = 6 if not deep else 2 * len(probes.NAMES)
    for k in range(nfull):
        yield "process", dict(which="all", hash=[0, 1, 2, 3, 5, 7, 11, 4242][k % 8] + 8 * (k // 8), rot=(k * 5 if not deep else k), rev=k % 2, threads=[1, 2, 4, 8][k % 4], cold=int(k == 3))
    for k in range(24 if not deep else 192):
        yield "process", dict(which="symbolic", hash=k, rot=k, rev=k % 2)
    for n in probes.NAMES:
        yield "pairs", dict(i=n)
    den = 2 if not deep else 8
    for f in ("Himmelblau", "GoldsteinPrice", "Beale", "Matyas"):
        yield "bench", dict(f=f, den=den)
    yield "bench", dict(f="Rosenbrock", den=den)
    yield "bench", dict(f="Rosenbrock", den=den, a=2)
    yield "bench", dict(f="Rosenbrock", den=den, b=3)
    for a in (1, 0, -2, 0.5, 3, -1.25):
        for b in (100, 1, 0.25, 7):
            yield "bench", dict(f="Rosenbrock", a=a, b=b, den=1 if not deep else 4, how="pos" if a in (0, 3) else "kw")
    yield "params", dict(a=[1, 0, -2, 0.5, 3], b=[100, 1, 0.25], pts=[-2.0, -0.5, 0.0, 1.0, 3.5])


KINDS = {"bench": k_bench, "params": k_params, "process": k_process, "pairs": k_pairs}
