"""Genetic searches under a controlled random source: objectives, monitor, well-formedness."""
import math

import numpy as np

from .core import Violation
from sigmaepsilon.math.function import Function
from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm as BGA


def o_peak(x):
    return -float(sum((v - 0.3) ** 2 for v in x))


def o_valley(x):
    return float(sum((v - 0.3) ** 2 for v in x)) + 2.0


def o_steps(x):  # many ties
    return float(math.floor(2 * sum(x)))


def o_waves(x):
    return float(sum(math.sin(5.1 * v + i) for i, v in enumerate(x)))


def o_flat(x):
    return 1.5


def o_wall(x):  # infinite outside of a region
    s = float(sum(x))
    return math.inf if s > 1.0 else -math.inf if s < -1.2 else s * s


def o_tiny(x):  # improvements far below one part in a million
    return 1e6 + 1e-6 * float(sum(x))


def o_big(x):
    return 1e12 * float(sum(v**3 for v in x))


OBJ = dict(peak=o_peak, valley=o_valley, steps=o_steps, waves=o_waves, flat=o_flat, wall=o_wall, tiny=o_tiny, big=o_big)
SYM = dict(
    s_poly=("(x0 - 0.3)**2 + 2*x1**2 - x0*x1", 2),
    s_sin=("sin(5*x0) + x1", 2),
    s_one=("x0**3 - x0", 1),
)


class Recorder:
    """the objective, recording every call"""

    def __init__(self, fn, fail_at=None):
        self.fn = fn
        self.calls = []
        self.fail_at = fail_at
        self.seen = 0

    def __call__(self, x):
        self.seen += 1
        if self.fail_at is not None and self.seen == self.fail_at:
            raise ArithmeticError(f"objective call {self.seen}")
        x = tuple(float(v) for v in np.asarray(x).ravel())
        v = self.fn(x)
        self.calls.append((x, v))
        return v


class SymRecorder(Function):
    """a symbolic objective, recording every point of every call"""

    def __call__(self, X):
        if not hasattr(self, "calls"):
            self.calls = []
        r = super().__call__(X)
        A = np.array(X, dtype=float)
        A = A.reshape(len(A), -1)
        for x, v in zip(A.T, np.broadcast_to(np.asarray(r, dtype=float).ravel(), (A.shape[1],))):
            self.calls.append((tuple(float(q) for q in x), float(v)))
        return r


_SYM = {}


def make(p, fail_at=None):
    """p: obj, ranges, and settings -> (search, recorder, plain function)"""
    kw = {k: p[k] for k in ("length", "nPop", "p_c", "p_m", "elitism", "minimize", "maxiter", "miniter", "maxage") if k in p}
    ranges = p["ranges"]
    if p["obj"] in SYM:
        text, d = SYM[p["obj"]]
        names = [f"x{i}" for i in range(d)]
        if p["obj"] not in _SYM:
            _SYM[p["obj"]] = (Function(text, variables=names), SymRecorder(text, variables=names))
        f, rec = _SYM[p["obj"]]
        plain = lambda x: float(f(list(x)))
        rec.calls = []
        return BGA(rec, ranges, **kw), rec, plain
    rec = Recorder(OBJ[p["obj"]], fail_at)
    return BGA(rec, ranges, **kw), rec, OBJ[p["obj"]]


def size(n):
    return -(-n // 4) * 4


def snapshot(ga):
    return (
        np.array(ga.genotypes).tolist(),
        np.array(ga.phenotypes).tolist(),
        np.array(ga.fitness, dtype=float).tolist(),
        None if ga.champion is None else ga.champion.model_dump_json(),
        ga.state.model_dump_json(),
    )


def better(a, b, minimize):
    """a strictly better than b"""
    return a < b if minimize else a > b


def same_point(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-12 * max(1.0, abs(x)) for x, y in zip(a, b))


class Monitor:
    """what has been evaluated since the last start, generation by generation"""

    def __init__(self, ga, rec, plain, minimize):
        self.ga, self.rec, self.plain, self.min = ga, rec, plain, minimize
        self.restart()

    def restart(self):
        self.start = len(self.rec.calls)
        self.best = None
        self.gens = []  # best of each generation
        self.age = 0

    def observe(self, what):
        """to be called after one generation"""
        ga = self.ga
        ph = np.array(ga.phenotypes, dtype=float)
        fit = np.array(ga.fitness, dtype=float)
        if fit.shape != (ga.nPop,) or ph.shape != (ga.nPop, ga.dim):
            raise Violation(f"{what}: population of {ph.shape}, fitness {fit.shape}")
        for x, v in zip(ph, fit):
            w = self.plain(tuple(float(q) for q in x))
            if not (v == w or abs(v - w) <= 1e-9 * max(1.0, abs(w))):
                raise Violation(f"{what}: the fitness of {x.tolist()} is {v}, the objective is {w} there")
        seen = self.rec.calls[self.start :]
        pick = min if self.min else max
        gen = float(pick(fit.tolist()))
        if self.gens and self.best is not None and not better(gen, self.best, self.min):
            self.age += 1
        else:
            self.age = 1
        best = pick(v for _, v in seen)
        if self.best is not None and better(self.best, best, self.min):
            raise Violation(f"{what}: internal: best went from {self.best} to {best}")
        self.best = best
        prev = self.gens[-1] if self.gens else None
        self.gens.append(gen)
        ch = ga.champion
        if ch is None:
            raise Violation(f"{what}: no champion after {len(self.gens)} generations")
        if not (float(ch.fitness) == best or abs(float(ch.fitness) - best) <= 1e-12 * abs(best)):
            raise Violation(f"{what}: the champion has {ch.fitness}, the best value evaluated is {best}")
        w = self.plain(tuple(float(q) for q in ch.phenotype))
        if not (w == ch.fitness or abs(w - ch.fitness) <= 1e-9 * max(1.0, abs(w))):
            raise Violation(f"{what}: the champion is {ch.phenotype} with {ch.fitness}, the objective is {w} there")
        if not any(same_point(ch.phenotype, x) for x, v in seen):
            raise Violation(f"{what}: the champion {ch.phenotype} was never evaluated")
        st = ga.state
        if list(st.x) != list(ch.phenotype) or st.fun != ch.fitness:
            raise Violation(f"{what}: the state says {st.x}, {st.fun}, the champion is {ch.phenotype}, {ch.fitness}")
        bc = ga.best_candidate()
        if bc.fitness != gen or not same_point(bc.phenotype, ga.best_phenotype()) or bc.fitness != fit[bc.index] or not same_point(bc.phenotype, ph[bc.index]) or list(bc.genotype) != list(np.array(ga.genotypes)[bc.index]):
            raise Violation(f"{what}: best candidate {bc}, best of the population {gen}")
        return prev, gen


def check_population(ga, p, what):
    n = size(p["nPop"])
    G = np.array(ga.genotypes, dtype=float)
    d, L = ga.dim, ga.length
    if G.shape != (n, d * L):
        raise Violation(f"{what}: population of shape {G.shape}, expected {(n, d * L)}")
    if not np.all((G == 0) | (G == 1)):
        raise Violation(f"{what}: not only bits in the population: {G.tolist()}")
    R = np.array(p["ranges"], dtype=float)
    want = decode(G, R, L)
    ph = np.array(ga.phenotypes, dtype=float)
    if ph.shape != want.shape or np.max(np.abs(ph - want)) > 1e-9 * max(1.0, np.max(np.abs(R))):
        raise Violation(f"{what}: decoded points {ph.tolist()}, expected {want.tolist()}")
    tol = 1e-12 * np.maximum(1.0, np.max(np.abs(R), axis=1))
    if np.any(ph < R[:, 0] - tol) or np.any(ph > R[:, 1] + tol):
        raise Violation(f"{what}: points out of the ranges: {ph.tolist()}")


def decode(G, R, L):
    G = np.asarray(G, dtype=float)
    n = G.shape[0]
    d = R.shape[0]
    out = np.zeros((n, d))
    for i in range(n):
        for j in range(d):
            bits = G[i, j * L : (j + 1) * L]
            k = sum(int(b) << m for m, b in enumerate(bits))
            out[i, j] = R[j, 0] + (R[j, 1] - R[j, 0]) * (k / (2**L - 1))
    return out
