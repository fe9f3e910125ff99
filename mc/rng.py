"""A controlled random source: every draw of NumPy's random functions becomes a choice point
with a finite list of outcomes; explore() runs a program for all choice sequences that deviate
from a base sequence in at most `bound` places (stateless search, deviation bounded)."""
import contextlib
import itertools
import math

import numpy as np

REAL = {}
NAMES = ("randint", "rand", "random", "random_sample", "ranf", "sample", "uniform", "choice", "permutation", "shuffle", "binomial", "random_integers", "default_rng", "RandomState")


class Script:
    """choices[i]: index of the outcome at the i-th draw, the base rule beyond the list"""

    def __init__(self, forced=None, base=0):
        self.forced = forced or {}
        self.base = base
        self.widths = []
        self.taken = []

    def pick(self, outcomes):
        i = len(self.widths)
        n = len(outcomes)
        k = self.forced.get(i)
        if k is None:
            k = 0 if self.base == 0 else (self.base * (i + 1) * (i + 3) // 2 + i) % n
        k %= n
        self.widths.append(n)
        self.taken.append(k)
        return outcomes[k]

    # -- outcome lists ----------------------------------------------------
    def unit(self):
        return self.pick([0.3, 0.7, 0.02, 0.98])

    def units(self, n):
        pats = [np.full(n, 0.9), np.full(n, 0.05)]
        for i in range(min(n, 6)):
            p = np.full(n, 0.9)
            p[(i * max(1, n // 6)) % n] = 0.05
            pats.append(p)
        alt = np.full(n, 0.9)
        alt[::2] = 0.05
        pats.append(alt)
        pats.append(np.linspace(0.01, 0.99, n))
        return self.pick(pats).copy()

    def integers(self, lo, hi, size=None):
        if size is None:
            w = hi - lo
            vals = list(range(lo, hi)) if w <= 12 else [lo, hi - 1] + [lo + (w * j) // 7 for j in range(1, 7)]
            return int(self.pick(vals))
        shape = (size,) if np.isscalar(size) else tuple(size)
        n = int(np.prod(shape))
        w = hi - lo
        idx = np.arange(n)
        pats = [
            (idx * 5 + idx * idx // 3) % w,
            np.zeros(n, dtype=int),
            np.full(n, w - 1),
            idx % w,
            (idx // max(1, shape[-1])) % w,
            (idx + 1) % w,
            (idx * 7 // 3 + 1) % w,
        ]
        return (self.pick(pats) + lo).reshape(shape).astype(int)

    def subset(self, a, k):
        a = list(a)
        n = len(a)
        if k > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        total = math.perm(n, k)
        if total <= 24:
            outs = [list(p) for p in itertools.permutations(range(n), k)]
        else:
            outs = [[(s + j * step) % n for j in range(k)] for step in (1, n - 1) for s in range(min(n, 8))]
        return [a[i] for i in self.pick(outs)]


class Gen:
    """stands for numpy.random and for a Generator"""

    def __init__(self, s):
        self.s = s

    def rand(self, *shape):
        if not shape:
            return self.s.unit()
        return self.s.units(int(np.prod(shape))).reshape(shape)

    def random(self, size=None):
        if size is None:
            return self.s.unit()
        shape = (size,) if np.isscalar(size) else tuple(size)
        return self.rand(*shape)

    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self.s.integers(int(low), int(high), size)

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.s.integers(int(low), int(high) + bool(endpoint), size)

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.s.integers(int(low), int(high) + 1, size)

    def binomial(self, n, p, size=None):
        u = self.random(size)
        return (np.asarray(u) < p).astype(int) if size is not None else int(u < p)

    def choice(self, a, size=None, replace=True, p=None, **kw):
        pool = list(range(a)) if np.isscalar(a) else list(a)
        if size is None:
            return self.s.pick(pool if len(pool) <= 24 else pool[:24])
        k = int(np.prod(size))
        if replace:
            out = [self.s.pick(pool if len(pool) <= 24 else pool[:24]) for _ in range(k)]
        else:
            out = self.s.subset(pool, k)
        return np.array(out).reshape(size)

    def permutation(self, x):
        pool = list(range(x)) if np.isscalar(x) else list(x)
        return np.array(self.s.subset(pool, len(pool)))

    def shuffle(self, x):
        x[:] = self.permutation(list(x))


@contextlib.contextmanager
def controlled(script):
    g = Gen(script)
    saved = {}
    for n in NAMES:
        saved[n] = getattr(np.random, n, None)
        if n in ("default_rng", "RandomState"):
            setattr(np.random, n, lambda *a, **k: g)
        elif saved[n] is not None:
            setattr(np.random, n, getattr(g, n))
    try:
        yield script
    finally:
        for n, f in saved.items():
            if f is not None:
                setattr(np.random, n, f)


def explore(ctx, run, bound, base=0, window=None, limit=None):
    """run(script) for every sequence with at most `bound` deviations from the base; a deviation may
    only be at the first `window` draws.  run raises Violation itself; returns the number of runs."""
    count = 0
    stack = [({}, -1)]
    while stack:
        forced, last = stack.pop()
        s = Script(forced, base)
        try:
            with controlled(s):
                run(s)
        finally:
            pass
        count += 1
        ctx.trace()
        ctx.beat()
        if limit and count >= limit:
            ctx.cap(f"stopped after {limit} runs")
            return count
        if len(forced) >= bound:
            continue
        n = len(s.widths) if window is None else min(window, len(s.widths))
        for i in range(last + 1, n):
            for k in range(s.widths[i]):
                if k != s.taken[i]:
                    f = dict(forced)
                    f[i] = k
                    stack.append((f, i))
    return count
