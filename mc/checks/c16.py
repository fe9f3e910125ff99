"""C16: populations stay well formed: stateless exploration under a controlled random source, all
genotypes for the decoding law, all parents and cuts for crossover, all settings for the sizes."""
import itertools
from collections import Counter

import numpy as np

from ..core import Violation
from .. import gam, rng
from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm as BGA


def n_elites(p):
    e = p.get("elitism", 1)
    n = gam.size(p["nPop"])
    return 0 if e is None else int(n * e) if e < 1 else int(e)


def rows(G):
    return [tuple(int(b) for b in g) for g in np.asarray(G)]


def check_divide(ga, p, what):
    fit = np.array(ga.fitness, dtype=float)
    for given in (None, fit.copy()):
        elit, others = ga.divide() if given is None else ga.divide(given)
        e, o = [int(i) for i in elit], [int(i) for i in others]
        k = n_elites(p)
        if len(e) != k or sorted(e + o) != list(range(ga.nPop)):
            raise Violation(f"{what}: divided into {e} and {o}, expected {k} elites of {ga.nPop}")
        for i in e:
            for j in o:
                if gam.better(fit[j], fit[i], p.get("minimize", False)):
                    raise Violation(f"{what}: {j} ({fit[j]}) is better than the elite {i} ({fit[i]})")


def check_survival(p, old, fit, new, what):
    k = n_elites(p)
    if k == 0:
        return
    sign = 1 if p.get("minimize", False) else -1
    order = sorted(range(len(old)), key=lambda i: sign * fit[i])
    edge = fit[order[k - 1]]
    must = [old[i] for i in range(len(old)) if sign * fit[i] < sign * edge]
    tie = [old[i] for i in range(len(old)) if fit[i] == edge]
    left = Counter(new)
    for g in must:
        if left[g] <= 0:
            raise Violation(f"{what}: the elite {g} did not survive into {new}")
        left[g] -= 1
    got = sum(min(c, left[g]) for g, c in Counter(tie).items())
    if got < k - len(must):
        raise Violation(f"{what}: only {len(must) + got} of {k} elites survived; before {old} with {fit}, after {new}")


def run_program(ctx, p, s):
    ga, rec, plain = gam.make(p)
    what = f"{p['obj']} {'min' if p.get('minimize') else 'max'} nPop={p['nPop']} length={p['length']} elitism={p.get('elitism', 1)} forced {s.forced}"
    gam.check_population(ga, p, what + ", at the start")
    old = None
    for k in range(p["gens"]):
        if old is not None:
            check_divide(ga, p, what)
        ga.evolve(1)
        ctx.step()
        gam.check_population(ga, p, f"{what}, generation {k}")
        new = rows(ga.genotypes)
        fit = [float(v) for v in ga.fitness]
        if old is not None:
            check_survival(p, old[0], old[1], new, f"{what}, generation {k}")
            # every member comes from the parents' bits when nothing mutates
            if p["p_m"] == 0:
                for g in new:
                    if any(all(o[i] != g[i] for o in old[0]) for i in range(len(g))):
                        raise Violation(f"{what}, generation {k}: {g} has a bit no parent has ({old[0]})")
        old = (new, fit)
        ctx.state(repr((p["obj"], p["length"], sorted(new))))
        if p.get("restart") == k:
            ga.reset()
            gam.check_population(ga, p, what + ", after a restart")
            old = None
    w = ga.select()
    G = rows(ga.genotypes)
    W = rows(w)
    if len(W) < ga.nPop // 2 or any(g not in G for g in W):
        raise Violation(f"{what}: selected {W} from {G}")
    check_survival(p, G, [float(v) for v in ga.fitness], W, what + ", selection")


def k_run(ctx, p):
    s = rng.Script({int(k): v for k, v in p["forced"].items()}, p["base"])
    with rng.controlled(s):
        run_program(ctx, p["p"], s)


def k_explore(ctx, p):
    def run(s):
        try:
            run_program(ctx, p["p"], s)
        except Violation as v:
            raise Violation(str(v), "run", dict(p=p["p"], base=p["base"], forced={str(k): v for k, v in s.forced.items()}))

    ctx.deeper(p["p"]["gens"])
    rng.explore(ctx, run, p["bound"], p["base"], p.get("window"))
    ctx.sample(p)


def k_decode(ctx, p):
    """all genotypes of one variable at a time, in batches of the population"""
    L, d, ranges = p["length"], p["dim"], p["ranges"]
    with rng.controlled(rng.Script()):
        ga = BGA(gam.o_flat, ranges, length=L, nPop=p["nPop"])
    R = np.array(ranges, dtype=float)
    codes = list(itertools.product([0, 1], repeat=L))
    members = []
    for j in range(d):
        for c in codes:
            g = [0, 1, 1, 0, 1, 0, 0, 1] * (d * L)
            g = g[: d * L]
            g[j * L : (j + 1) * L] = c
            members.append(g)
    n = ga.nPop
    while len(members) % n:
        members.append(members[0])
    for dt in (int, float):
        for i in range(0, len(members), n):
            G = np.array(members[i : i + n], dtype=dt)
            keep = G.copy()
            ph = np.asarray(ga.decode(G), dtype=float)
            ctx.step(n)
            want = gam.decode(G, R, L)
            if ph.shape != want.shape or np.max(np.abs(ph - want)) > 1e-9 * max(1.0, np.max(np.abs(R))):
                raise Violation(f"decode of {G.tolist()} over {ranges} gives {ph.tolist()}, expected {want.tolist()}")
            if not np.array_equal(G, keep):
                raise Violation("decode changed the genotypes")
            ga.genotypes = G
            if not np.array_equal(np.asarray(ga.phenotypes, dtype=float), ph):
                raise Violation("the phenotypes of a population set are not its decoded genotypes")
    ends = np.array([[0] * (d * L), [1] * (d * L)] * (n // 2))
    ph = ga.decode(ends)
    if np.max(np.abs(ph[0] - R[:, 0])) > 1e-9 * max(1, np.max(np.abs(R))) or np.max(np.abs(ph[1] - R[:, 1])) > 1e-9 * max(1, np.max(np.abs(R))):
        raise Violation(f"all zeros and all ones give {ph[0]}, {ph[1]} over {ranges}")
    ctx.state(repr((L, d, ranges)))


def k_long(ctx, p):
    """long chromosomes: the ends, every single bit and its complement, and mixed patterns, to rounding"""
    from fractions import Fraction as F

    L, ranges = p["length"], p["ranges"]
    d = len(ranges)
    with rng.controlled(rng.Script()):
        ga = BGA(gam.o_flat, ranges, length=L, nPop=4)
    codes = [[0] * L, [1] * L] + [[int(i == j) for i in range(L)] for j in range(L)] + [[int(i != j) for i in range(L)] for j in range(L)]
    codes += [[i % 2 for i in range(L)], [1 - i % 2 for i in range(L)], [int(i < L // 2) for i in range(L)], [int(i >= L // 2) for i in range(L)]]
    members = [sum([codes[(k + 3 * j) % len(codes)] for j in range(d)], []) for k in range(len(codes))]
    while len(members) % 4:
        members.append(members[0])
    vals = set()
    for dt in (int, float):
        for i in range(0, len(members), 4):
            G = np.array(members[i : i + 4], dtype=dt)
            ph = np.asarray(ga.decode(G), dtype=float)
            ctx.step(4)
            for r, g in zip(ph, members[i : i + 4]):
                for j, (lo, hi) in enumerate(ranges):
                    m = sum(b << k for k, b in enumerate(g[j * L : (j + 1) * L]))
                    want = F(lo) + (F(hi) - F(lo)) * m / (2**L - 1)
                    if abs(F(float(r[j])) - want) > F(1, 10**14) * max(abs(F(lo)), abs(F(hi)), 1):
                        raise Violation(f"{L} bits per variable: {g[j * L : (j + 1) * L]} over {[lo, hi]} gives {float(r[j])!r}, expected {float(want)!r}")
                    vals.add(float(r[j]))
    ctx.state(repr(p))
    ctx.outcome(f"{len(vals)} values")


def k_cross(ctx, p):
    """all pairs of parents, all cuts, all outcomes of the random draws"""
    L, d = p["length"], p["dim"]
    n = L * d
    with rng.controlled(rng.Script()):
        ga = BGA(gam.o_flat, [[0, 1]] * d, length=L, nPop=4, p_m=p["p_m"], p_c=p["p_c"])
    seen = set()
    allp = list(itertools.product([0, 1], repeat=n))
    pairs = [(a, b) for a in allp for b in (allp if n <= 3 else [tuple(1 - x for x in a), allp[5], allp[(sum(a) * 7) % len(allp)]])]
    for a, b in pairs:
        P1, P2 = np.array(a), np.array(b)
        for nCut in [None] + list(range(1, n - 1)):

            def run(s):
                c1, c2 = ga.crossover(P1, P2) if nCut is None else ga.crossover(P1, P2, nCut)
                ctx.step()
                if not np.array_equal(P1, a) or not np.array_equal(P2, b):
                    raise Violation(f"crossover changed its parents {a}, {b}")
                c1, c2 = [int(x) for x in c1], [int(x) for x in c2]
                what = f"crossover of {a} and {b} (cuts {nCut}, p_m={p['p_m']}, p_c={p['p_c']}, forced {s.forced})"
                if len(c1) != n or len(c2) != n or set(c1 + c2) - {0, 1}:
                    raise Violation(f"{what}: children {c1}, {c2}")
                f = 1 if p["p_m"] == 1 and p["p_c"] == 1 else 0
                if p["p_c"] == 0 and {tuple(c1), tuple(c2)} != {a, b}:
                    raise Violation(f"{what}: nothing may be crossed, but the children are {c1}, {c2}")
                if p["p_m"] in (0, 1):
                    for i in range(n):
                        got, ok = (c1[i] ^ f, c2[i] ^ f), ((a[i], b[i]), (b[i], a[i]))
                        if got not in ok:
                            raise Violation(f"{what}: children {c1}, {c2} do not come from the parents at position {i}")
                seen.add((tuple(c1), tuple(c2)))

            rng.explore(ctx, run, 2 if n <= 4 else 1)
    ctx.outcome(f"{len(seen)} distinct children pairs")
    ctx.state(repr(p))


def k_mutate(ctx, p):
    L, d = p["length"], p["dim"]
    n = L * d
    for pm in (0, 1, 0.2, 0.5):
        with rng.controlled(rng.Script()):
            ga = BGA(gam.o_flat, [[0, 1]] * d, length=L, nPop=4, p_m=pm)
        for c in itertools.product([0, 1], repeat=n):
            for dt in (int, float):
                child = np.array(c, dtype=dt)

                def run(s):
                    m = [int(x) for x in ga.mutate(child)]
                    ctx.step()
                    if not np.array_equal(child, c):
                        raise Violation(f"mutation changed its argument {c}")
                    if len(m) != n or set(m) - {0, 1}:
                        raise Violation(f"mutation of {c} gives {m}")
                    if pm == 0 and m != list(c) or pm == 1 and m != [1 - x for x in c]:
                        raise Violation(f"mutation of {c} with probability {pm} gives {m}")

                rng.explore(ctx, run, 1)
    ctx.state(repr(p))


def k_pairs(ctx, p):
    """parents are paired without repetition"""
    n = p["n"]
    G = np.array(list(itertools.islice(itertools.product([0, 1], repeat=4), n)))

    def run(s):
        got = []
        for a, b in BGA.random_parents_generator(G):
            got += [tuple(a), tuple(b)]
        ctx.step()
        if sorted(got) != sorted(map(tuple, G.tolist())):
            raise Violation(f"pairs of {G.tolist()}: {got} (forced {s.forced})")

    rng.explore(ctx, run, 3)
    ctx.state(repr(p))


def k_settings(ctx, p):
    """the size and elitism of the population, without deviations"""
    for base in range(3):
        q = dict(p, gens=3)
        s = rng.Script({}, base)
        with rng.controlled(s):
            run_program(ctx, q, s)
    ctx.state(repr(p))


def k_refuse(ctx, p):
    def refused(fn):
        try:
            fn()
        except ValueError:
            return True
        return False

    mk = lambda **k: BGA(gam.o_flat, [[0, 1]], nPop=8, **k)
    with rng.controlled(rng.Script()):
        for bad in (dict(elitism=0), dict(elitism=-1), dict(elitism=-0.5), dict(elitism=0.0), dict(elitism=1.5), dict(elitism=2.0), dict(elitism=8), dict(elitism=9), dict(elitism=100), dict(miniter=5, maxiter=4), dict(miniter=1, maxiter=0), dict(maxiter=10, miniter=11)):
            ctx.step()
            if not refused(lambda: mk(**bad)):
                raise Violation(f"{bad} is not refused at construction")
            ga = mk()
            if not refused(lambda: ga.set_solution_params(**bad)):
                raise Violation(f"{bad} is not refused by set_solution_params")
            ga = mk()
            if not refused(lambda: ga.solve(**bad)):
                raise Violation(f"{bad} is not refused by solve")
        for good in (dict(elitism=7), dict(elitism=1), dict(elitism=0.99), dict(elitism=None), dict(miniter=4, maxiter=4), dict(miniter=0, maxiter=1)):
            ga = mk(**good)
            for k, v in good.items():
                if getattr(ga, k) != v:
                    raise Violation(f"{good} was turned into {getattr(ga, k)}")
        ga = mk()
        for a in (dict(genotypes=ga.genotypes), dict(phenotypes=ga.phenotypes)):
            try:
                ga.select(**a)
            except NotImplementedError:
                continue
            raise Violation("selection from a given population is neither done nor refused")
    ctx.state("refuse")


KINDS = {"run": k_run, "explore": k_explore, "decode": k_decode, "long": k_long, "cross": k_cross, "mutate": k_mutate, "pairs": k_pairs, "settings": k_settings, "refuse": k_refuse}


def cases(tier):
    th = tier == "thorough"
    yield "refuse", {}
    for n in (2, 4, 6) + ((8,) if th else ()):
        yield "pairs", dict(n=n)
    for L, d in ((3, 1), (2, 2), (4, 1), (5, 1)) + (((3, 2), (6, 1)) if th else ()):
        yield "mutate", dict(length=L, dim=d)
        for pm, pc in ((0, 1), (1, 1), (0.2, 1), (0, 0.5), (0, 0.01), (1, 0), (0.2, 0)):
            yield "cross", dict(length=L, dim=d, p_m=pm, p_c=pc)
    for L in range(1, 11 if not th else 15):
        for d, ranges in ((1, [[-1, 2]]), (2, [[0, 1], [-5, -3]]), (3, [[-1e6, 1e6], [0.25, 0.5], [2, 10]]), (2, [[3, 3], [-1, 1]])):
            if L * d <= 2 or (d == 3 and L > 8 and not th):
                continue
            for nPop in (4, 12, 20):
                yield "decode", dict(length=L, dim=d, ranges=ranges, nPop=nPop)
    for L in (16, 31, 40):  # long chromosomes: only the ends and a few patterns
        yield "settings", dict(obj="steps", ranges=[[-2, 3]], length=L, nPop=8, p_c=1, p_m=0.3)
    for L in (12, 16, 20, 24, 30, 31, 32, 33, 40, 48) + ((36, 44, 50, 52) if th else ()):
        for ranges in ([[0, 1]], [[-1, 2], [0.5, 3]], [[0, 2**20], [-1, 1], [2, 10]]):
            yield "long", dict(length=L, ranges=ranges)
    R2 = [[-1, 1], [0.5, 3]]
    n = 0
    for nPop in range(1, 34 if not th else 61):
        size = gam.size(nPop)
        for e in (1, None, 2, 3, size // 2, size // 2 + 1, size - 1, 0.25, 0.5, 0.75, 0.99, 0.1, 0.01):
            if e is not None and e >= size or (isinstance(e, int) and e < 1):
                continue
            n += 1
            if not th and nPop > 8 and n % 3:
                continue
            yield "settings", dict(obj=("peak", "steps", "flat", "wall", "s_poly")[n % 5], ranges=R2, length=2 + n % 3, nPop=nPop, p_c=(1, 0.5)[n % 2], p_m=(0.2, 0, 1)[n % 3], elitism=e, minimize=bool(n % 2))
    n = 0
    for obj in ("peak", "steps", "flat", "waves", "s_poly"):
        for minimize in (False, True):
            for e in (1, None, 2, 3, 0.5):
                for pm in (0.2, 0):
                    n += 1
                    nPop = 4 if n % 3 else 8
                    if e == 3 and nPop == 4 and pm == 0:
                        nPop = 8
                    q = dict(obj=obj, ranges=R2, length=2 + n % 2, nPop=nPop, p_c=(1, 0.5)[n % 4 == 0], p_m=pm, elitism=e, minimize=minimize, gens=3 if not th else 4, restart=1 if n % 5 == 0 else None)
                    for base in (0, 1, 3, 4) if th else (n % 4,):
                        yield "explore", dict(p=q, base=base, bound=1)
                    if (th or (obj == "steps" and pm)) and nPop == 4:
                        yield "explore", dict(p=dict(q, gens=2, restart=None), base=n % 2, bound=2)
