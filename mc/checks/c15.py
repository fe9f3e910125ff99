"""C15: the genetic search reports the best solution it has ever seen.

Stateless exploration of the real search under a controlled random source: all sequences of random
outcomes within a deviation bound from several base sequences, over objectives, senses, elitism and
programs of evolving, solving, continuing and restarting; the objective is recorded call by call."""
import itertools

import numpy as np

from ..core import Violation
from .. import gam, rng
from sigmaepsilon.math.optimize.ga import Genom


def run_program(ctx, p, s, forced=None):
    ga, rec, plain = gam.make(p)
    minimize = p.get("minimize", False)
    mon = gam.Monitor(ga, rec, plain, minimize)
    what0 = f"{p['obj']} {'min' if minimize else 'max'} nPop={p['nPop']} elitism={p.get('elitism', 1)} program {p['prog']} forced {s.forced}"
    elit = p.get("elitism", 1)

    def elites():
        if elit is None:
            return 0
        return int(gam.size(p["nPop"]) * elit) if elit < 1 else int(elit)

    def step(what):
        ctx.step()
        prev, gen = mon.observe(what)
        if prev is not None and elites() > 0 and gam.better(prev, gen, minimize):
            raise Violation(f"{what}: the best of the population went from {prev} to {gen} with elites kept")

    started = False
    for i, op in enumerate(p["prog"]):
        what = f"{what0}, step {i} ({op})"
        if op[0] == "evolve":  # one by one
            for k in range(op[1]):
                before = None if ga.champion is None else ga.champion.fitness
                out = ga.evolve(1)
                if not np.array_equal(out, ga.genotypes):
                    raise Violation(f"{what}: evolve returned something else than the population")
                step(what)
                if before is not None and gam.better(before, ga.champion.fitness, minimize):
                    raise Violation(f"{what}: the champion went from {before} to {ga.champion.fitness}")
            started = True
        elif op[0] == "evolve*":  # at once; only the end is observed
            before = None if ga.champion is None else ga.champion.fitness
            ga.evolve(op[1])
            mon.gens = []
            mon.best = None
            step(what)
            started = True
        elif op[0] == "sense":  # the sense of the search is changed between two searches
            minimize = not minimize
            ga.set_solution_params(minimize=minimize)
            mon.min = minimize
            ga.reset()
            mon.restart()
            started = False
        elif op[0] in ("solve", "again", "continue", "flip"):
            if op[0] != "continue":
                mon.restart()
            kw = {}
            if op[0] == "flip":  # the other way round
                minimize = not minimize
                kw["minimize"] = mon.min = minimize
            ch = ga.solve(**kw, recycle=op[0] == "continue", maxiter=ga.state.n_iter + op[1] if op[0] == "continue" else op[1], maxage=op[2], miniter=0)
            mon.gens = []
            mon.best = None
            step(what)
            if ch is not ga.champion and ch != ga.champion:
                raise Violation(f"{what}: solve returned {ch}, the champion is {ga.champion}")
            if float(ch.fitness) != float(ga.champion.fitness) or list(ch.phenotype) != list(ga.champion.phenotype):
                raise Violation(f"{what}: solve returned {ch}, the champion is {ga.champion}")
            r = ga.state.to_scipy()
            if list(r.x) != list(ch.phenotype) or r.fun != ch.fitness:
                raise Violation(f"{what}: the final state is {r.x}, {r.fun}, the champion {ch}")
            started = True
        elif op[0] == "reset":
            ga.reset()
            mon.restart()
            if ga.champion is not None or ga.state.x is not None or ga.state.fun is not None:
                raise Violation(f"{what}: after a restart the champion is {ga.champion}, the state {ga.state}")
            started = False
        elif op[0] == "read":
            a = gam.snapshot(ga)
            ga.best_candidate(), ga.best_phenotype(), ga.divide(), ga.evaluate(np.array(ga.phenotypes))
            b = gam.snapshot(ga)
            if a[:4] != b[:4]:
                raise Violation(f"{what}: reading changed the search")
    if started:
        ctx.state(repr((p["obj"], p["prog"], [round(g, 9) for g in mon.gens][-3:], ga.champion.phenotype)))
        ctx.outcome("improved" if len(set(mon.gens)) > 1 else "constant")


def k_run(ctx, p):
    f = {int(k): v for k, v in p["forced"].items()}
    s = rng.Script(f, p["base"])
    with rng.controlled(s):
        run_program(ctx, p["p"], s)


def k_explore(ctx, p):
    def run(s):
        try:
            run_program(ctx, p["p"], s)
        except Violation as v:
            raise Violation(str(v), "run", dict(p=p["p"], base=p["base"], forced={str(k): v for k, v in s.forced.items()}))

    ctx.deeper(sum(o[1] for o in p["p"]["prog"] if len(o) > 1))
    rng.explore(ctx, run, p["bound"], p["base"], p.get("window"))
    ctx.sample(p)


def k_genom(ctx, p):
    """comparisons of members go by fitness"""
    vals = [-1.0, 0.0, 1e-300, 1.0, 1.0 + 1e-12, float("inf")]
    import operator as op

    for a, b in itertools.product(vals, repeat=2):
        A, B = Genom(fitness=a, genotype=[0]), Genom(fitness=b, genotype=[1])
        for o in (op.lt, op.le, op.gt, op.ge):
            ctx.step()
            if bool(o(A, B)) != o(a, b):
                raise Violation(f"members with {a} and {b}: {o.__name__} is {o(A, B)}")
        for o in (op.lt, op.le, op.gt, op.ge):
            try:
                o(A, b)
            except TypeError:
                continue
            raise Violation("a member compared with a number is not refused")
    for g, h in itertools.product([[0, 1], [1, 0], [0, 1, 1], [0, 1]], repeat=2):
        if len(g) == len(h) and bool(Genom(fitness=1, genotype=g) == Genom(fitness=2, genotype=h)) != (g == h):
            raise Violation(f"members with genotypes {g}, {h} compare wrongly")
        if g == h and hash(Genom(fitness=1, genotype=g)) != hash(Genom(fitness=2, genotype=h)):
            raise Violation("equal members with different hashes")
    ctx.state("genom")


KINDS = {"run": k_run, "explore": k_explore, "genom": k_genom}

R1 = [[-1, 2]]
R2 = [[-1, 1], [0.5, 3]]
PROGS = [
    [["evolve", 4]],
    [["evolve", 2], ["read"], ["evolve", 2]],
    [["solve", 3, 5], ["continue", 2, 9]],
    [["evolve", 2], ["reset"], ["evolve", 2]],
    [["solve", 3, 1], ["again", 2, 1]],
    [["evolve*", 3], ["evolve", 1]],
    [["evolve", 1], ["continue", 3, 9], ["evolve", 1]],
    [["solve", 2, 5], ["flip", 2, 5], ["evolve", 2], ["flip", 2, 5]],
    [["evolve", 2], ["sense"], ["evolve", 3], ["flip", 2, 2]],
]


def cases(tier):
    th = tier == "thorough"
    yield "genom", {}
    n = 0
    objs = list(gam.OBJ) + list(gam.SYM)
    for obj in objs:
        for minimize in (False, True):
            for elitism in (1, None, 2, 0.5, 3):
                for pi, prog in enumerate(PROGS):
                    n += 1
                    if not th and (n + n // 9) % 4:
                        continue
                    nPop = 4 if n % 4 else 8
                    one = obj == "s_one" or (obj not in gam.SYM and n % 3 == 0)
                    q = dict(obj=obj, ranges=R1 if one else R2, length=3 if one else 2, nPop=nPop, p_c=1 if n % 5 else 0.5, p_m=0.2, elitism=elitism, minimize=minimize, prog=prog)
                    for base in (0, 1, 2, 5) if th else (n % 7,):
                        yield "explore", dict(p=q, base=base, bound=1)
    # two deviations, smaller programs
    for obj in ("peak", "valley", "steps", "wall") if not th else objs:
        for minimize in (False, True):
            for elitism in (1, None) if not th else (1, None, 2):
                for prog in ([["evolve", 2]],) if not th else ([["evolve", 3]], [["solve", 2, 9]]):
                    q = dict(obj=obj, ranges=R1 if obj == "s_one" or obj not in gam.SYM else R2, length=3, nPop=4, p_c=1, p_m=0.2, elitism=elitism, minimize=minimize, prog=prog)
                    yield "explore", dict(p=q, base=0 if not th else 1, bound=2)
    # long runs
    for obj in objs:
        for minimize in (False, True):
            for base in range(1, 9 if th else 4):
                q = dict(obj=obj, ranges=R1 if obj == "s_one" else R2, length=6, nPop=20, p_c=0.9, p_m=0.1, elitism=[1, None, 0.25][base % 3], minimize=minimize, prog=[["evolve", 12], ["reset"], ["solve", 6, 9], ["continue", 5, 9]])
                yield "explore", dict(p=q, base=base, bound=0 if not th else 1, window=40)
