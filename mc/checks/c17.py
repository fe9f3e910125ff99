"""C17: the genetic search stops when told and counts what it did: all combinations of the limits,
all random outcomes within a deviation bound, a failure of the objective at every possible call, and
all sequences of operations, against a counting model."""
import itertools

import numpy as np

from ..core import Violation
from .. import gam, rng
from sigmaepsilon.math.optimize.ga import GeneticAlgorithm

S = GeneticAlgorithm.Status


def best_by_generation(rec, start, n, minimize):
    """best value of each generation evaluated since `start`"""
    vals = [v for _, v in rec.calls[start:]]
    pick = min if minimize else max
    return [pick(vals[i : i + n]) for i in range(0, len(vals), n)]


def age_of(gens, minimize):
    age, best = 0, None
    for g in gens:
        if best is None or gam.better(g, best, minimize):
            best, age = g, 1
        else:
            age += 1
    return age


class Model:
    def __init__(self, ga, rec, n, minimize):
        self.ga, self.rec, self.n, self.min = ga, rec, n, minimize
        self.reset()

    def reset(self):
        self.start = len(self.rec.calls)
        self.iters = 0
        self.extra = 0  # evaluations asked for by the user

    @property
    def evals(self):
        return len(self.rec.calls) - self.start

    def counts(self, what):
        st = self.ga.state
        if st.n_fev != self.evals + self.extra:
            raise Violation(f"{what}: n_fev is {st.n_fev}, the objective was evaluated {self.evals + self.extra} times")
        if st.n_iter != self.iters:
            raise Violation(f"{what}: n_iter is {st.n_iter}, there were {self.iters} iterations")
        if self.evals % self.n:
            raise Violation(f"{what}: {self.evals} evaluations are not whole generations of {self.n}")
        r = st.to_scipy()
        if (r.nit, r.nfev, r.fun, r.success, r.status, r.message) != (st.n_iter, st.n_fev, st.fun, st.success, st.stage, st.message) or (r.x is None) != (st.x is None) or (r.x is not None and list(r.x) != list(st.x)):
            raise Violation(f"{what}: the state {st} reads out as {r}")
        if self.ga.champion is not None:
            gens = best_by_generation(self.rec, self.start, self.n, self.min)
            if self.ga.champion.age != age_of(gens, self.min):
                raise Violation(f"{what}: the champion's age is {self.ga.champion.age}, generations {gens}")


def check_solve(ctx, ga, rec, model, kw, recycle, what):
    """one call of solve against the stopping rule"""
    minimize = model.min
    if not recycle:
        model.reset()
    # a first population that was only looked at is still to be taken in
    done = model.evals // model.n if ga.champion is not None else 0
    before = model.iters
    ch = ga.solve(recycle=recycle, **kw)
    ctx.step()
    gens = best_by_generation(rec, model.start, model.n, minimize)
    ran = len(gens) - done
    # the stopping rule on what was observed
    k = 0
    while True:
        k += 1
        if k > ran:
            raise Violation(f"{what}: stopped after {ran} iterations, too early: limits {kw}, best by generation {gens}")
        it = before + k
        old = age_of(gens[: done + k], minimize) > ga.maxage
        if (old or it >= ga.maxiter) and it >= ga.miniter:
            break
    if k != ran:
        raise Violation(f"{what}: ran {ran} iterations, should have stopped after {k}: limits {kw}, best by generation {gens}")
    model.iters += ran
    st = ga.state
    want = S.MAX_ITERATIONS_REACHED if model.iters >= ga.maxiter else S.CONVERGED
    if st.stage != want.value:
        raise Violation(f"{what}: the status is {st.stage}, expected {want}; limits {kw}, {model.iters} iterations")
    if st.success is not True:
        raise Violation(f"{what}: success is {st.success}")
    ctx.outcome(want.name.lower())
    if ch.fitness != ga.champion.fitness:
        raise Violation(f"{what}: returned {ch}, the champion is {ga.champion}")
    model.counts(what)
    return ran


def run_program(ctx, p, s, fail_at=None):
    ga, rec, plain = gam.make(p, fail_at)
    model = Model(ga, rec, gam.size(p["nPop"]), p.get("minimize", False))
    what0 = f"{p['obj']} {'min' if p.get('minimize') else 'max'} nPop={p['nPop']} elitism={p.get('elitism', 1)} program {p['prog']} forced {s.forced} failing at {fail_at}"
    model.counts(what0 + ", at the start")
    for i, op in enumerate(p["prog"]):
        what = f"{what0}, step {i} {op}"
        if op[0] == "solve":
            kw = dict(zip(("miniter", "maxiter", "maxage"), op[1:]))
            check_solve(ctx, ga, rec, model, kw, False, what)
        elif op[0] == "solve0":  # with the limits set before
            check_solve(ctx, ga, rec, model, {}, False, what)
        elif op[0] == "flip":  # solved again in the other sense
            model.min = not model.min
            check_solve(ctx, ga, rec, model, dict(miniter=1, maxiter=3, maxage=1, minimize=model.min), False, what)
        elif op[0] == "continue":
            kw = dict(zip(("miniter", "maxiter", "maxage"), (0, model.iters + op[1], op[2])))
            check_solve(ctx, ga, rec, model, kw, True, what)
        elif op[0] == "evolve":
            n0 = model.evals
            ga.evolve(op[1])
            model.counts(what)
            if model.evals - n0 > op[1] * model.n or model.evals - n0 < (op[1] - 1) * model.n:
                raise Violation(f"{what}: {model.evals - n0} evaluations for {op[1]} generations")
        elif op[0] == "eval":  # the user evaluates points of his own, or the population once more
            a = gam.snapshot(ga)[:4]
            model.counts(what)
            X = ga.phenotypes if op[1] is None else np.array([[0.25 * (i + 1) + 0.5 * j for j in range(ga.dim)] for i in range(op[1])])
            n0 = len(rec.calls)
            r = ga.evaluate() if op[1] is None else ga.evaluate(X)
            got = rec.calls[n0:]
            if len(got) != len(X) or not all(gam.same_point(x, c[0]) for x, c in zip(X, got)):
                raise Violation(f"{what}: the objective was evaluated at {[c[0] for c in got]}, asked for {X.tolist()}")
            if np.shape(r) != (len(X),) or not all(float(v) == float(c[1]) for v, c in zip(r, got)):
                raise Violation(f"{what}: evaluate returns {r}, the values are {[c[1] for c in got]}")
            del rec.calls[n0:]
            model.extra += len(X)
            model.counts(what)
            if gam.snapshot(ga)[:4] != a:
                raise Violation(f"{what}: evaluating points changed the search")
        elif op[0] == "assign":  # a population of the user's
            ga.fitness
            G0 = np.array(ga.genotypes)
            G = G0[::-1].copy()
            G[:, 0] = 1 - G[:, 0]
            for g in (G, G0):  # and the old one again
                ga.genotypes = g
                n0 = len(rec.calls)
                fit = np.array(ga.fitness, dtype=float)
                got = rec.calls[n0:]
                want = gam.decode(g.astype(float), np.array(p["ranges"], dtype=float), ga.length)
                if len(got) != len(want) or not all(gam.same_point(x, c[0]) for x, c in zip(want, got)) or fit.tolist() != [c[1] for c in got]:
                    raise Violation(f"{what}: a population was assigned, its points are {want.tolist()}, evaluated were {got}, the fitness is {fit.tolist()}")
                del rec.calls[n0:]
                model.extra += len(want)
                model.counts(what)
        elif op[0] == "reset":
            if ga.reset() is not ga:
                raise Violation(f"{what}: reset does not return the object")
            model.reset()
            model.counts(what)
            if ga.champion is not None or ga.state.x is not None or ga.state.fun is not None or ga.state.message:
                raise Violation(f"{what}: the state after a restart is {ga.state}")
        elif op[0] == "read":
            ga.fitness  # evaluates a population that was not evaluated yet
            model.counts(what)
            a = gam.snapshot(ga)
            n = len(rec.calls)
            for _ in range(3):
                ga.champion, ga.genotypes, ga.phenotypes, ga.fitness, ga.best_candidate(), ga.best_phenotype(), ga.divide(), ga.state.to_scipy(), ga.nIter
            if gam.snapshot(ga) != a or len(rec.calls) != n:
                raise Violation(f"{what}: reading the results changed the search")
        ctx.state(repr((p["prog"][: i + 1], model.iters, model.evals, ga.state.stage)))
    return ga, rec, model


def k_run(ctx, p):
    s = rng.Script({int(k): v for k, v in p["forced"].items()}, p["base"])
    with rng.controlled(s):
        run_program(ctx, p["p"], s)


def k_explore(ctx, p):
    def run(s):
        try:
            run_program(ctx, p["p"], s)
        except Violation as v:
            raise Violation(str(v), "run", dict(p=p["p"], base=p["base"], forced={str(k): v for k, v in s.forced.items()}))

    ctx.deeper(len(p["p"]["prog"]))
    for base in p["bases"]:
        p["base"] = base
        rng.explore(ctx, run, p["bound"], base, p.get("window"))
    ctx.sample(p)


def k_fail(ctx, p):
    """the objective fails at its k-th call: the error reaches the caller, the state says so, and
    the search can be started again"""
    q = p["p"]
    for k in p["at"]:
        s = rng.Script({}, p["base"])
        with rng.controlled(s):
            ga, rec, plain = gam.make(q, k)
            n = gam.size(q["nPop"])
            what = f"{q} failing at call {k}"
            ctx.step()
            try:
                ga.solve()
            except Exception as e:
                err = e
            else:
                if rec.seen < k:
                    ctx.outcome("finished before")
                    continue
                raise Violation(f"{what}: the error did not reach the caller")
            chain, seen = err, []
            while chain is not None:
                seen.append(chain)
                chain = chain.__cause__ or chain.__context__
            if not any(isinstance(e, ArithmeticError) and f"call {k}" in str(e) for e in seen):
                raise Violation(f"{what}: the caller got {err!r}, the cause is lost")
            st = ga.state
            if st.stage != S.ERROR.value or st.success is not False or not st.message:
                raise Violation(f"{what}: the state after the error is {st}")
            full = (k - 1) // n
            if st.n_iter != full or st.n_fev != full * n:
                raise Violation(f"{what}: after the error n_iter={st.n_iter}, n_fev={st.n_fev}, {full} generations of {n} were finished")
            if full and (ga.champion is None or ga.champion.fitness != (min if q.get("minimize") else max)(v for _, v in rec.calls[: full * n])):
                raise Violation(f"{what}: the champion after the error is {ga.champion}")
            ctx.outcome("error reported")
            # starting again
            rec.fail_at = None
            model = Model(ga, rec, n, q.get("minimize", False))
            check_solve(ctx, ga, rec, model, {}, False, what + ", solved again")
            if ga.state.message:
                raise Violation(f"{what}: solved again, the message is still {ga.state.message!r}")
            ctx.trace()
    ctx.state(repr(p))


KINDS = {"run": k_run, "explore": k_explore, "fail": k_fail}
R1 = [[-1, 2]]
R2 = [[-1, 1], [0.5, 3]]
OPS = [["solve", 0, 3, 0], ["solve", 2, 4, 1], ["continue", 2, 9], ["continue", 3, 1], ["evolve", 1], ["evolve", 2], ["reset"], ["read"], ["solve0"], ["eval", 3], ["eval", None], ["assign"], ["flip"]]


def cases(tier):
    th = tier == "thorough"
    n = 0
    for mi in range(0, 5 if not th else 7):
        for ma in range(max(1, mi), 6 if not th else 9):
            for age in range(0, 5):
                for obj in ("peak", "valley", "steps", "flat", "waves", "tiny") if th else (("peak", "steps", "tiny"), ("valley", "flat", "waves"))[n % 2]:
                    n += 1
                    q = dict(obj=obj, ranges=R1 if n % 2 else R2, length=3, nPop=(4, 8)[n % 5 == 0], p_c=1, p_m=0.2, elitism=(1, None, 2)[n % 3], minimize=bool((n // 2) % 2), prog=[["solve", mi, ma, age]])
                    q2 = dict(q, prog=[["solve0"]], miniter=mi, maxiter=ma, maxage=age)
                    yield "explore", dict(p=q if n % 2 else q2, bases=list(range(6 if th else 4)), bound=0 if not th and n % 4 else 1, window=30)
    depth = 4 if th else 3
    for k in range(1, depth + 1):
        for seq in itertools.product(OPS, repeat=k):
            n += 1
            if k == depth and not th and n % 5:
                continue
            q = dict(obj=("peak", "steps", "waves", "s_poly")[n % 4], ranges=R2, length=3, nPop=4, p_c=1, p_m=0.2, elitism=(1, None)[n % 2], minimize=bool((n // 2) % 2), prog=list(seq), miniter=1, maxiter=3, maxage=1)
            yield "explore", dict(p=q, bases=[n % 5], bound=0)
    # the default limits, on a flat objective: age decides
    for age in (None, 0, 1, 7):
        q = dict(obj="flat", ranges=R1, length=4, nPop=8, prog=[["solve0"]])
        if age is not None:
            q["maxage"] = age
        yield "explore", dict(p=q, bases=[0, 1], bound=0)
    for ma in (1, 2, 50, 120):
        yield "explore", dict(p=dict(obj="flat", ranges=R1, length=4, nPop=4, maxiter=ma, maxage=1000, prog=[["solve0"]]), bases=[0], bound=0)
        yield "explore", dict(p=dict(obj="flat", ranges=R1, length=4, nPop=4, miniter=ma, maxiter=200, prog=[["solve0"]]), bases=[0], bound=0)
    for obj in ("peak", "steps"):
        for nPop in (4, 8):
            for minimize in (False, True):
                q = dict(obj=obj, ranges=R2, length=3, nPop=nPop, maxiter=4, maxage=9, minimize=minimize, elitism=(1, None)[nPop == 8])
                yield "fail", dict(p=q, base=nPop % 3, at=list(range(1, 4 * nPop + 3)))
