"""C14: linear programs against exact vertex and lattice enumeration in rational arithmetic.

All sets of constraints of a pool x objectives x bounds x integrality patterns x both
senses x dense/sparse, each constraint spelled in one of several ways."""
import itertools
import operator
from fractions import Fraction as F

import numpy as np
import sympy as sy

from ..core import Violation
from sigmaepsilon.math.function import Equality, Function, InEquality, Relation
from sigmaepsilon.math.function.relation import Relations
from sigmaepsilon.math.optimize import LinearProgrammingProblem as LPP

OPF = {"=": operator.eq, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
FLIP = {"=": "=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}


# ------------------------------------------------------------------ exact oracle
def solve_sq(rows, rhs):
    """exact solution of a square system or None"""
    n = len(rows)
    M = [list(map(F, r)) + [F(b)] for r, b in zip(rows, rhs)]
    for c in range(n):
        p = next((i for i in range(c, n) if M[i][c] != 0), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for i in range(n):
            if i != c and M[i][c] != 0:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[c])]
    return [M[i][n] for i in range(n)]


def vertices(n, eqs, les):
    """vertices of {a.x = b} and {a.x <= b}: all of them, in exact arithmetic"""
    out = set()
    hy = eqs + les
    if n == 0:
        ok = all(b == 0 for _, b in eqs) and all(0 <= b for _, b in les)
        return {()} if ok else set()
    for sub in itertools.combinations(range(len(hy)), n):
        x = solve_sq([hy[i][0] for i in sub], [hy[i][1] for i in sub])
        if x is None:
            continue
        x = tuple(x)
        if x in out:
            continue
        if all(sum(a * v for a, v in zip(c, x)) == b for c, b in eqs) and all(sum(a * v for a, v in zip(c, x)) <= b for c, b in les):
            out.add(x)
    return out


def split(n, cons, bounds, big):
    eqs, les = [], []
    for a, o, b in cons:
        if o == "=":
            eqs.append((a, b))
        elif o in ("<=", "<"):
            les.append((a, b))
        else:
            les.append(([-v for v in a], -b))
    for i, (lo, hi) in enumerate(bounds):
        e = [0] * n
        e[i] = 1
        m = [0] * n
        m[i] = -1
        les.append((e, F(big) if hi is None else F(hi)))
        les.append((m, F(big) if lo is None else -F(lo)))
    return eqs, les


def points_of(n, cons, bounds, integ, big=1000):
    """a finite set of feasible points that contains an optimum of every linear objective over
    the region cut at `big` (all vertices for every choice of the integer unknowns)"""
    free = [i for i in range(n) if not integ[i]]
    ints = [i for i in range(n) if integ[i]]
    eqs, les = split(n, cons, bounds, big)
    if not ints:
        return vertices(n, eqs, les)
    out = set()
    ranges = []
    for i in ints:
        lo, hi = bounds[i]
        ranges.append(range(-(-F(lo) // 1), int(F(hi) // 1) + 1))
    for vals in itertools.product(*ranges):
        fix = dict(zip(ints, vals))
        red = lambda c, b: ([c[i] for i in free], b - sum(c[i] * fix[i] for i in ints))
        for v in vertices(len(free), [red(c, b) for c, b in eqs], [red(c, b) for c, b in les]):
            x = [None] * n
            for i, q in zip(free, v):
                x[i] = q
            for i in ints:
                x[i] = F(fix[i])
            out.add(tuple(x))
    return out


def verdict(n, cons, bounds, integ, c, maximize, cache):
    """('infeasible',), ('unbounded',) or ('optimal', value)"""
    key = (tuple((tuple(a), o, b) for a, o, b in cons), tuple(bounds), tuple(integ))
    if key not in cache:
        # integrality is only used with finite bounds
        cache[key] = (points_of(n, cons, bounds, integ, 1000), points_of(n, cons, bounds, integ, 3000) if any(None in b for b in bounds) else None)
    P, P2 = cache[key]
    if not P:
        return ("infeasible",)
    pick = max if maximize else min
    v = pick(sum(F(a) * x for a, x in zip(c, p)) for p in P)
    if P2 is not None and pick(sum(F(a) * x for a, x in zip(c, p)) for p in P2) != v:
        return ("unbounded",)
    return ("optimal", v)


# ------------------------------------------------------------------ spelling
def lin(a, names, const=0):
    s = ""
    for c, v in zip(a, names):
        if c == 0:
            continue
        s += (" + " if c > 0 else " - ") + (f"{abs(c)}*{v}" if abs(c) != 1 else str(v))
    if const:
        s += f" {'+' if const > 0 else '-'} {abs(const)}"
    s = s.strip()
    return s[2:] if s.startswith("+ ") else s or "0"


def spell(con, syms, how):
    """the constraint a.x o b in one of several spellings"""
    a, o, b = con
    names = [str(s) for s in syms]
    e = sum(sy.Integer(c) * s for c, s in zip(a, syms)) - sy.Rational(b)
    cls = Equality if o == "=" else InEquality
    if how == 0:
        return Relation(f"{lin(a, names)} {o} {b}", variables=syms)
    if how == 1:
        return cls(e, op=o, variables=syms)
    if how == 2:  # sides exchanged
        return Relation(f"{b} {FLIP[o]} {lin(a, names)}", variables=syms)
    if how == 3:  # everything on the right
        return Relation(f"0 {FLIP[o]} {lin(a, names, -b)}", variables=syms)
    if how == 4:
        return Relation(-e, op=FLIP[o], variables=list(syms))
    if how == 5:  # part of it on either side
        return cls(f"{lin([a[0]] + [0] * (len(a) - 1), names)}{o}{b} - ({lin([0] + a[1:], names)})", variables=syms)
    if how == 6:
        return Relation(e, op=OPF[o], op_str=o, variables=syms)
    if how == 7:
        return Relation(2 * e, op=Relations(o), variables=syms)
    if how == 8:
        return Relation(lin(a, names, -b), op_str=o, variables=syms)
    raise ValueError(how)


# ------------------------------------------------------------------ checking
# HiGHS as bundled with SciPy 1.14.1 returns suboptimal points for some problems with integrality
# when its presolve is on (min x-2y, x+2y<=3, 0<=x,y<=3, x integer) and none for others when it is
# off, called directly as well.  That is the solver's business: for such problems one of the two
# calls has to give the optimum, unless SciPy, given the textbook form by us, fails both ways too.
NOPRESOLVE = dict(options=dict(presolve=False))


def solver_fails(n, cons, bounds, integ, c, c0, maximize, want):
    from scipy.optimize import linprog

    s = -1.0 if maximize else 1.0
    Au, bu, Ae, be = [], [], [], []
    for a, o, b in cons:
        if o == "=":
            Ae.append(a), be.append(float(b))
        elif o in ("<", "<="):
            Au.append(a), bu.append(float(b))
        else:
            Au.append([-v for v in a]), bu.append(-float(b))
    for kw in ({}, NOPRESOLVE):
        r = linprog(s * np.array(c, dtype=float), A_ub=Au or None, b_ub=bu or None, A_eq=Ae or None, b_eq=be or None, bounds=bounds, integrality=list(integ), **kw)
        try:
            if r.success:
                r.fun = s * r.fun + c0
            check_solution(None, "", r, want, n, cons, bounds, integ, c, c0)
        except Violation:
            continue
        return False
    return True


def solve_and_check(ctx, what, lpp, maximize, want, n, cons, bounds, integ, c, c0):
    try:
        check_solution(ctx, what, lpp.solve(maximize=maximize), want, n, cons, bounds, integ, c, c0)
    except Violation:
        if not any(integ):
            raise
        try:
            check_solution(ctx, what, lpp.solve(maximize=maximize, **NOPRESOLVE), want, n, cons, bounds, integ, c, c0)
            ctx.outcome("optimal only without presolve")
        except Violation:
            if not solver_fails(n, cons, bounds, integ, c, c0, maximize, want):
                raise
            ctx.outcome("given up: the solver fails on the textbook form too")


def check_solution(ctx, what, res, want, n, cons, bounds, integ, c, c0, tol=1e-6):
    if ctx is not None:
        ctx.step()
        ctx.outcome(want[0])
    if want[0] != "optimal":
        if res.success:
            raise Violation(f"{what}: {want[0]}, but x = {res.x}, value {res.fun} was reported as a success")
        return
    if not res.success:
        raise Violation(f"{what}: has the optimum {want[1] + c0}, but reported {res.status} {res.message!r}")
    x = np.asarray(res.x, dtype=float)
    if x.shape != (n,):
        raise Violation(f"{what}: x = {res.x}")
    for a, o, b in cons:
        v = float(np.dot(a, x)) - float(b)
        bad = abs(v) > tol if o == "=" else v > tol if o in ("<", "<=") else v < -tol
        if bad:
            raise Violation(f"{what}: x = {x.tolist()} does not satisfy {a} {o} {b}")
    for i, (lo, hi) in enumerate(bounds):
        if lo is not None and x[i] < lo - tol or hi is not None and x[i] > hi + tol:
            raise Violation(f"{what}: x = {x.tolist()} is out of the bounds {bounds}")
        if integ[i] and abs(x[i] - round(x[i])) > tol:
            raise Violation(f"{what}: x = {x.tolist()} is not integer where asked {integ}")
    val = float(np.dot(c, x)) + float(c0)
    if abs(float(res.fun) - val) > tol:
        raise Violation(f"{what}: value {res.fun}, but the objective is {val} at {x.tolist()}")
    if abs(val - float(want[1] + c0)) > tol * max(1.0, abs(float(want[1]))):
        raise Violation(f"{what}: value {val} at {x.tolist()}, the optimum is {want[1] + c0}")


def k_lp(ctx, p):
    """one set of constraints (with a spelling each), all objectives, senses, bounds, integrality"""
    n = p["n"]
    cons = [(list(a), o, F(*b) if isinstance(b, list) else F(b)) for a, o, b in p["cons"]]
    spell_cons = [(a, o, (b.numerator if b.denominator == 1 else sy.Rational(b.numerator, b.denominator))) for a, o, b in cons]
    syms = sy.symbols(["x", "y", "z", "u"][:n]) if not p.get("names") else sy.symbols(p["names"])
    syms = tuple(syms)
    rels = [spell(c, syms, h) for c, h in zip(spell_cons, p["how"])]
    objs = []
    for k, (c, c0) in enumerate(p["objs"]):
        if k % 2:
            objs.append(Function(lin(c, [str(s) for s in syms], c0), variables=syms))
        else:
            objs.append(Function(sum(sy.Integer(v) * s for v, s in zip(c, syms)) + c0, variables=syms))
    cache = {}
    for bounds in p["bounds"]:
        full = [tuple(b) for b in bounds] if isinstance(bounds[0], list) else [tuple(bounds)] * n
        given = full if isinstance(bounds[0], list) else tuple(bounds)
        for integ in p["integ"]:
            if any(integ) and any(None in full[i] for i in range(n) if integ[i]):
                continue
            for k, (c, c0) in enumerate(p["objs"]):
                for sparse in (True, False):
                    kw = dict(variables=syms, bounds=given, sparsify=sparse)
                    if any(integ):
                        kw["integrality"] = list(integ) if sparse else np.array(integ)
                        if all(integ) and not sparse:
                            kw["integrality"] = 1
                    lpp = LPP(objs[k], rels, **kw)
                    for maximize in ((False, True) if sparse else (True, False)):
                        want = verdict(n, cons, full, integ, c, maximize, cache)
                        what = f"{'max' if maximize else 'min'} {c}+{c0} s.t. {[(a, o, str(b)) for a, o, b in cons]} spelled {p['how']} bounds {given} integrality {integ} sparse={sparse}"
                        solve_and_check(ctx, what, lpp, maximize, want, n, cons, full, integ, c, c0)
                    # once more, after the other sense
                    if k == 0:
                        for maximize in (True, False):
                            want = verdict(n, cons, full, integ, c, maximize, cache)
                            solve_and_check(ctx, what + " (again)", lpp, maximize, want, n, cons, full, integ, c, c0)
                            if not any(integ):
                                check_solution(ctx, what + " (highs-ds)", lpp.solve(maximize=maximize, method="highs-ds"), want, n, cons, full, integ, c, c0)
                    if list(lpp.variables) != list(syms) or lpp.constraints != rels:
                        raise Violation(f"{what}: the problem was changed by solving it")
                    ctx.trace()
    ctx.state(repr(p))
    ctx.sample(dict(cons=p["cons"], how=p["how"]))


def k_assume(ctx, p):
    """integrality from the assumptions on the symbols"""
    n = 2
    cons = [(list(a), o, F(b)) for a, o, b in p["cons"]]
    cache = {}
    for integ in itertools.product([0, 1], repeat=n):
        syms = tuple(sy.Symbol(v, integer=True) if k else sy.Symbol(v, **p["other"]) for v, k in zip(p.get("names", "xy"), integ))
        for how in p["how"]:
            rels = [spell((a, o, int(b)), syms, how) for a, o, b in cons]
            for c, c0 in p["objs"]:
                for f in (Function(lin(c, [str(s) for s in syms], c0), variables=syms), Function(sum(sy.Integer(v) * s for v, s in zip(c, syms)) + c0, variables=list(syms))):
                    for sparse in (True, False):
                        lpp = LPP(f, rels, variables=syms, bounds=(0, 4), sparsify=sparse)
                        for maximize in (False, True):
                            want = verdict(n, cons, [(0, 4)] * n, integ, c, maximize, cache)
                            solve_and_check(ctx, f"assumptions {integ} of {syms} {p['other']} {'max' if maximize else 'min'} {c} s.t. {cons} how {how}", lpp, maximize, want, n, cons, [(0, 4)] * n, integ, c, c0)
                        # the explicit requirement wins
                        lpp = LPP(f, rels, variables=syms, bounds=(0, 4), sparsify=sparse, integrality=0)
                        want = verdict(n, cons, [(0, 4)] * n, (0, 0), c, False, cache)
                        check_solution(ctx, f"integrality=0 over assumptions {integ} {c} s.t. {cons}", lpp.solve(), want, n, cons, [(0, 4)] * n, (0, 0), c, c0)
    ctx.state(repr(p))


def k_coef(ctx, p):
    """irrational and decimal coefficients: the optimum of c.x over the box and one constraint"""
    syms = x, y = sy.symbols("x y")
    q = {"sqrt2": sy.sqrt(2), "pi": sy.pi, "e": sy.E, "dec": sy.Float("0.1"), "third": sy.Rational(1, 3), "golden": (1 + sy.sqrt(5)) / 2}[p["q"]]
    for (a, b), (s, t) in itertools.product([(1, 1), (1, -1), (2, 1), (0, 1)], repeat=2):
        f = Function(q * (a * x + b * y) + 2 + q, variables=syms)
        r = Relation(q * (s * x + t * y) - 2 * q, op="<=", variables=syms)
        for sparse in (True, False):
            lpp = LPP(f, [r], variables=syms, bounds=(0, 3), sparsify=sparse)
            for maximize in (False, True):
                want = verdict(2, [([s, t], "<=", F(2))], [(0, 3)] * 2, (0, 0), (a, b), maximize, {})
                res = lpp.solve(maximize=maximize)
                ctx.step()
                val = float(q) * float(want[1]) + 2 + float(q)
                if not res.success or abs(float(res.fun) - val) > 1e-6 or s * res.x[0] + t * res.x[1] > 2 + 1e-6:
                    raise Violation(f"coefficients {q}: {'max' if maximize else 'min'} {f.expr} s.t. {r.expr} <= 0: {res.x} {res.fun}, expected {val}")
    ctx.state(p["q"])


def k_refuse(ctx, p):
    x, y, z = sy.symbols("x y z")
    f = Function(x + y, variables=[x, y])
    r = Relation(x + y - 1, op="<=", variables=[x, y])
    bad = {
        "no variables": (ValueError, lambda: LPP(f, [r])),
        "callable objective": (ValueError, lambda: LPP(Function(lambda q: q[0], d=2), [r], variables=[x, y])),
        "callable constraint": (ValueError, lambda: LPP(f, [Relation(lambda q: q[0], op="<=", d=2)], variables=[x, y])),
        "foreign variable": (ValueError, lambda: LPP(f, [r], variables=[x, y, z])),
        "text variable": (TypeError, lambda: LPP(f, [r], variables=["x", "y"])),
        "text objective": (TypeError, lambda: LPP("x + y", [r], variables=[x, y])),
        "text constraint": (TypeError, lambda: LPP(f, ["x + y <= 1"], variables=[x, y])),
        "unknown operator": (ValueError, lambda: LPP(f, [Relation(x + y - 1, op=lambda a, b: a <= b, variables=[x, y])], variables=[x, y])),
    }
    exc, fn = bad[p["what"]]
    try:
        fn()
    except exc:
        ctx.state(p["what"])
        return
    raise Violation(f"a linear program with {p['what']} is not refused")


def k_scale(ctx, p):
    """constraints and objectives in other units"""
    syms = x, y = sy.symbols("x y")
    cons = [(list(a), o, F(b)) for a, o, b in p["cons"]]
    full = [(0, 4)] * 2
    cache = {}
    for scales in p["scales"]:
        rels = []
        for (a, o, b), k in zip(cons, scales):
            q = sy.Rational(2) ** k
            e = q * (a[0] * x + a[1] * y) - q * int(b)
            if p["how"] == 0:
                rels.append(Relation(e, op=o, variables=syms))
            elif p["how"] == 1:
                rels.append(Relation(f"{2.0 ** k!r}*({a[0]}*x + {a[1]}*y) {o} {2.0 ** k * int(b)!r}", variables=syms))
            else:
                rels.append(Relation(e.evalf(), op_str=o, variables=syms))
        for kc in p["obj"]:
            qc = sy.Rational(2) ** kc
            for c in ([1, 1], [1, -2], [3, 1]):
                f = Function(qc * (c[0] * x + c[1] * y), variables=syms)
                for sparse in (True, False):
                    lpp = LPP(f, rels, variables=syms, bounds=(0, 4), sparsify=sparse)
                    for maximize in (False, True):
                        want = verdict(2, cons, full, (0, 0), c, maximize, cache)
                        if want[0] != "optimal":
                            continue
                        ctx.step()
                        res = lpp.solve(maximize=maximize)
                        what = f"{'max' if maximize else 'min'} {f.expr} s.t. {[str(r.expr) for r in rels]} {[o for _, o, _ in cons]}"
                        if not res.success:
                            raise Violation(f"{what}: reported {res.message!r}, the optimum is {want[1] * F(2) ** kc}")
                        v = float(res.fun) / 2.0**kc
                        if abs(v - float(want[1])) > 1e-5 or abs(float(np.dot(c, res.x)) - v) > 1e-6:
                            raise Violation(f"{what}: value {res.fun} at {res.x}, the optimum is {float(want[1]) * 2.0 ** kc}")
        ctx.state(repr((p["cons"], scales)))
    ctx.trace()


def k_assign(ctx, p):
    """assignment problems: all permutations as the reference"""
    m = p["m"]
    n = m * m
    syms = tuple(sy.symbols([f"x{i + 1}" for i in range(n)]))
    C = p["C"]
    rows = [[1 if j // m == i else 0 for j in range(n)] for i in range(m)]
    cols = [[1 if j % m == i else 0 for j in range(n)] for i in range(m)]
    ops = p["ops"]
    rels = []
    for k, a in enumerate(rows + cols):
        if k == 2 * m - 1 and p["drop"]:
            continue
        rels.append(spell((a, ops[k % len(ops)], 1), syms, (k + p["how"]) % 9))
    vals = [sum(C[i][s[i]] for i in range(m)) for s in itertools.permutations(range(m))]
    f = Function(sum(sy.Integer(C[j // m][j % m]) * syms[j] for j in range(n)), variables=syms)
    for sparse in (True, False):
        for bounds in ((0, None), (0, 1), [(0, 1)] * n):
            lpp = LPP(f, rels, variables=syms, bounds=bounds, sparsify=sparse)
            for maximize in (False, True):
                ctx.step()
                res = lpp.solve(maximize=maximize)
                best = max(vals) if maximize else min(vals)
                if not res.success or abs(float(res.fun) - best) > 1e-6:
                    raise Violation(f"assignment {C}: {'max' if maximize else 'min'} reported {res.success} {res.fun}, the optimum is {best}")
                x = np.asarray(res.x)
                if np.abs(np.array(rows) @ x - 1).max() > 1e-6 or np.abs(np.array(cols) @ x - 1).max() > 1e-6 or x.min() < -1e-7:
                    raise Violation(f"assignment {C}: infeasible {x}")
    ctx.state(repr(p))
    ctx.trace()


KINDS = {"lp": k_lp, "assume": k_assume, "coef": k_coef, "refuse": k_refuse, "scale": k_scale, "assign": k_assign}

POOL2 = [
    ([1, 1], "<=", 2), ([1, 1], ">=", 1), ([1, -1], "=", 0), ([1, 2], "<=", 3), ([2, -1], ">=", -1), ([1, 0], ">=", 1), ([0, 1], "<=", 2), ([-1, -1], ">=", -3),
    ([1, 1], "=", 2), ([2, 1], "=", 3), ([-1, 2], "<=", 1), ([0, 1], ">=", 1), ([3, 2], "<=", 5), ([1, -1], ">=", 3), ([-2, 1], "<=", -1), ([1, 1], "<", 2), ([2, 3], ">", 4), ([1, 0], "=", 1),
]
POOL3 = [([1, 1, 1], "<=", 3), ([1, -1, 0], ">=", 0), ([0, 1, 2], "<=", 2), ([1, 0, -1], "=", 1), ([2, 1, 1], ">=", 2), ([0, 1, -1], "<=", 0), ([1, 1, 0], "=", 2), ([-1, 2, 1], ">=", 1), ([1, 2, 3], "<", 5)]
OBJ2 = [([1, 1], 0), ([1, -2], 3), ([-1, 0], 0), ([2, 3], -5)]
OBJ3 = [([1, 1, 1], 0), ([1, -2, 1], 4), ([0, -1, 2], 0)]


def cases(tier):
    th = tier == "thorough"
    for w in ("no variables", "callable objective", "callable constraint", "foreign variable", "text variable", "text objective", "text constraint", "unknown operator"):
        yield "refuse", dict(what=w)
    for q in ("sqrt2", "pi", "e", "dec", "third", "golden"):
        yield "coef", dict(q=q)
    sc = [-21, -10, 0, 12, 20]
    for i, c1 in enumerate(POOL2):
        if c1[1] in "<>":
            continue
        yield "scale", dict(cons=[list(c1)], scales=[[k] for k in sc], obj=[0, -12, 20] if th else [0], how=i % 3)
    for i, (a, b) in enumerate(itertools.combinations([c for c in POOL2[:12]], 2)):
        if not th and i % 8:
            continue
        yield "scale", dict(cons=[list(a), list(b)], scales=[[k, l] for k in sc for l in sc if th or (k != l and abs(k - l) > 11)], obj=[0] if not th else [0, -12, 20], how=i % 3)
    base = [[3, 1, 4, 1], [5, 9, 2, 6], [5, 3, 5, 8], [9, 7, 9, 3]]
    for m_ in (2, 3, 4):
        for k in range(4 if not th else 16):
            C = [[(base[(i + k) % 4][(j + k // 4) % 4] * (1 + k)) % 11 - (k % 3) for j in range(m_)] for i in range(m_)]
            for ops in (["="], ["=", "="]):
                yield "assign", dict(m=m_, C=C, ops=ops, how=k, drop=int(len(ops) == 2))
    B2 = [[0, 3], [0, None], [None, None], [[0, 2], [-1, 3]], [[-2, None], [0, 1]]]
    I2 = [[0, 0], [1, 1], [1, 0], [0, 1]]
    pool = POOL2
    m = 0
    for k in (0, 1, 2, 3) if th else (0, 1, 2):
        for sub in itertools.combinations(range(len(pool)), k):
            if k == 3 and sum(sub) % 3:
                continue
            for shift in range(3) if k == 1 and not th else range(9) if k == 1 else range(2 if th else 1):
                how = [(7 * m + 3 * i + shift) % 9 for i in range(k)]
                order = list(sub) if m % 2 else list(sub)[::-1]
                yield "lp", dict(n=2, cons=[[list(pool[i][0]), pool[i][1], pool[i][2]] for i in order], how=how, objs=OBJ2 if th else (OBJ2[m % 4 :] + OBJ2[: m % 4])[:2], bounds=B2 if th or k < 2 else [B2[0], B2[1 + m % 4]], integ=I2 if th or k < 2 else [I2[0], I2[1 + m % 3]], names=[None, ["x10", "x2"], ["b", "a"]][m % 3])
                m += 1
    # fractional right-hand sides, so that integer optima differ from the continuous ones
    for sub in itertools.combinations(range(8), 2):
        yield "lp", dict(n=2, cons=[[list(pool[i][0]), pool[i][1], [2 * pool[i][2] + 1, 2]] for i in sub], how=[(m + i) % 9 for i in range(2)], objs=OBJ2[:2], bounds=[[0, 3]], integ=I2)
        m += 1
    B3 = [[0, 3], [0, None], [[0, 2], [-1, 2], [0, 1]]]
    I3 = [[0, 0, 0], [1, 1, 1], [1, 0, 1], [0, 1, 0]]
    for k in (1, 2, 3) if th else (1, 2):
        for sub in itertools.combinations(range(len(POOL3)), k):
            yield "lp", dict(n=3, cons=[[list(POOL3[i][0]), POOL3[i][1], POOL3[i][2]] for i in sub], how=[(m + 2 * i) % 9 for i in range(k)], objs=OBJ3 if th else [OBJ3[m % 3]], bounds=B3 if th else [B3[m % 3]], integ=I3 if th else [I3[0], I3[1 + m % 3]], names=[None, ["x1", "x10", "x2"]][m % 2])
            m += 1
    for sub in itertools.combinations(range(12), 2) if th else itertools.combinations(range(0, 12, 2), 2):
        yield "assume", dict(cons=[[list(pool[i][0]), pool[i][1], pool[i][2]] for i in sub], how=[m % 9] if not th else [m % 9, (m + 4) % 9], objs=[([1, 1], 0), ([-3, 2], 1)], other=[{}, {"positive": True}, {"real": True}, {"integer": False}][m % 4], names=[["x", "y"], ["b", "a"], ["x10", "x2"]][m % 3])
        m += 1
