"""C20: Lagrange polynomials against exact rational polynomials: all node sets of a grid in all
orders, all ways of asking, all sequences of calls."""
import itertools
from fractions import Fraction as F

import numpy as np
import sympy as sy

from ..core import Violation
from sigmaepsilon.math.approx import approx_Lagrange_1d, gen_Lagrange_1d
from sigmaepsilon.deepdict import DeepDict


# -- reference -----------------------------------------------------------------
def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def pdiff(a):
    return [k * c for k, c in enumerate(a)][1:] or [F(0)]


def pval(a, x):
    r = F(0)
    for c in reversed(a):
        r = r * x + c
    return r


def basis(nodes):
    res = []
    for k, xk in enumerate(nodes):
        p = [F(1)]
        for j, xj in enumerate(nodes):
            if j != k:
                p = pmul(p, [-xj / (xk - xj), 1 / (xk - xj)])
        res.append(p)
    return res


def as_node(v, how):
    """a node (given as an exact string) in the form passed to the library"""
    f = F(v)
    if how == "rational":
        return sy.Rational(f.numerator, f.denominator)
    if how == "auto":
        return int(f) if f.denominator == 1 else float(f)
    if how == "float":
        return float(f)
    raise KeyError(how)


def evaluate(expr, x, subs=None, sym="x"):
    e = sy.sympify(expr)
    if subs:
        e = e.subs(subs)
    r = e.subs(sy.Symbol(sym), sy.Rational(x.numerator, x.denominator))
    return r


def same(v, ref, scale, tol=1e-8):
    try:
        v = float(v)
    except TypeError:
        return False
    return abs(v - float(ref)) <= tol * max(1.0, scale, abs(float(ref)))


def probe(nodes):
    lo, hi = min(nodes), max(nodes)
    L = hi - lo
    return list(nodes) + [lo + L * F(3, 8), hi + L / 5, lo - L / 7, lo + L * F(5, 7)]


def check_basis(ctx, res, inds, nodes, what, subs=None, sym="x", tol=1e-8, fnc=False):
    """res: the dictionary of the library; nodes: exact Fractions"""
    keys = list(res.keys())
    if sorted(map(str, keys)) != sorted(map(str, inds)):
        raise Violation(f"{what}: keys {keys}, asked for {inds}")
    B = basis(nodes)
    for ind, p in zip(inds, B):
        d = p
        for j in range(4):
            for x in probe(nodes):
                ref = pval(d, x)
                scale = float(sum(abs(c) * abs(x) ** k for k, c in enumerate(d)))
                v = evaluate(res[ind][j], x, subs, sym)
                ctx.step()
                if not same(v, ref, scale, tol):
                    raise Violation(f"{what}: derivative {j} of the function of node {ind} at {x} is {v} instead of {ref}; it reads {res[ind][j]}")
                if fnc:
                    v = res[ind]["fnc"][j](float(x))
                    if not same(v, ref, scale, tol):
                        raise Violation(f"{what}: numeric derivative {j} of the function of node {ind} at {x} is {v} instead of {ref}")
            if fnc:
                xs = np.array([float(x) for x in probe(nodes)])
                v = np.broadcast_to(res[ind]["fnc"][j](xs), xs.shape)
                for a, x in zip(v, probe(nodes)):
                    if not same(a, pval(d, x), float(sum(abs(c) * abs(x) ** k for k, c in enumerate(d))), tol):
                        raise Violation(f"{what}: vectorized derivative {j} of node {ind} at {x} is {a}")
            d = pdiff(d)
        if "symbol" not in res[ind] or not isinstance(res[ind]["symbol"], str):
            raise Violation(f"{what}: no symbol for {ind}")


def check_interp(ctx, nodes, raw, values, exact, lambdify, what, tol=1e-8):
    f = approx_Lagrange_1d(raw, values, lambdify=lambdify)
    p = [F(0)]
    for v, b in zip(exact, basis(nodes)):
        n = max(len(p), len(b))
        p = [(p[k] if k < len(p) else 0) + v * (b[k] if k < len(b) else 0) for k in range(n)]
    for x in probe(nodes):
        ref = pval(p, x)
        scale = float(sum(abs(c) * abs(x) ** k for k, c in enumerate(p))) + max(abs(float(v)) for v in exact)
        got = f(float(x)) if lambdify else evaluate(f, x)
        ctx.step()
        if not same(got, ref, scale, tol):
            raise Violation(f"{what}: interpolant of {values} at {x} is {got} instead of {ref}")
    if lambdify:
        xs = np.array([float(x) for x in probe(nodes)])
        got = np.broadcast_to(f(xs), xs.shape)
        for a, x in zip(got, probe(nodes)):
            if not same(a, pval(p, x), max(abs(float(v)) for v in exact) * 100, 1e-6):
                raise Violation(f"{what}: vectorized interpolant of {values} at {x} is {a}")


def k_nodes(ctx, p):
    """one set of nodes, in the order given"""
    nodes = [F(v) for v in p["nodes"]]
    raw = [as_node(v, p["how"]) for v in p["nodes"]]
    if p["how"] in ("float", "auto"):
        nodes = [F(float(v)) for v in nodes]
    if p.get("form") == "array":
        raw = np.array([float(v) for v in nodes]) if p["how"] == "float" else np.array([int(v) for v in nodes])
    elif p.get("form") == "tuple":
        raw = tuple(raw)
    tol = p.get("tol", 1e-8)
    keep = list(raw)
    n = len(nodes)
    what = f"nodes {p['nodes']} ({p['how']}, {p.get('form', 'list')})"
    check_basis(ctx, gen_Lagrange_1d(x=raw, lambdify=bool(p.get("lam"))), list(range(1, n + 1)), nodes, what, tol=tol, fnc=bool(p.get("lam")))
    if p.get("interp"):
        # complete by linearity: unit values; then the monomials up to degree n - 1
        for k in range(n):
            e = [0] * n
            e[k] = 1
            check_interp(ctx, nodes, raw, e, [F(v) for v in e], False, what, tol)
        for q in range(n):
            vals = [v**q for v in nodes]
            check_interp(ctx, nodes, raw, [float(v) for v in vals], vals, True, what + f" monomial {q}", tol)
    if list(raw) != keep:
        raise Violation(f"{what}: the nodes were changed to {raw}")
    ctx.state(str(p))
    ctx.trace()


def k_options(ctx, p):
    """ways of asking: indices, number of nodes, symbols, output dictionary, symbolic locations"""
    n = p["n"]
    kw = {}
    lin = [F(float(v)) for v in np.linspace(-1, 1, n)]
    inds = list(range(1, n + 1))
    nodes = lin
    if p["ask"] == "N":
        kw["N"] = n
    elif p["ask"] == "i":
        inds = p["i"][:n]
        kw["i"] = inds
    elif p["ask"] == "x+i":
        inds = p["i"][:n]
        nodes = [F(v) for v in p["x"][:n]]
        kw.update(i=inds, x=[int(v) for v in nodes])
    elif p["ask"] == "x+N":
        nodes = [F(v) for v in p["x"][:n]]
        kw.update(N=n, x=[int(v) for v in nodes])
    sym = "x"
    if p.get("xsym"):
        sym = kw["xsym"] = p["xsym"]
    if p.get("fsym"):
        kw["fsym"] = p["fsym"]
    out = None
    if p.get("out"):
        out = kw["out"] = DeepDict()
    subs = None
    symbolic = bool(p.get("sym"))
    if symbolic:
        kw["sym"] = True
        if "x" not in kw:
            nodes = [F(v) for v in ("-3/2", "1/3", "2", "5/2")[:n]]
            subs = {sy.Symbol(f"{sym}_{k + 1}"): sy.Rational(v.numerator, v.denominator) for k, v in enumerate(nodes)}
    if p.get("lam"):
        kw["lambdify"] = True
    res = gen_Lagrange_1d(**kw)
    what = f"gen_Lagrange_1d({ {k: v for k, v in kw.items() if k != 'out'} })"
    if out is not None and res is not out:
        raise Violation(f"{what}: the given dictionary was not used")
    check_basis(ctx, res, inds, nodes, what, subs, sym, fnc=bool(p.get("lam")))
    if p.get("fsym"):
        for ind in inds:
            if p["fsym"].strip("\\") not in res[ind]["symbol"] or str(ind) not in res[ind]["symbol"]:
                raise Violation(f"{what}: symbol {res[ind]['symbol']}")
    ctx.state(str(p))
    ctx.trace()


SETS = {
    "a": (["-1", "1"], "auto"),
    "b": (["0", "1"], "auto"),
    "c": (["1", "0"], "auto"),
    "d": (["0", "1", "2"], "auto"),
    "e": (["0", "1", "5/2"], "auto"),
    "f": (["0", "2", "1"], "auto"),
    "g": (["0.0", "1.0"], "float"),
    "h": (["0", "1.0000001"], "float"),
    "i": (["-1", "0", "1"], "rational"),
    "j": (["-1", "0", "1/3"], "rational"),
}


def k_history(ctx, p):
    """a sequence of generations, each compared with the exact polynomials of its own nodes"""
    for name in p["seq"]:
        if name == "N2":
            nodes, kw, inds = [F(-1), F(1)], dict(N=2), [1, 2]
        elif name == "N3":
            nodes, kw, inds = [F(-1), F(0), F(1)], dict(N=3, lambdify=True), [1, 2, 3]
        elif name == "i2":
            nodes, kw, inds = [F(-1), F(1)], dict(i=[4, 2]), [4, 2]
        elif name == "y2":
            nodes, kw, inds = [F(0), F(1)], dict(x=[0, 1], xsym="y"), [1, 2]
        elif name == "interp":
            check_interp(ctx, [F(0), F(1)], [0, 1], [3, -2], [F(3), F(-2)], True, f"step of {p['seq']}")
            continue
        elif name == "interp2":
            check_interp(ctx, [F(0), F(2)], [0, 2], [5, 1], [F(5), F(1)], False, f"step of {p['seq']}")
            continue
        else:
            raw, how = SETS[name]
            nodes = [F(v) for v in raw]
            kw, inds = dict(x=[as_node(v, how) for v in raw]), list(range(1, len(raw) + 1))
            if how != "rational":
                nodes = [F(float(v)) for v in nodes]
        res = gen_Lagrange_1d(**kw)
        check_basis(ctx, res, inds, nodes, f"step {name} of {p['seq']}", sym=kw.get("xsym", "x"), fnc=kw.get("lambdify", False))
        ctx.beat()
    ctx.deeper(len(p["seq"]))
    ctx.state(str(p["seq"]))
    ctx.trace()


def k_symvals(ctx, p):
    """interpolation with symbols among the values or points"""
    L = sy.Symbol("L", positive=True)
    n = p["n"]
    nodes = [F(v) for v in ("-1", "1", "2")[:n]]
    raw = [int(v) for v in nodes]
    vals = [0, L, 3 * L][:n]
    f = approx_Lagrange_1d(raw, vals)
    ctx.step()
    for Lv in (1, 2, sy.Rational(7, 3)):
        g = sy.sympify(f).subs(L, Lv)
        ex = [F(0), F(str(Lv)), 3 * F(str(Lv))][:n]
        for x in probe(nodes):
            ref = sum((v * pval(b, x) for v, b in zip(ex, basis(nodes))), F(0))
            if not same(evaluate(g, x), ref, 1.0):
                raise Violation(f"interpolant of {vals} at {raw}: {g} at {x} is not {ref}")
    if n == 2:
        f = approx_Lagrange_1d([0, L], [-1, 1])
        for Lv in (1, 2, 5):
            for x in (F(0), F(Lv), F(1, 3)):
                if not same(evaluate(f.subs(L, Lv), x), -1 + 2 * x / Lv, 1.0):
                    raise Violation(f"interpolant of [0, L] -> [-1, 1] is {f}")
    ctx.state(str(p))
    ctx.trace()


KINDS = {"nodes": k_nodes, "options": k_options, "history": k_history, "symvals": k_symvals}


def cases(tier):
    th = tier == "thorough"
    grid = ["-2", "-1", "0", "1", "2", "3"]
    for n in (2, 3):
        for S in itertools.combinations(grid, n):
            for P in itertools.permutations(S):
                yield "nodes", dict(nodes=list(P), how="auto", lam=int(n == 2), interp=int(list(P) == sorted(P, key=int) and n == 2))
    for S in itertools.combinations(grid, 4):
        yield "nodes", dict(nodes=list(S), how="auto", interp=int(S[0] == "-2" and S[1] == "0"))
        if th:
            for P in itertools.permutations(S):
                yield "nodes", dict(nodes=list(P), how="auto")
    mixed = ["-1.5", "-0.4", "0.1", "0.7", "1", "2.3"]
    for n in (2, 3) + ((4,) if th else ()):
        for S in itertools.combinations(mixed, n):
            yield "nodes", dict(nodes=list(S), how="float", lam=1, interp=int(n == 2))
            yield "nodes", dict(nodes=list(S[::-1]), how="float", form="array")
    rat = ["-5/3", "-1/2", "0", "1/3", "1/7", "4/3"]
    for n in (2, 3) + ((4,) if th else ()):
        for S in itertools.combinations(rat, n):
            yield "nodes", dict(nodes=list(S), how="rational", form="tuple", interp=int(n == 3 and th))
    for S in (["0", "1e-3", "3e-3"], ["0", "1e-6", "2e-6"], ["1000", "1001", "1002.5"], ["0", "1e6", "2e6"], ["1e-9", "3e-9"], ["-1e5", "1e5"], ["0.99", "1", "1.01"]):
        yield "nodes", dict(nodes=S, how="float", tol=1e-5)
    yield "nodes", dict(nodes=["0", "3", "7"], how="auto", form="array", interp=1)
    yield "nodes", dict(nodes=["-2", "-1", "0", "1", "2"], how="auto", interp=1)
    yield "nodes", dict(nodes=["3", "-1", "0", "5", "2"], how="auto")
    if th:
        for S in itertools.combinations(["-3", "-1", "0", "1", "2", "4", "5"], 5):
            yield "nodes", dict(nodes=list(S), how="auto")
        yield "nodes", dict(nodes=["-3", "-1", "0", "1", "2", "4"], how="auto", interp=1)
        yield "nodes", dict(nodes=["-3", "-1", "0", "1", "2", "4", "6"], how="auto")
    yield "nodes", dict(nodes=["-3", "-1", "0", "1", "2", "4"], how="auto")
    yield "nodes", dict(nodes=["5", "-2", "0", "3", "1", "4", "-1"], how="auto")
    for n in (2, 3, 4, 5, 6) + ((7, 8) if th else ()):
        for lam in (0, 1):
            yield "options", dict(ask="N", n=n, lam=lam)
        yield "options", dict(ask="i", n=n, i=[7, 3, 12, 5, 1, 2, 9, 4][:n])
        yield "options", dict(ask="i", n=n, i=[0, 1, 2, 3, 4, 5, 6, 7][:n], lam=1)
        if n <= 4:
            yield "options", dict(ask="x+i", n=n, i=[7, 3, 12, 5], x=["4", "0", "-2", "1"], lam=1)
            yield "options", dict(ask="x+N", n=n, x=["4", "0", "-2", "1"])
    for n in (2, 3):
        for xsym in (None, "r", "xi", "\\xi", "t_1"):
            for fsym in (None, "N", "\\psi"):
                for out in (0, 1):
                    yield "options", dict(ask="N", n=n, xsym=xsym, fsym=fsym, out=out)
        for xsym in (None, "r"):
            yield "options", dict(ask="N", n=n, sym=1, xsym=xsym)
        yield "options", dict(ask="i", n=n, i=[7, 3, 12], sym=1)
        yield "options", dict(ask="i", n=n, i=[2, 1, 3], sym=1)
        yield "options", dict(ask="x+i", n=n, i=[2, 1, 3], x=["3", "0", "1"], sym=1)
    if th:
        yield "options", dict(ask="N", n=4, sym=1)
    for n in (2, 3):
        yield "symvals", dict(n=n)
    names = list(SETS) + ["N2", "N3", "i2", "y2", "interp", "interp2"]
    for seq in itertools.permutations(names, 2):
        yield "history", dict(seq=list(seq) + [seq[0]])
    if th:
        for seq in itertools.permutations(names[:6] + names[-6:], 3):
            yield "history", dict(seq=list(seq))
