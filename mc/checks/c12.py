"""C12: functions: value, derivatives, substitution, linearity, coefficients.

All expressions of a grammar (sums, differences, products, quotients of level-1
terms; all polynomials over a coefficient alphabet; disguised affine ones) x ways
of giving them x orders of the variables x subsets, orders and sequences of
substitutions, against expression trees differentiated by an independent
forward-mode evaluator."""
import itertools

import numpy as np
import sympy as sy

from ..core import Violation
from .. import expr as E
from ..ref import close
from sigmaepsilon.math.function import Function
from sigmaepsilon.math.function.symutils import coefficients, substitute

V, C = E.V, E.C
TOL = 1e-7

PTS = [
    dict(a=1.5, b=0.75, c=2.25, d=0.6),
    dict(a=0.4, b=1.3, c=0.9, d=1.9),
    dict(a=-0.75, b=1.25, c=-1.5, d=0.5),
    dict(a=2.0, b=-1.0, c=0.5, d=-0.25),
    dict(a=0.0, b=0.0, c=1.0, d=0.0),
]
# names standing for the roles a, b, c, d of the trees
NAMES = {
    "xyz": dict(a="x", b="y", c="z", d="w"),
    "rev": dict(a="z", b="y", c="x", d="w"),
    "num": dict(a="x1", b="x10", c="x2", d="x20"),
    "mix": dict(a="b_1", b="a", c="aa", d="q"),
}


def rename(t, m):
    if t[0] == "v":
        return ["v", m[t[1]]]
    return [rename(x, m) if isinstance(x, list) else x for x in t]


def points(t, order, positive):
    out = []
    for p in PTS:
        if positive and min(p.values()) <= 0:
            continue
        try:
            E.jet(t, p, [])
        except E.OutOfDomain:
            continue
        out.append(p)
    return out


def build(t, names, form, order, how):
    """order: roles in the order the variables are listed, or None"""
    m = NAMES[names]
    if form in ("text", "loose"):
        src = E.text(rename(t, m), form == "loose")
        syms = {r: sy.Symbol(m[r]) for r in m}
    else:
        kw = dict(positive=True) if form == "pos" else dict(real=True) if form == "real" else {}
        syms = {r: sy.Symbol(m[r], **kw) for r in m}
        src = E.sym(t, syms)
    if order is None:
        if form not in ("text", "loose"):
            left = {str(v) for v in src.free_symbols}  # SymPy cancels on its own
            if not left:
                return None, None, src
            return Function(src), sorted((r for r in m if m[r] in left), key=lambda r: m[r]), src
        return Function(src), [r for r in sorted(E.variables(t), key=lambda r: m[r])], src
    if how == "str":
        vs = [m[r] for r in order]
    elif how == "tuple":
        vs = tuple(syms[r] for r in order)
    elif how == "possym":  # symbols with assumptions for a text expression
        vs = [sy.Symbol(m[r], positive=True) for r in order]
    else:
        vs = [syms[r] for r in order]
    keep = list(vs)
    f = Function(src, variables=vs)
    if list(vs) != keep:
        raise Violation(f"the list of variables {keep} was changed to {vs}")
    return f, list(order), src


def names_of(f):
    return [str(v) for v in f.variables]


def compare(ctx, f, t, order, pts, what, deriv=True):
    for p in pts:
        ctx.step()
        v, g, H = E.jet(t, p, order)
        x = [p[r] for r in order]
        keep = list(x)
        got = f(x)
        if not close(got, v, TOL):
            raise Violation(f"{what}: value {got} at {dict(zip(order, x))}, expected {v}")
        if not deriv:
            continue
        gg = np.asarray(f.g(x), dtype=float)
        if not close(gg, g, TOL):
            raise Violation(f"{what}: gradient {gg.tolist()} at {dict(zip(order, x))}, expected {g.tolist()}")
        GG = np.asarray(f.G(x), dtype=float)
        if not close(GG, H, TOL):
            raise Violation(f"{what}: Hessian {GG.tolist()} at {dict(zip(order, x))}, expected {H.tolist()}")
        if x != keep:
            raise Violation(f"{what}: evaluation changed its argument")
    if pts:
        p = pts[0]
        v = E.jet(t, p, order)[0]
        x = [p[r] for r in order]
        for form in (tuple(x), np.array(x, dtype=float)):
            if not close(f(form), v, TOL) or not close(f.f(form), v, TOL):
                raise Violation(f"{what}: value at {form!r} is {f(form)}, expected {v}")
        arr = [np.array([q[r] for q in pts]) for r in order]
        want = np.array([E.jet(t, q, order)[0] for q in pts])
        got = np.broadcast_to(np.asarray(f(arr), dtype=float), want.shape)
        if not close(got, want, TOL):
            raise Violation(f"{what}: value at arrays {got.tolist()}, expected {want.tolist()}")


def affine(t, pts, order):
    p = E.poly(t)
    if p is not None:
        return all(sum(e for _, e in m) <= 1 for m in p)
    return all(np.max(np.abs(E.jet(t, q, order)[2]), initial=0.0) < 1e-9 for q in pts)


def numeric(e, sub):
    return float(sy.sympify(e).subs(sub).evalf())


def check_coefficients(ctx, f, t, order, pts, lin, what):
    for label, get in (
        ("coefficients()", lambda: f.coefficients()),
        ("coefficients(normalize=True)", lambda: f.coefficients(normalize=True)),
        ("symutils.coefficients", lambda: coefficients(f.expr, f.variables)),
        ("symutils.coefficients(normalize)", lambda: coefficients(f.expr, f.variables, normalize=True)),
    ):
        d = get()
        ctx.step()
        for p in pts[:2]:
            sub = {s: p[r] for s, r in zip(f.variables, order)}
            total = sum(numeric(k, sub) * numeric(c, sub) for k, c in d.items())
            v = E.jet(t, p, order)[0]
            if not close(total, v, TOL):
                raise Violation(f"{what}: {label} = {dict(d)} adds up to {total} at {p}, not {v}")
        if any(s not in d for s in f.variables):
            raise Violation(f"{what}: {label} = {dict(d)} does not list every variable")
    if lin and pts:
        g = E.jet(t, pts[0], order)[1]
        for normalize in (False, True):
            d = f.linear_coefficients(normalize=normalize)
            got = [float(sy.sympify(d[s]).evalf()) for s in f.variables]
            if not close(got, g, TOL):
                raise Violation(f"{what}: linear_coefficients(normalize={normalize}) = {dict(d)}, expected {g.tolist()}")
            if normalize:
                v, g0, _ = E.jet(t, pts[0], order)
                const = v - sum(gi * pts[0][r] for gi, r in zip(g0, order))
                c = sum(float(sy.sympify(c).evalf()) for k, c in d.items() if k not in f.variables and not k.free_symbols and k == 1)
                if not close(c, const, TOL):
                    raise Violation(f"{what}: constant term {c} in {dict(d)}, expected {const}")


def k_fun(ctx, p):
    t, names, form, order, how = p["t"], p["n"], p["f"], p.get("o"), p.get("h", "sym")
    f, order, src = build(t, names, form, order, how)
    if f is None:
        return
    what = f"{src!r} ({form}, variables {order}/{how})"
    m = NAMES[names]
    if names_of(f) != [m[r] for r in order]:
        raise Violation(f"{what}: the variables are {names_of(f)}, expected {[m[r] for r in order]}")
    positive = form == "pos" or how == "possym"
    pts = points(t, order, positive)
    if not f.is_symbolic:
        raise Violation(f"{what}: not symbolic")
    compare(ctx, f, t, order, pts, what)
    lin = affine(t, pts, order)
    if pts and bool(f.is_linear) is not lin:
        raise Violation(f"{what}: is_linear is {f.is_linear}, expected {lin}")
    ctx.outcome("linear" if lin else "nonlinear")
    if p.get("coef", True):
        check_coefficients(ctx, f, t, order, pts, lin, what)
    f.simplify()
    compare(ctx, f, t, order, pts[:2], what + " after simplify()")
    if pts:
        sub = {s: pts[0][r] for s, r in zip(f.variables, order)}
        if not close(numeric(f.expr, sub), E.jet(t, pts[0], order)[0], TOL):
            raise Violation(f"{what}: simplify() turned the expression into {f.expr}")
        if pts and bool(f.is_linear) is not lin:
            raise Violation(f"{what}: is_linear is {f.is_linear} after simplify(), expected {lin}")
    f.to_latex()
    ctx.state(repr((t, names, form, order, how)))
    ctx.sample(dict(expr=str(src), variables=order, linear=lin))


def fix(t, values):
    """the tree with the given roles replaced by constants"""
    if t[0] == "v" and t[1] in values:
        from fractions import Fraction

        q = Fraction(values[t[1]]).limit_denominator(1000)
        return C(q.numerator, q.denominator)
    return [fix(x, values) if isinstance(x, list) else x for x in t]


VALS = {"a": [2, -1.5, 0], "b": [0.5, 3, 1], "c": [1.25, 2, -1], "d": [1, 0.75, 2]}


def k_subs(ctx, p):
    """all non-empty subsets of the variables, all orders of naming them, values, new or in place, then the rest"""
    t, names, form, order, how = p["t"], p["n"], p["f"], p["o"], p.get("h", "sym")
    m = NAMES[names]
    base, order, src = build(t, names, form, order, how)
    positive = form == "pos" or how == "possym"
    basepts = points(t, order, positive)
    for r in range(1, len(order) + 1):
        for sub in itertools.permutations(order, r):
            if p.get("sorted") and list(sub) != sorted(sub):
                continue
            for vi in p["vals"]:
                vals = {q: (abs(VALS[q][vi]) or 0.5) if positive else VALS[q][vi] for q in sub}
                t2 = fix(t, vals)
                rest = [q for q in order if q not in sub]
                neworder = rest if rest else list(sub)
                try:
                    pts = points(t2, neworder, positive)
                    E.jet(t2, dict(PTS[0], **vals), [])
                except E.OutOfDomain:
                    continue
                for naming in p.get("naming", ["str", "sym"]):
                    vs = [m[q] if naming == "str" else base.variables[order.index(q)] for q in sub]
                    vv = [vals[q] for q in sub]
                    keep = (list(vs), list(vv))
                    for inplace in (False, True):
                        f = build(t, names, form, order, how)[0] if inplace else base
                        what = f"{src!r} ({form}, {order}) with {dict(zip(sub, vv))} by {naming}, inplace={inplace}"
                        g = f.subs(vv, vs, inplace=inplace)
                        ctx.step()
                        if (list(vs), list(vv)) != keep:
                            raise Violation(f"{what}: the arguments of subs were changed")
                        if inplace and g is not f:
                            raise Violation(f"{what}: subs in place returned another object")
                        if not inplace and g is f:
                            raise Violation(f"{what}: subs returned the same object")
                        if sorted(names_of(g)) != sorted(m[q] for q in neworder) or (rest and names_of(g) != [m[q] for q in rest]):
                            raise Violation(f"{what}: the variables left are {names_of(g)}, expected {[m[q] for q in neworder]}")
                        compare(ctx, g, t2, neworder, pts, what)
                        lin = affine(t2, pts, neworder)
                        if pts and bool(g.is_linear) is not lin:
                            raise Violation(f"{what}: is_linear is {g.is_linear}, expected {lin}")
                        if not inplace:
                            compare(ctx, base, t, order, basepts[:2], what + ", the original")
                            if names_of(base) != [m[q] for q in order]:
                                raise Violation(f"{what}: the variables of the original became {names_of(base)}")
                        if rest:  # then the rest, without naming the variables
                            vals3 = {q: (abs(VALS[q][vi]) or 0.5) if positive else VALS[q][vi] for q in rest}
                            t3 = fix(t2, vals3)
                            try:
                                want = E.jet(t3, PTS[0], [])[0]
                            except E.OutOfDomain:
                                continue
                            h = g.subs([vals3[q] for q in rest])
                            got = h([0.0] * len(rest))
                            if not close(got, want, TOL):
                                raise Violation(f"{what}, then {vals3}: value {got}, expected {want}")
                            h = g.subs([vals3[q] for q in rest], inplace=True)
                            if h is not g or not close(h([0.0] * len(rest)), want, TOL):
                                raise Violation(f"{what}, then {vals3} in place: value {h([0.0] * len(rest))}, expected {want}")
                        ctx.trace()
    # the helper on the bare expression
    vals = {q: (abs(VALS[q][0]) or 0.5) if positive else VALS[q][0] for q in order}
    try:
        want = E.jet(fix(t, vals), PTS[0], [])[0]
    except E.OutOfDomain:
        return
    for by_name in (False, True):
        if positive and by_name:
            continue
        e = substitute(base.expr, [vals[q] for q in order], list(base.variables), as_string=by_name)
        if not close(float(e.evalf()), want, TOL):
            raise Violation(f"substitute({base.expr}, {vals}, as_string={by_name}) = {e}, expected {want}")
    srt = sorted(E.variables(t), key=lambda q: m[q])
    e = substitute(base.expr, [vals[q] for q in srt])
    if set(map(str, base.expr.free_symbols)) == {m[q] for q in srt} and not close(float(e.evalf()), want, TOL):
        raise Violation(f"substitute({base.expr}, {[vals[q] for q in srt]}) = {e}, expected {want}")


OPS = ("sub", "sub!", "simplify", "eval", "coef", "copy")


def k_hist(ctx, p):
    """sequences of substitutions, simplifications, evaluations on two live functions"""
    t, form, seq = p["t"], p["f"], p["seq"]
    order = ["a", "b", "c"]
    f, order, src = build(t, "xyz", form, order, "str")
    other, _, _ = build(t, "rev", form, list(order), "str")
    live = [(f, t, order, "xyz")]
    todo = ["b", "a", "c"]
    m = NAMES["xyz"]
    for i, op in enumerate(seq):
        ctx.step()
        g, tg, og, _ = live[-1]
        what = f"{src!r} after {seq[: i + 1]}"
        if op in ("sub", "sub!"):
            q = next((q for q in todo if q in og), None)
            if q is None or len(og) < 2:
                return
            vals = {q: VALS[q][i % 3]}
            t2 = fix(tg, vals)
            new = g.subs([vals[q]], [m[q]], inplace=op == "sub!")
            entry = (new, t2, [r for r in og if r != q], "xyz")
            if op == "sub!":
                live = [e for e in live if e[0] is not g]
            live.append(entry)
        elif op == "simplify":
            g.simplify()
        elif op == "coef":
            g.coefficients(), g.linear_coefficients(normalize=True), g.is_linear, g.to_latex()
        elif op == "eval":
            for e in live:
                compare(ctx, e[0], e[1], e[2], points(e[1], e[2], False)[:1], what)
        elif op == "copy":
            new, _, _ = build(tg, "xyz", form, og, "sym")
            live.append((new, tg, og, "xyz"))
    for e in live:
        compare(ctx, e[0], e[1], e[2], points(e[1], e[2], False), f"{src!r} after {seq}")
        if names_of(e[0]) != [m[r] for r in e[2]]:
            raise Violation(f"{src!r} after {seq}: the variables are {names_of(e[0])}")
    compare(ctx, other, t, order, points(t, order, False)[:2], f"a second function of the same expression after {seq}")
    ctx.trace()
    ctx.deeper(len(seq))
    ctx.state(repr((t, seq)))


def k_call(ctx, p):
    """functions given by callables: what they return, with all the arguments"""
    seen = []

    def mk(tag):
        def fn(*a, **k):
            seen.append((tag, a, k))
            return out[tag]

        return fn

    out = {"f": object(), "g": np.array([1.0, 2.0]), "G": np.eye(2)}
    ctors = {
        "pos": lambda: Function(mk("f"), mk("g"), mk("G"), d=2),
        "kw": lambda: Function(value=mk("f"), gradient=mk("g"), Hessian=mk("G"), dim=2),
        "mixed": lambda: Function(mk("f"), gradient=mk("g"), Hessian=mk("G"), dimension=2),
    }
    f = ctors[p["how"]]()
    if f.is_symbolic or f.dimension != 2:
        raise Violation(f"callables ({p['how']}): is_symbolic={f.is_symbolic}, dimension={f.dimension}")
    if f.is_linear:
        raise Violation("a function with a Hessian given is reported linear")
    X = np.array([1.0, 2.0])
    for a, k in (((1, 2), {}), ((X,), {}), ((1,), dict(y=3)), ((), dict(x=1, y=2)), (([1, 2],), {})):
        for tag, ev in (("f", f), ("f", f.f), ("g", f.g), ("G", f.G)):
            seen.clear()
            r = ev(*a, **k)
            ctx.step()
            if r is not out[tag]:
                raise Violation(f"callables ({p['how']}): {tag}{a}{k} returned {r!r}, not what the callable returned")
            if len(seen) != 1 or seen[0][0] != tag or len(seen[0][1]) != len(a) or any(x is not y for x, y in zip(seen[0][1], a)) or seen[0][2] != k:
                raise Violation(f"callables ({p['how']}): {tag} was called as {seen}")
    for meth in ("simplify", "coefficients", "linear_coefficients", "to_latex"):
        try:
            getattr(f, meth)()
        except TypeError:
            continue
        raise Violation(f"{meth}() of a function without expression is not refused")
    try:
        f.subs([1], ["x"])
    except TypeError:
        pass
    else:
        raise Violation("subs of a function without expression is not refused")
    g = Function(mk("f"), mk("g"), d=2)
    if not g.is_linear:
        raise Violation("a function without Hessian is reported nonlinear")
    ctx.state(p["how"])


KINDS = {"fun": k_fun, "subs": k_subs, "hist": k_hist, "call": k_call}


# ---------------------------------------------------------------- alphabets
def level1(thorough):
    a, b, c = V("a"), V("b"), V("c")
    out = [a, b, c, C(2), C(-1), C(1, 2), ["^", a, 2], ["^", b, 3], ["sin", a], ["exp", b], ["neg", b], ["*", a, b], ["-", a, C(1)], ["+", b, c], ["sqrt", c]]
    if thorough:
        out += [["cos", b], ["log", c], ["^", c, -1], ["*", C(3), c], ["tanh", a], ["/", a, b], ["^", ["+", a, b], 2], ["sin", ["*", a, c]]]
    return out


def expressions(tier):
    L = level1(tier == "thorough")
    for x in L:
        yield x
        for y in L:
            for op in "+-*/":
                yield [op, x, y]


def polynomials(coefs):
    a, b = V("a"), V("b")
    mons = [None, a, b, ["^", a, 2], ["*", a, b], ["^", b, 2]]
    for cs in itertools.product(coefs, repeat=len(mons)):
        t = None
        for k, mo in zip(cs, mons):
            if k == 0:
                continue
            term = C(k) if mo is None else mo if k == 1 else ["*", C(k), mo]
            t = term if t is None else ["+", t, term]
        yield t if t is not None else ["-", a, a]


def affine3(coefs):
    for cs in itertools.product(coefs, repeat=4):
        t = None
        for k, mo in zip(cs, [V("c"), V("a"), V("b"), None]):
            if k == (0, 1):
                continue
            term = C(*k) if mo is None else ["*", C(*k), mo]
            t = term if t is None else ["+", t, term]
        if t is not None:
            yield t


A, B, CC, D = V("a"), V("b"), V("c"), V("d")
DISGUISED = [
    ["-", ["^", ["+", A, C(1)], 2], ["^", A, 2]],
    ["-", ["*", ["+", A, B], ["-", A, B]], ["-", ["^", A, 2], ["^", B, 2]]],
    ["-", ["*", A, ["+", B, C(1)]], ["*", A, B]],
    ["-", A, A],
    ["-", ["*", A, B], ["*", B, A]],
    ["/", ["*", A, B], B],
    ["/", ["-", ["^", A, 2], C(1)], ["-", A, C(1)]],
    ["+", ["*", ["sqrt", C(2)], A], ["*", ["sqrt", C(2)], B]],
    ["+", ["+", ["*", ["sqrt", C(3)], ["+", A, B]], ["sqrt", C(2)]], C(2)],
    ["*", ["exp", C(1)], ["-", A, ["*", C(3), CC]]],
    ["*", ["+", ["sqrt", C(2)], C(1)], ["+", A, C(1, 3)]],
    ["*", A, ["sin", C(1)]],
    ["*", ["*", A, B], CC],
    ["*", A, ["+", B, CC]],
    ["-", ["*", A, ["+", B, CC]], ["*", CC, A]],
    ["-", C(1), ["-", A, ["-", B, ["-", CC, D]]]],
    ["/", ["/", A, B], ["/", CC, D]],
    ["-", ["-", A, B], ["-", CC, D]],
    ["neg", ["^", A, 2]],
    ["^", ["neg", A], 2],
    ["*", C(-1), ["^", ["-", A, B], 3]],
    ["exp", ["neg", ["+", ["^", A, 2], ["^", B, 2]]]],
    ["sin", ["*", A, ["*", B, CC]]],
    ["/", C(1), ["+", C(1), ["+", ["^", A, 2], ["^", B, 2]]]],
    ["sqrt", ["+", ["^", A, 2], ["+", ["^", B, 2], ["^", CC, 2]]]],
    ["log", ["+", C(2), ["*", A, A]]],
    ["+", ["^", ["+", A, ["*", C(2), B]], 2], ["^", ["-", ["+", ["*", C(2), A], B], C(5)], 2]],
    ["+", ["^", ["sin", A], 2], ["+", ["^", ["cos", A], 2], A]],
    ["tanh", ["-", A, ["*", B, D]]],
    ["*", ["^", A, 5], ["^", D, 4]],
    ["^", ["+", ["+", A, B], ["+", CC, D]], 3],
]


def cases(tier):
    th = tier == "thorough"
    for how in ("pos", "kw", "mixed"):
        yield "call", dict(how=how)
    for i, t in enumerate(DISGUISED):
        vs = sorted(E.variables(t))
        for form in ("text", "loose", "sym", "pos", "real"):
            if form == "real" and not th:
                continue
            yield "fun", dict(t=t, n="xyz", f=form)
            yield "fun", dict(t=t, n="num", f=form)
            perms = list(itertools.permutations(vs))
            for o in perms if th or len(vs) <= 3 else perms[::5]:
                yield "fun", dict(t=t, n="mix", f=form, o=list(o), h="str" if form in ("text", "loose") else "sym", coef=False)
        yield "fun", dict(t=t, n="num", f="text", o=vs[::-1], h="possym")
        yield "fun", dict(t=t, n="rev", f="loose", o=vs[::-1] + [x for x in "abcd" if x not in vs], h="tuple")
        yield "fun", dict(t=t, n="rev", f="sym", o=[x for x in "dcba" if x not in vs] + vs, h="tuple")
    for i, t in enumerate(expressions(tier)):
        vs = sorted(E.variables(t))
        if not vs:
            continue
        form = ("text", "loose", "sym", "pos")[i % 4]
        names = ("xyz", "rev", "num", "mix")[(i // 4) % 4]
        o = None if i % 3 == 0 else vs[::-1] if i % 3 == 1 else ["d"] + vs
        yield "fun", dict(t=t, n=names, f=form, o=o, h="str" if form in ("text", "loose") else "sym", coef=th or i % 5 == 0)
    for i, t in enumerate(polynomials([-1, 0, 2] if not th else [-1, 0, 2, 1])):
        if not th and i % 2:
            continue
        yield "fun", dict(t=t, n=("xyz", "num")[i % 2], f=("text", "sym")[(i // 2) % 2], o=["b", "a"], h="sym" if (i // 2) % 2 else "str")
    for i, t in enumerate(affine3([(0, 1), (1, 1), (-3, 2)] + ([(5, 1), (1, 3)] if th else []))):
        yield "fun", dict(t=t, n=("num", "rev")[i % 2], f=("loose", "sym")[(i // 2) % 2], o=["c", "a", "b"], h="sym" if (i // 2) % 2 else "str")
    # substitutions
    S = [t for t in DISGUISED if len(E.variables(t)) >= 2]
    for i, t in enumerate(S):
        vs = sorted(E.variables(t))
        if len(vs) == 4 and not th and i % 2:
            continue
        forms = ("text", "loose", "sym", "pos") if th else (("text", "sym"), ("loose", "pos"))[i % 2]
        for form in forms:
            for names in ("xyz", "mix") if th else (("xyz", "mix")[i % 2],):
                o = vs if i % 2 else vs[::-1]
                if len(o) == 2:
                    o = o + ["d"] if "d" not in o else o
                yield "subs", dict(t=t, n=names, f=form, o=o, h="str" if form in ("text", "loose") else "sym", vals=[0, 1, 2] if th else [i % 3], sorted=len(o) > 3 or (not th and i % 3 > 0), naming=["str", "sym"] if th or i % 2 == 0 else [("str", "sym")[(i // 2) % 2]])
    T3 = [["+", ["*", A, B], ["*", CC, ["^", A, 2]]], ["+", ["sin", ["*", A, B]], CC], ["+", ["-", ["*", C(3), A], ["*", C(2), B]], CC]]
    depth = 5 if th else 3
    for t in T3 if th else T3[:2]:
        for form in ("text", "sym"):
            for n in range(1, depth + 1):
                for seq in itertools.product(OPS, repeat=n):
                    if n == depth and not any(s.startswith("sub") for s in seq):
                        continue
                    yield "hist", dict(t=t, f=form, seq=list(seq))
