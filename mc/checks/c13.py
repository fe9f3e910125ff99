"""C13: equalities and inequalities: operators x spellings x ways of building x sides x points
on, above and below the boundary, against exact rational evaluation of the two sides."""
import itertools
import operator as op
from fractions import Fraction

import numpy as np
import sympy as sy

from ..core import Violation
from .. import expr as E
from sigmaepsilon.math.function import Equality, InEquality, Relation
from sigmaepsilon.math.function.relation import Relations
from sigmaepsilon.math.function.utils import has_operator, parse_expression

V, C = E.V, E.C
OPS = {"=": op.eq, "<": op.lt, "<=": op.le, ">": op.gt, ">=": op.ge}
X, Y, Z = V("x"), V("y"), V("z")

LEFT = [
    X,
    ["+", X, Y],
    ["-", X, Y],
    ["*", C(2), X],
    ["neg", X],
    ["*", X, Y],
    ["^", X, 2],
    ["-", ["*", C(3), X], ["*", C(2), Y]],
    ["+", ["^", X, 2], ["^", Y, 2]],
    ["-", X, ["-", Y, Z]],
    C(1),
    ["^", ["-", X, Y], 3],
]
RIGHT = [
    C(0),
    C(2),
    C(-1),
    C(1, 2),
    Y,
    ["neg", Y],
    ["-", C(1), X],
    ["-", Y, C(1)],
    ["+", Y, C(1)],
    ["*", Y, ["-", C(1), X]],
    ["-", ["neg", X], Y],
    Z,
    ["^", Y, 2],
    ["-", Z, ["-", X, Y]],
]
SPACES = ["{l} {o} {r}", "{l}{o}{r}", "  {l}   {o} {r} ", "{l} {o}{r}", "{l}{o}  {r}", "{l}\t{o}\t{r}"]


def exact(t, at):
    p = E.poly(t)
    total = Fraction(0)
    for m, c in p.items():
        for v, e in m:
            c = c * Fraction(at[v]) ** e
        total += c
    return total


def grid(names, fine):
    vals = [-2, -1, 0, 1, 2] + ([Fraction(1, 2), Fraction(-3, 4), Fraction(5, 2)] if fine else [Fraction(1, 2)])
    if len(names) == 3:
        vals = [-1, 0, 1, Fraction(1, 2)]
    for c in itertools.product(vals, repeat=len(names)):
        yield dict(zip(names, c))


def make(o, l, r, way, names):
    lt, rt = E.text(l, True), E.text(r, True)
    diff = ["-", l, r]
    cls = {"R": Relation, "E": Equality, "I": InEquality}[way["cls"]]
    how = way["how"]
    kw = {}
    if way.get("vars") == "str":
        kw["variables"] = list(names)
    elif way.get("vars") == "sym":
        kw["variables"] = sy.symbols(names)
    elif way.get("vars") == "pos":
        kw["variables"] = tuple(sy.Symbol(n, real=True) for n in names)
    syms = {n: sy.Symbol(n) for n in "xyz"}
    if how == "text":
        return cls(SPACES[way["sp"]].format(l=lt, o=o, r=rt), **kw)
    if how == "op":
        return cls(E.text(diff, True), op=o, **kw)
    if how == "operator":
        return cls(E.text(diff, False), operator=o, **kw)
    if how == "enum":
        return cls(E.text(diff, False), op=Relations(o), **kw)
    if how == "opstr":
        return cls(E.text(diff, False), op_str=o, **kw)
    if how == "callop":
        return cls(E.text(diff, True), op=OPS[o], **kw)
    if how == "callop_str":
        return cls(E.text(diff, True), op=OPS[o], op_str=o, **kw)
    if how == "expr":
        return cls(E.sym(diff, syms), op=o, **kw)
    if how == "exprop_str":
        return cls(E.sym(diff, syms), op_str=o, **kw)

    def f(x):
        at = dict(zip(names, x))
        return exact(diff, {n: Fraction(v) for n, v in at.items()})

    if how == "call":
        return cls(f, op=o, d=len(names))
    if how == "callkw":
        return cls(value=f, op=o, d=len(names))
    if how == "callopstr":
        return cls(f, op_str=o, d=len(names))
    raise ValueError(how)


def k_rel(ctx, p):
    l, r, way = p["l"], p["r"], p["way"]
    used = sorted(E.variables(l) | E.variables(r))
    names = list(p["names"]) if p.get("names") else used
    made = {}
    for o in OPS:
        if way["cls"] == "E" and o != "=" or way["cls"] == "I" and o == "=":
            continue
        made[o] = make(o, l, r, way, names)
    pts = list(grid(names, p.get("fine")))
    sides = [(q, exact(l, q), exact(r, q)) for q in pts]
    for o, rel in list(made.items()) + list(made.items())[::-1]:
        what = f"{E.text(l, True)} {o} {E.text(r, True)} built by {way} over {names}"
        want_cls = Equality if o == "=" else InEquality
        if way["how"] == "callop" and way["cls"] == "R":
            if not isinstance(rel, Relation):
                raise Violation(f"{what}: class {type(rel).__name__}")
        elif type(rel) is not want_cls:
            raise Violation(f"{what}: class {type(rel).__name__}, expected {want_cls.__name__}")
        if way["how"] not in ("call", "callkw", "callopstr") and [str(v) for v in rel.variables] != names:
            raise Violation(f"{what}: the variables are {rel.variables}")
        if not way["how"].startswith("callop") and rel.operator != Relations(o):
            raise Violation(f"{what}: operator is {rel.operator}")
        hits = 0
        for q, a, b in sides:
            x = [float(q[n]) for n in names]
            ctx.step()
            got = rel.relate(x)
            want = OPS[o](a, b)
            hits += a == b
            if not isinstance(got, (bool, np.bool_, sy.logic.boolalg.BooleanAtom)) or bool(got) != want:
                raise Violation(f"{what}: relate({x}) is {got!r}, but {a} {o} {b} is {want}")
            if abs(float(rel(x)) - float(a - b)) > 1e-9:
                raise Violation(f"{what}: the function is {rel(x)} at {x}, expected {a - b}")
        ctx.outcome("boundary points" if hits else "no boundary points")
        if way["how"] in ("text", "op", "expr"):
            arr = [np.array([float(q[n]) for q, _, _ in sides]) for n in names]
            got = np.broadcast_to(np.asarray(rel.relate(arr)), (len(sides),))
            want = np.array([OPS[o](a, b) for _, a, b in sides])
            if not np.array_equal(got.astype(bool), want):
                raise Violation(f"{what}: relate on arrays {got.tolist()}, expected {want.tolist()}")
            g = np.asarray(rel.g(x), dtype=float)
            v, gw, H = E.jet(["-", l, r], {n: float(q[n]) for n in names}, names)
            if g.shape != gw.shape or np.max(np.abs(g - gw)) > 1e-9 or np.max(np.abs(np.asarray(rel.G(x), dtype=float) - H)) > 1e-9:
                raise Violation(f"{what}: derivatives {g} / {rel.G(x)} at {x}, expected {gw} / {H}")
            tail = {"=": "=", "<": "<", ">": ">", "<=": r"\leq", ">=": r"\geq"}[o] + " 0"
            if not rel.to_latex().endswith(" " + tail):
                raise Violation(f"{what}: to_latex() is {rel.to_latex()}")
    ctx.state(repr((l, r, way, names)))
    ctx.sample(dict(l=E.text(l), r=E.text(r), way=way))


BAD_TEXT = [
    "x <= y <= 2", "x < y > 2", "x == 2", "x =< 2", "x => 2", "<= 2", "x <=", "x <", "x = y = 2", "= 2", "x <> 2", "x >= 2 =", "x >> 2", "x << 2", "x <= ", "x = ", ">", "=", "x === 1", "1 < x < y < 2", "x >== 2",
]


def refused(fn, kinds):
    try:
        fn()
    except kinds:
        return True
    return False


def k_bad(ctx, p):
    if p["what"] == "text":
        for s in BAD_TEXT:
            for cls in (Relation, Equality, InEquality):
                ctx.step()
                if not refused(lambda: cls(s), Exception):
                    raise Violation(f"{cls.__name__}({s!r}) is not refused")
            if s == s.strip() and not refused(lambda: parse_expression(s), ValueError):
                raise Violation(f"parse_expression({s!r}) is not refused: {parse_expression(s)}")
        for s in ("x", "x + y", "", "2"):
            if has_operator(s) or not refused(lambda: parse_expression(s), ValueError):
                raise Violation(f"{s!r} is taken for a relation")
    elif p["what"] == "kind":
        for o in OPS:
            wrong = InEquality if o == "=" else Equality
            for mk in (
                lambda: wrong(f"x {o} y"),
                lambda: wrong("x - y", op=o),
                lambda: wrong("x - y", operator=o),
                lambda: wrong("x - y", op_str=o),
                lambda: wrong(sy.Symbol("x") - 1, op=o),
                lambda: wrong(lambda x: x, op=o, d=1),
            ):
                ctx.step()
                if not refused(mk, AssertionError):
                    raise Violation(f"{wrong.__name__} with operator {o} is not refused")
        for mk in (lambda: InEquality("x"), lambda: InEquality(sy.Symbol("x")), lambda: InEquality(lambda x: x, d=1)):
            if not refused(mk, AssertionError):
                raise Violation("an inequality without operator is not refused")
    elif p["what"] == "op":
        for o in ("!=", "==", "=<", "=>", "<>", "le", "<==", "x", " <", "< "):
            for cls in (Relation, Equality, InEquality):
                for mk in (lambda: cls("x - y", op=o), lambda: cls("x - y", operator=o), lambda: cls(lambda x: x, op=o, d=1)):
                    ctx.step()
                    if not refused(mk, (ValueError, AssertionError)):
                        raise Violation(f"{cls.__name__} with operator {o!r} is not refused")
    elif p["what"] == "default":
        x, y = sy.symbols("x y")
        for mk in (lambda: Relation("x - y"), lambda: Relation(x - y), lambda: Equality("x - y"), lambda: Equality(x - y), lambda: Relation("x - y", variables=["x", "y"]), lambda: Relation(lambda q: q[0] - q[1], d=2), lambda: Equality(lambda q: q[0] - q[1], d=2)):
            r = mk()
            ctx.step()
            if type(r) is not Equality:
                raise Violation(f"a relation without operator is a {type(r).__name__}")
            for a, b in itertools.product([-1, 0, 1, 0.5], repeat=2):
                if bool(r.relate([a, b])) != (a == b):
                    raise Violation(f"a relation without operator at {a}, {b} is {r.relate([a, b])}")
    elif p["what"] == "parse":
        for l, r in itertools.product(["x", "x + y", "-x*2", "(x - 1)**2", "1"], repeat=2):
            for o in OPS:
                for sp in SPACES:
                    s = sp.format(l=l, o=o, r=r)
                    ctx.step()
                    if parse_expression(s) != (l, o, r) or not has_operator(s):
                        raise Violation(f"parse_expression({s!r}) = {parse_expression(s)}")
    ctx.state(p["what"])


KINDS = {"rel": k_rel, "bad": k_bad}


def cases(tier):
    th = tier == "thorough"
    for w in ("text", "kind", "op", "default", "parse"):
        yield "bad", dict(what=w)
    hows = ["op", "operator", "enum", "opstr", "callop", "callop_str", "expr", "exprop_str", "call", "callkw", "callopstr"]
    n = 0
    for l in LEFT:
        for r in RIGHT:
            used = sorted(E.variables(l) | E.variables(r))
            if not used:
                continue
            if not th and len(used) == 3 and (LEFT.index(l) + RIGHT.index(r)) % 2:
                continue
            for sp in range(len(SPACES)) if th else [n % len(SPACES)]:
                yield "rel", dict(l=l, r=r, way=dict(cls="R", how="text", sp=sp), fine=th)
            names = used[::-1] if n % 2 else used + [v for v in "xyz" if v not in used][:1]
            yield "rel", dict(l=l, r=r, way=dict(cls=("R", "E", "I")[n % 3], how="text", sp=(n // 3) % len(SPACES), vars=("str", "sym", "pos")[(n // 2) % 3]), names=names)
            for how in hows:
                if how.startswith("call") and how not in ("callop", "callop_str"):
                    way = dict(cls=("R", "E", "I")[(n // 2) % 3], how=how)
                    if how == "callkw" or how == "call" or how == "callopstr":
                        yield "rel", dict(l=l, r=r, way=way, names=names)
                    continue
                # SymPy may cancel a variable on its own: name the variables
                yield "rel", dict(l=l, r=r, way=dict(cls=("R", "E", "I")[(n // 2) % 3] if how != "callop" else "R", how=how, vars=("str", "sym")[n % 2]), names=names)
            n += 1
