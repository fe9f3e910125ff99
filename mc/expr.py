"""Expression trees, written out as text or as SymPy objects, and evaluated with
first and second derivatives by an independent forward-mode evaluator.

A tree is a nested list: ["v", name], ["c", p, q], [op, a, b] for + - * /,
["^", a, n] (integer power), [fn, a] for neg, sin, cos, exp, log, sqrt, tanh.
"""
import math

import numpy as np


def V(n):
    return ["v", n]


def C(p, q=1):
    return ["c", p, q]


FN = ("neg", "sin", "cos", "exp", "log", "sqrt", "tanh")


def text(t, loose=False):
    """loose: as few parentheses as precedence allows; else all of them"""
    return _text(t, loose)[0]


def _text(t, loose):
    # returns text, precedence (3 atom, 2 power, 1 product, 0 sum)
    k = t[0]
    if k == "v":
        return t[1], 3
    if k == "c":
        p, q = t[1], t[2]
        s = f"{p}" if q == 1 else f"{p}/{q}"
        return s, (3 if q == 1 and p >= 0 else 0)
    if k in FN and k != "neg":
        return f"{k}({_text(t[1], loose)[0]})", 3

    def sub(a, need):
        s, p = _text(a, loose)
        if p >= need and (loose or p == 3):
            return s
        return f"({s})"

    if k == "neg":
        return "-" + sub(t[1], 1), 0
    if k == "^":
        n = t[2]
        return sub(t[1], 3) + "**" + (str(n) if n >= 0 else f"({n})"), 2
    a, b = t[1], t[2]
    if k == "+":
        s = sub(a, 0) + " + " + sub(b, 0 if b[0] == "+" else 1)
        return s, 0
    if k == "-":
        return sub(a, 0) + " - " + sub(b, 1), 0
    if k == "*":
        return sub(a, 1) + "*" + sub(b, 1 if b[0] == "*" else 2), 1
    if k == "/":
        return sub(a, 1) + "/" + sub(b, 2), 1
    raise ValueError(k)


def sym(t, names):
    """the tree as a SymPy expression over the symbols names[name]"""
    import sympy as sy

    k = t[0]
    if k == "v":
        return names[t[1]]
    if k == "c":
        return sy.Rational(t[1], t[2])
    if k == "neg":
        return -sym(t[1], names)
    if k in FN:
        return getattr(sy, k)(sym(t[1], names))
    if k == "^":
        return sym(t[1], names) ** t[2]
    a, b = sym(t[1], names), sym(t[2], names)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[k]()


def variables(t):
    if t[0] == "v":
        return {t[1]}
    if t[0] == "c":
        return set()
    out = set()
    for a in t[1:]:
        if isinstance(a, list):
            out |= variables(a)
    return out


class OutOfDomain(Exception):
    pass


def jet(t, at, order):
    """value, gradient, Hessian with respect to the names in `order` at the point `at` (dict)"""
    n = len(order)
    pos = {v: i for i, v in enumerate(order)}

    def const(c):
        return float(c), np.zeros(n), np.zeros((n, n))

    def chain(u, f, f1, f2):
        v, g, H = u
        return f, f1 * g, f1 * H + f2 * np.outer(g, g)

    def mul(x, y):
        return (
            x[0] * y[0],
            x[0] * y[1] + y[0] * x[1],
            x[0] * y[2] + y[0] * x[2] + np.outer(x[1], y[1]) + np.outer(y[1], x[1]),
        )

    def inv(u):
        if abs(u[0]) < 1e-3:
            raise OutOfDomain()
        v = u[0]
        return chain(u, 1 / v, -1 / v**2, 2 / v**3)

    def ev(t):
        k = t[0]
        if k == "v":
            g = np.zeros(n)
            if t[1] in pos:
                g[pos[t[1]]] = 1.0
            return float(at[t[1]]), g, np.zeros((n, n))
        if k == "c":
            return const(t[1] / t[2])
        if k == "^":
            u, m = ev(t[1]), t[2]
            if m < 0:
                u, m = inv(u), -m
            v = u[0]
            return chain(u, v**m, m * v ** (m - 1) if m >= 1 else 0.0, m * (m - 1) * v ** (m - 2) if m >= 2 else 0.0)
        u = ev(t[1])
        v = u[0]
        if k == "neg":
            return -u[0], -u[1], -u[2]
        if k == "sin":
            return chain(u, math.sin(v), math.cos(v), -math.sin(v))
        if k == "cos":
            return chain(u, math.cos(v), -math.sin(v), -math.cos(v))
        if k == "exp":
            if v > 30:
                raise OutOfDomain()
            return chain(u, math.exp(v), math.exp(v), math.exp(v))
        if k == "tanh":
            h = math.tanh(v)
            return chain(u, h, 1 - h * h, -2 * h * (1 - h * h))
        if k == "log":
            if v < 1e-2:
                raise OutOfDomain()
            return chain(u, math.log(v), 1 / v, -1 / v**2)
        if k == "sqrt":
            if v < 1e-2:
                raise OutOfDomain()
            r = math.sqrt(v)
            return chain(u, r, 0.5 / r, -0.25 / r**3)
        w = ev(t[2])
        if k == "+":
            return u[0] + w[0], u[1] + w[1], u[2] + w[2]
        if k == "-":
            return u[0] - w[0], u[1] - w[1], u[2] - w[2]
        if k == "*":
            return mul(u, w)
        if k == "/":
            return mul(u, inv(w))
        raise ValueError(k)

    return ev(t)


def poly(t):
    """exact polynomial {exponents by name tuple: Fraction} or None if not built of + - * ^ only"""
    from fractions import Fraction

    k = t[0]
    if k == "v":
        return {((t[1], 1),): Fraction(1)}
    if k == "c":
        return {(): Fraction(t[1], t[2])} if t[1] else {}

    def pmul(a, b):
        out = {}
        for m, c in a.items():
            for m2, c2 in b.items():
                d = dict(m)
                for v, e in m2:
                    d[v] = d.get(v, 0) + e
                key = tuple(sorted(d.items()))
                out[key] = out.get(key, 0) + c * c2
        return {m: c for m, c in out.items() if c}

    def padd(a, b, s):
        out = dict(a)
        for m, c in b.items():
            out[m] = out.get(m, 0) + s * c
        return {m: c for m, c in out.items() if c}

    if k == "neg":
        a = poly(t[1])
        return None if a is None else {m: -c for m, c in a.items()}
    if k == "^":
        a = poly(t[1])
        if a is None or t[2] < 0:
            return None
        out = {(): Fraction(1)}
        for _ in range(t[2]):
            out = pmul(out, a)
        return out
    if k in FN:
        return None
    a, b = poly(t[1]), poly(t[2])
    if a is None or b is None:
        return None
    if k == "+":
        return padd(a, b, 1)
    if k == "-":
        return padd(a, b, -1)
    if k == "*":
        return pmul(a, b)
    if k == "/":
        if set(b) == {()}:
            return {m: c / b[()] for m, c in a.items()}
        return None
