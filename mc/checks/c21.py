"""C21: Gauss quadrature: all rules up to a bound, all monomials of the exactness degree (complete by
linearity), all histories of asking and of the caller overwriting results."""
import itertools

import numpy as np

from ..core import Violation
from sigmaepsilon.math import numint
from sigmaepsilon.math.numint import gauss_points, gauss_points_1d, gauss_points_2d, gauss_points_3d


def exact(k):
    return 0.0 if k % 2 else 2.0 / (k + 1)


def get(ns, how="gauss_points"):
    if how == "gauss_points":
        r = gauss_points(*ns)
    elif how == "direct":
        r = gauss_points_1d(ns[0]) if len(ns) == 1 else gauss_points_2d(tuple(ns)) if len(ns) == 2 else gauss_points_3d(tuple(ns))
    else:
        r = gauss_points(*[np.int64(n) for n in ns])
    if len(ns) == 1:
        if not isinstance(r, np.ndarray) or r.shape != (2, ns[0]):
            raise Violation(f"rule {ns}: returned {r!r}")
        return r[0].reshape(-1, 1), r[1], [r]
    if not isinstance(r, tuple) or len(r) != 2 or r[0].shape != (int(np.prod(ns)), len(ns)) or r[1].shape != (int(np.prod(ns)),):
        raise Violation(f"rule {ns}: returned shapes {[np.shape(x) for x in r]}")
    return r[0], r[1], list(r)


def check(ctx, ns, pos, w, what="", full=True):
    what = f"rule {ns} {what}"
    if not np.all(np.isfinite(pos)) or not np.all(np.isfinite(w)):
        raise Violation(f"{what}: not finite")
    if not np.all(w > 0):
        raise Violation(f"{what}: weights {w.tolist()} are not all positive")
    if not np.all(np.abs(pos) < 1):
        raise Violation(f"{what}: points outside the domain")
    P = sorted(map(tuple, np.round(pos, 9).tolist()))
    if len(set(P)) != len(P):
        raise Violation(f"{what}: points are not distinct: {pos.tolist()}")
    for axis in range(len(ns)):
        m = pos.copy()
        m[:, axis] *= -1
        M = sorted(map(tuple, (np.round(m, 9) + 0.0).tolist()))
        if not np.allclose(M, sorted(map(tuple, (np.round(pos, 9) + 0.0).tolist())), atol=1e-8):
            raise Violation(f"{what}: not symmetric in direction {axis}: {pos.tolist()}")
        if len({round(v, 9) for v in pos[:, axis]}) != ns[axis]:
            raise Violation(f"{what}: {ns[axis]} points asked for in direction {axis}: {pos[:, axis].tolist()}")
    pw = [pos[:, a][:, None] ** np.arange(2 * n)[None, :] for a, n in enumerate(ns)]
    if len(ns) == 1:
        got = np.einsum("g,gi->i", w, pw[0])
    elif len(ns) == 2:
        got = np.einsum("g,gi,gj->ij", w, pw[0], pw[1])
    else:
        got = np.einsum("g,gi,gj,gk->ijk", w, pw[0], pw[1], pw[2], optimize=True)
    ref = np.ones(())
    for n in ns:
        ref = np.multiply.outer(ref, np.array([exact(k) for k in range(2 * n)]))
    bad = np.abs(got - ref) > 1e-11
    ctx.step(got.size)
    if np.any(bad):
        e = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation(f"{what}: the integral of the monomial {e} is {got[e]!r} instead of {ref[e]!r}")


def k_rule(ctx, p):
    for how in ("gauss_points", "direct", "np"):
        pos, w, _ = get(p["ns"], how)
        check(ctx, p["ns"], pos, w, how)
    ctx.state(str(p["ns"]))
    ctx.trace()


def k_history(ctx, p):
    """results asked for in a sequence, each overwritten (or kept) by the caller"""
    kept = []
    for ns, act in p["seq"]:
        pos, w, raw = get(ns)
        check(ctx, ns, pos, w, f"after {p['seq']}")
        if act == "zero":
            for r in raw:
                r[...] = 0.0
        elif act == "scale":
            for r in raw:
                r *= 3.0
        else:
            kept.append((ns, raw, [r.copy() for r in raw]))
        for ns0, raw0, copy0 in kept:
            if not all(np.array_equal(a, b) for a, b in zip(raw0, copy0)):
                raise Violation(f"an earlier result for {ns0} was changed by {p['seq']}")
    ctx.deeper(len(p["seq"]))
    ctx.state(str(p))
    ctx.trace()


def k_refuse(ctx, p):
    try:
        r = gauss_points(*p["ns"])
    except NotImplementedError:
        ctx.outcome("refused")
    else:
        raise Violation(f"{len(p['ns'])} directions were accepted: {r!r}")
    ctx.step()
    ctx.state(str(p))
    ctx.trace()


KINDS = {"rule": k_rule, "history": k_history, "refuse": k_refuse}


def cases(tier):
    th = tier == "thorough"
    for n in range(1, 129 if th else 41):
        yield "rule", dict(ns=[n])
    m = 24 if th else 16
    for ns in itertools.product(range(1, m + 1), repeat=2):
        yield "rule", dict(ns=list(ns))
    for ns in itertools.product(range(1, 12 if th else 9), repeat=3):
        yield "rule", dict(ns=list(ns))
    for ns in ([1, 30], [30, 1], [16, 17], [33, 2]):
        yield "rule", dict(ns=ns)
    for ns in ([1, 1, 15], [15, 1, 2], [2, 15, 1], [9, 10, 11], [11, 1, 3]):
        yield "rule", dict(ns=ns)
    R = [[2], [3], [2, 3], [3, 2], [3, 3], [2, 2, 3], [3, 2, 2], [2, 3, 2]]
    acts = ("zero", "scale", "keep")
    for n in (2, 3) if th else (2,):
        for seq in itertools.product(R, repeat=n):
            for a in itertools.product(acts, repeat=n):
                yield "history", dict(seq=[[s, x] for s, x in zip(seq, a)] + [[seq[0], "keep"]])
    if not th:
        for seq in itertools.product(R, repeat=3):
            yield "history", dict(seq=[[s, "zero"] for s in seq] + [[s, "keep"] for s in R])
    for n in (0, 4, 5, 6):
        yield "refuse", dict(ns=[2] * n)
    for ns in ([1, 1, 1, 1], [3, 2, 1, 4]):
        yield "refuse", dict(ns=ns)
