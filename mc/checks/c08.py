"""C08: inverses, determinants, predicates: all small integer matrices, exact oracle."""
import itertools
import math

import numpy as np
import sympy as sy

from .. import ref
from ..core import Violation
from ..interleave import Lab, explore
from .c07 import det, matrix_of
import sigmaepsilon.math.linalg.utils as U
from sigmaepsilon.math.linalg import (
    adj3x3, det2x2, det3x3, generalized_inverse, generalized_left_inverse, generalized_right_inverse, has_full_column_rank,
    has_full_rank, has_full_row_rank, inv, inv2x2, inv2x2u, inv3x3, inv3x3_bulk, inv3x3_bulk2, inv3x3u, inv_sym_3x3,
    is_hermitian, is_independent_frame, is_normal_frame, is_orthonormal_frame, is_pos_def, is_pos_semidef, is_rectangular_frame,
    linspace, linspace1d, norm, norm2d, normalize, normalize2d, normalize_frame, permutation_tensor, unit_basis_vector, vpath,
)
from sigmaepsilon.math.linalg.exceptions import LinalgError, LinalgOperationInputError


def rank(M):
    """exact rank of an integer matrix (fraction-free elimination)"""
    M = [list(map(int, r)) for r in M]
    if not M:
        return 0
    rows, cols, r = len(M), len(M[0]), 0
    for c in range(cols):
        piv = next((i for i in range(r, rows) if M[i][c]), None)
        if piv is None:
            continue
        M[r], M[piv] = M[piv], M[r]
        for i in range(r + 1, rows):
            if M[i][c]:
                a, b = M[r][c], M[i][c]
                M[i] = [a * y - b * x for x, y in zip(M[r], M[i])]
        r += 1
    return r


def adjugate(M):
    n = len(M)
    A = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            sub = [[M[a][b] for b in range(n) if b != i] for a in range(n) if a != j]
            A[i, j] = (-1) ** (i + j) * det(sub)
    return A


def want(ctx, got, exp, what, tol=1e-10):
    ctx.step()
    if not ref.close(got, exp, tol):
        raise Violation(f"{what}: got {np.asarray(got).tolist()} expected {np.asarray(exp).tolist()}")


def all_matrices(shape, alpha, lo=0, hi=None):
    n = shape[0] * shape[1]
    total = len(alpha) ** n
    for code in range(lo, total if hi is None else min(hi, total)):
        c, out = code, []
        for _ in range(n):
            out.append(alpha[c % len(alpha)])
            c //= len(alpha)
        yield code, np.array(out).reshape(shape)


def k_two(ctx, p):
    Ms = [M for _, M in all_matrices((2, 2), p["alpha"])]
    D = np.array([M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0] for M in Ms], float)
    S = np.array(Ms, float)
    S0 = S.copy()
    want(ctx, det2x2(S), D, "determinants of the stack of all 2 by 2 matrices", 0)
    reg = D != 0
    X = inv2x2u(S[reg])
    for A, d, x in zip(S[reg], D[reg], X):
        e = np.array([[A[1, 1], -A[0, 1]], [-A[1, 0], A[0, 0]]]) / d
        want(ctx, x, e, f"inv2x2u in a stack of {A.tolist()}")
        want(ctx, inv2x2u(A), e, f"inv2x2u of {A.tolist()}")
        want(ctx, inv2x2(A), e, f"inv2x2 of {A.tolist()}")
        want(ctx, inv2x2(A.astype(int)), e, f"inv2x2 of integers {A.tolist()}")
        want(ctx, inv(A), e, f"inv of {A.tolist()}")
        want(ctx, det2x2(A), d, f"det2x2 of {A.tolist()}", 0)
        want(ctx, inv2x2(np.asfortranarray(A)), e, f"inv2x2 of {A.tolist()} in column order")
        for k in (-30, -17, 21):
            want(ctx, inv2x2(A * 2.0**k) * 2.0**k, e, f"inv2x2 of {A.tolist()} times 2**{k}, scaled back")
            want(ctx, inv2x2u(A * 2.0**k) * 2.0**k, e, f"inv2x2u of {A.tolist()} times 2**{k}, scaled back")
            want(ctx, det2x2(A * 2.0**k) * 2.0 ** (-2 * k), d, f"det2x2 of {A.tolist()} times 2**{k}, scaled back", 0)
        ctx.state(("2", A.tobytes()))
    ctx.check(np.array_equal(S, S0), "inputs changed")
    ctx.trace(len(Ms))


def k_three(ctx, p):
    Ms = [M for _, M in all_matrices((3, 3), p["alpha"], p["lo"], p["hi"])]
    S = np.array(Ms, float)
    S0 = S.copy()
    # exact determinants and adjugates, in integer arithmetic
    I = np.array(Ms, dtype=np.int64)
    adj = np.zeros_like(I)
    for i in range(3):
        for j in range(3):
            a = [r for r in range(3) if r != j]
            b = [c for c in range(3) if c != i]
            adj[:, i, j] = (-1) ** (i + j) * (I[:, a[0], b[0]] * I[:, a[1], b[1]] - I[:, a[0], b[1]] * I[:, a[1], b[0]])
    D = np.einsum("nj,nj->n", I[:, 0, :], adj[:, :, 0])
    d = det3x3(S)
    bad = np.nonzero(d != D)[0]
    if len(bad):
        raise Violation(f"det3x3 of {Ms[bad[0]].tolist()} is {d[bad[0]]}, not {D[bad[0]]}")
    a = adj3x3(S)
    bad = np.nonzero(np.any(a != adj, axis=(1, 2)))[0]
    if len(bad):
        raise Violation(f"adj3x3 of {Ms[bad[0]].tolist()} is {a[bad[0]].tolist()}, not {adj[bad[0]].tolist()}")
    reg = D != 0
    R = np.ascontiguousarray(S[reg])
    E = adj[reg] / D[reg][:, None, None]
    for name, f in (("inv3x3u", inv3x3u), ("inv3x3_bulk", inv3x3_bulk), ("inv3x3_bulk2", inv3x3_bulk2), ("np", None)):
        if f is None:
            continue
        X = f(R)
        bad = np.nonzero(~(np.abs(X - E) <= 1e-10 * (1 + np.abs(E))).all(axis=(1, 2)))[0]
        if len(bad):
            raise Violation(f"{name} of {R[bad[0]].tolist()} is {X[bad[0]].tolist()}, not {E[bad[0]].tolist()}")
    for e in (-9, -15, 11):  # the same in other units
        X = {name: f(R * 2.0**e) for name, f in (("inv3x3u", inv3x3u), ("inv3x3_bulk", inv3x3_bulk), ("inv3x3_bulk2", inv3x3_bulk2))}
        for name, x in X.items():
            bad = np.nonzero(~(np.abs(x * 2.0**e - E) <= 1e-10 * (1 + np.abs(E))).all(axis=(1, 2)))[0]
            if len(bad):
                raise Violation(f"{name} of {R[bad[0]].tolist()} times 2**{e} is {x[bad[0]].tolist()}")
        bad = np.nonzero(det3x3(S * 2.0**e) != D * 2.0 ** (3 * e))[0]
        if len(bad):
            raise Violation(f"det3x3 of {Ms[bad[0]].tolist()} times 2**{e}")
    if p.get("single"):
        for k in range(len(R)):
            e = (-9, -15, 11, -12)[k % 4]
            want(ctx, inv3x3(R[k] * 2.0**e) * 2.0**e, E[k], f"inv3x3 of {R[k].tolist()} times 2**{e}, scaled back")
            want(ctx, inv3x3(R[k]), E[k], f"inv3x3 of {R[k].tolist()}")
            if k % 7 == 0:
                want(ctx, inv3x3u(R[k]), E[k], f"inv3x3u of {R[k].tolist()}")
                want(ctx, det3x3(R[k]), D[reg][k], f"det3x3 of {R[k].tolist()}")
                want(ctx, inv(R[k]), E[k], f"inv of {R[k].tolist()}", 1e-9)
    ctx.check(np.array_equal(S, S0), "inputs changed")
    for M in Ms:
        ctx.state(("3", M.tobytes()))
    ctx.step(5 * len(Ms))
    ctx.outcome("chunk of 3 by 3 matrices")
    ctx.trace(len(Ms))


def k_stack(ctx, p):
    """stacks of any shape, size and memory layout"""
    shape = tuple(p["shape"])
    n = int(np.prod(shape))
    base = ref.mixed((n, 3, 3), 2) + 2 * np.eye(3) if n else np.zeros((0, 3, 3))
    A = base.reshape(shape + (3, 3))
    lay = p["lay"]
    if lay == "F":
        A = np.asfortranarray(A)
    elif lay == "T":
        A = np.swapaxes(np.ascontiguousarray(np.swapaxes(A, -1, -2)), -1, -2)
    elif lay == "S":
        big = np.zeros(shape + (6, 6))
        big[..., ::2, 1::2] = A
        A = big[..., ::2, 1::2]
    A0 = np.array(A)
    E = np.linalg.inv(A0) if n else np.zeros_like(A0)
    D = np.linalg.det(A0) if n else np.zeros(shape)
    want(ctx, det3x3(A), D, f"{p}: det3x3", 1e-9)
    want(ctx, inv3x3u(A), E, f"{p}: inv3x3u", 1e-8)
    want(ctx, adj3x3(A), E * D[..., None, None], f"{p}: adj3x3", 1e-8)
    if len(shape) == 1:
        want(ctx, inv3x3_bulk(A), E, f"{p}: inv3x3_bulk", 1e-8)
        want(ctx, inv3x3_bulk2(A), E, f"{p}: inv3x3_bulk2", 1e-8)
    A2 = A[..., :2, 1:]
    if n:
        want(ctx, inv2x2u(A2), np.linalg.inv(A2), f"{p}: inv2x2u", 1e-7)
        want(ctx, det2x2(A2), np.linalg.det(A2), f"{p}: det2x2", 1e-8)
    if not shape:
        want(ctx, inv3x3(A), E, f"{p}: inv3x3", 1e-8)
        want(ctx, inv(A), E, f"{p}: inv", 1e-8)
        want(ctx, inv2x2(A2), np.linalg.inv(A2), f"{p}: inv2x2", 1e-7)
        want(ctx, U.matmul(A, A), A0 @ A0, f"{p}: matmul")
        want(ctx, U.ATB(A, A2.T @ np.ones((2, 3)) if False else A), A0.T @ A0, f"{p}: ATB")
        want(ctx, U.matmulw(A, A, 2.5), 2.5 * A0 @ A0, f"{p}: matmulw")
        want(ctx, U.ATBA(A, A), A0.T @ A0 @ A0, f"{p}: ATBA")
        want(ctx, U.ATBAw(A, A, -0.5), -0.5 * A0.T @ A0 @ A0, f"{p}: ATBAw")
    ctx.check(np.array_equal(np.array(A), A0), "%s: input changed", p)
    ctx.state(("stack", shape, lay))
    ctx.trace()


def shaped(shape):
    """larger matrices of every rank, whose normal matrices are not singular to the last bit"""
    R, C = shape
    i, j = np.arange(R)[:, None], np.arange(C)[None, :]
    full = (i * 7 + j * 5 + i * j * 3) % 11 + 9 * (i == j)
    out = [i * C + j + 1, (i + 1) * (j + 1), (i + 1) ** 2 + (j + 2) ** 2, full, full - 5, np.minimum(i, j) + 1, (i + j) % 3, (i + 1) ** np.minimum(j, 3), i + 3 * j + 1 + 7 * (i == 0)]
    for k in range(1, min(R, C)):  # the last rows, or columns, depend on the others
        A = full.copy()
        A[-k:] = A[0] * 3 + A[(1 if R - k > 1 else 0)]
        out.append(A)
        A = full.copy()
        A[:, -k:] = (A[:, 0] * 7 - A[:, (1 if C - k > 1 else 0)])[:, None]
        out.append(A)
    return enumerate(out)


def k_geninv(ctx, p):
    shape = tuple(p["shape"])
    for code, M in all_matrices(shape, p["alpha"], p["lo"], p["hi"]) if "alpha" in p else shaped(shape):
        A = M.astype(float)
        r = rank(M)
        rows, cols = shape
        ctx.check(bool(has_full_row_rank(A)) == (r == rows), "has_full_row_rank of %s", M.tolist())
        ctx.check(bool(has_full_column_rank(A)) == (r == cols), "has_full_column_rank of %s", M.tolist())
        ctx.check(bool(has_full_rank(A)) == (r == min(shape)), "has_full_rank of %s", M.tolist())
        if code % 3 == 0:
            for sc in (2.0**-40, 2.0**33):
                B = A * sc
                ctx.check(bool(has_full_row_rank(B)) == (r == rows), "has_full_row_rank of %s times %s", M.tolist(), sc)
                ctx.check(bool(has_full_column_rank(B)) == (r == cols), "has_full_column_rank of %s times %s", M.tolist(), sc)
                ctx.check(bool(has_full_rank(B)) == (r == min(shape)), "has_full_rank of %s times %s", M.tolist(), sc)
                try:
                    X = generalized_inverse(B)
                except (np.linalg.LinAlgError, LinalgError):
                    ctx.check(r < min(shape), "generalized inverse of %s times %s refused", M.tolist(), sc)
                else:
                    ctx.check(r == min(shape), "generalized inverse of %s times %s given", M.tolist(), sc)
                    want(ctx, X @ B if rows >= cols else B @ X, np.eye(min(shape)), f"generalized inverse of {M.tolist()} times {sc}", 1e-8)
        if code % p.get("sym", 10**9) == 0:
            ctx.check(bool(has_full_rank(sy.Matrix(M))) == (r == min(shape)), "has_full_rank of the SymPy matrix %s", M.tolist())
        for name, f, ok, sides in (
            ("left", generalized_left_inverse, r == cols, "l"),
            ("right", generalized_right_inverse, r == rows, "r"),
            ("general", generalized_inverse, r == min(shape), ("l" if rows >= cols else "") + ("r" if cols >= rows else "")),
        ):
            for B in (A, M) if code % 5 == 0 else (A,):
                try:
                    X = f(B)
                except (np.linalg.LinAlgError, LinalgError):
                    if ok:
                        raise Violation(f"{name} inverse of {M.tolist()} refused")
                    continue
                if not ok:
                    raise Violation(f"{name} inverse of {M.tolist()} does not exist but was given: {X.tolist()}")
                if X.shape != (cols, rows):
                    raise Violation(f"{name} inverse of {M.tolist()} has shape {X.shape}")
                if "l" in sides:
                    want(ctx, X @ A, np.eye(cols), f"{name} inverse of {M.tolist()} from the left", 1e-8)
                if "r" in sides:
                    want(ctx, A @ X, np.eye(rows), f"{name} inverse of {M.tolist()} from the right", 1e-8)
        ctx.check(np.array_equal(A, M), "input changed")
        ctx.state(("gi", M.tobytes(), shape))
        ctx.outcome(f"rank {r} of {rows}x{cols}")
        ctx.step(3)
        if code % 64 == 0:
            ctx.beat()
    ctx.trace()


def sym_matrix(n, vals):
    M = np.zeros((n, n), int)
    it = iter(vals)
    for i in range(n):
        for j in range(i, n):
            M[i, j] = M[j, i] = next(it)
    return M


def definiteness(M):
    n = len(M)
    pd = all(det(M[:k, :k]) > 0 for k in range(1, n + 1))
    if pd:
        return True, True
    for k in range(1, n + 1):
        for c in itertools.combinations(range(n), k):
            if det(M[np.ix_(c, c)]) < 0:
                return False, False
    return False, True


def k_def(ctx, p):
    n, alpha = p["n"], p["alpha"]
    k = n * (n + 1) // 2
    for code in range(p["lo"], p["hi"]):
        c, vals = code, []
        for _ in range(k):
            vals.append(alpha[c % len(alpha)])
            c //= len(alpha)
        M = sym_matrix(n, vals)
        pd, psd = definiteness(M)
        for A in (M.astype(float), M) if code % 9 == 0 else (M.astype(float),):
            ctx.check(bool(is_pos_def(A)) == pd, "is_pos_def of %s is not %s", M.tolist(), pd)
            ctx.check(bool(is_pos_semidef(A)) == psd, "is_pos_semidef of %s is not %s", M.tolist(), psd)
        for sc in (1e-6, 1e4):
            if code % 9 == 0:
                ctx.check(bool(is_pos_def(M * sc)) == pd, "is_pos_def of %s times %s is not %s", M.tolist(), sc, pd)
                ctx.check(bool(is_pos_semidef(M * sc)) == psd, "is_pos_semidef of %s times %s is not %s", M.tolist(), sc, psd)
        ctx.step(2)
        ctx.state(("def", M.tobytes()))
        ctx.outcome("definite" if pd else "semidefinite" if psd else "indefinite")
        if code % 256 == 0:
            ctx.beat()
    ctx.trace()


def k_frames(ctx, p):
    n = p["n"]
    R = [np.eye(n)]
    if n == 2:
        R.append(np.array([[math.cos(0.7), math.sin(0.7)], [-math.sin(0.7), math.cos(0.7)]]))
    if n == 3:
        R.append(ref.dcm_body([0.4, -0.7, 1.1], "XYZ"))
    for code, M in all_matrices((n, n), p["alpha"], p["lo"], p["hi"]):
        G = M @ M.T
        rect = not np.any(G - np.diag(np.diag(G)))
        normal = bool(np.all(np.diag(G) == 1))
        ind = det(M) != 0
        for q, Q in enumerate(R):
            A = M @ Q
            if q and code % 3:
                continue
            ctx.check(bool(is_rectangular_frame(A)) == rect, "is_rectangular_frame of %s", A.tolist())
            ctx.check(bool(is_normal_frame(A)) == normal, "is_normal_frame of %s", A.tolist())
            ctx.check(bool(is_orthonormal_frame(A)) == (rect and normal), "is_orthonormal_frame of %s", A.tolist())
            ctx.check(bool(is_independent_frame(A)) == ind, "is_independent_frame of %s", A.tolist())
            if ind and q == 0:
                want(ctx, U.Gram(A), G, f"Gram matrix of {M.tolist()}", 0)
                want(ctx, U.dual_frame(A) @ A.T, np.eye(n), f"dual of {M.tolist()}", 1e-9)
                N = normalize_frame(A.astype(float))
                want(ctx, N, A / np.sqrt(np.diag(G))[:, None], f"normalized {M.tolist()}")
        ctx.step(4)
        ctx.state(("fr", M.tobytes(), n))
        ctx.outcome(f"rect={rect} normal={normal} independent={ind}")
        if code % 256 == 0:
            ctx.beat()
    ctx.trace()


def k_defs(ctx, p):
    w = p["what"]
    if w == "perm":
        for dim in range(2, 7):
            T = permutation_tensor(dim)
            ctx.check(T.shape == (dim,) * dim, "permutation tensor of dimension %s has shape %s", dim, T.shape)
            for idx in itertools.product(range(dim), repeat=dim):
                if len(set(idx)) < dim:
                    e = 0
                else:
                    e = (-1) ** sum(1 for i in range(dim) for j in range(i) if idx[j] > idx[i])
                if T[idx] != e:
                    raise Violation(f"permutation symbol {idx} is {T[idx]}")
                ctx.step()
            ctx.state(("perm", dim))
        ctx.check(np.array_equal(permutation_tensor(), permutation_tensor(3)), "default dimension")
        T = permutation_tensor(3)
        T[...] = 7
        ctx.check(permutation_tensor(3)[0, 1, 2] == 1 and permutation_tensor(3)[0, 0, 0] == 0, "permutation tensor kept by the library was changed by the caller")
    elif w == "unit":
        for n in range(1, 8):
            for i in range(n):
                for v in (1.0, -2.5, 3):
                    e = np.zeros(n)
                    e[i] = v
                    want(ctx, unit_basis_vector(n, i, v), e, f"unit vector {n} {i} {v}", 0)
                want(ctx, unit_basis_vector(n, index=i), np.eye(n)[i], f"unit vector {n} {i}", 0)
            want(ctx, unit_basis_vector(n), np.eye(n)[0], f"unit vector {n}", 0)
            ctx.state(("unit", n))
    elif w == "norm":
        for n in range(1, 5):
            vs = np.array([v for v in itertools.product([-2, -1, 0, 1, 3] if n < 4 else [-1, 0, 2], repeat=n)], float)
            L = np.sqrt((vs**2).sum(axis=1))
            want(ctx, norm2d(vs), L, "norm2d", 1e-13)
            nz = L > 0
            want(ctx, normalize2d(vs[nz]), vs[nz] / L[nz][:, None], "normalize2d", 1e-13)
            want(ctx, normalize2d(vs[nz][:1]), (vs[nz] / L[nz][:, None])[:1], "normalize2d of one", 1e-13)
            for v, l in zip(vs, L):
                want(ctx, norm(v), l, f"norm of {v}", 1e-13)
                if l:
                    want(ctx, normalize(v), v / l, f"normalized {v}", 1e-13)
                    want(ctx, normalize(1e-5 * v), v / l, f"normalized {v}", 1e-12)
            for N in (0, 1, 2, 3, 8, 17, 64, 65, 129, 1000):
                A = ref.mixed((N, n), 1) if N else np.zeros((0, n))
                A0 = A.copy()
                l = np.sqrt((A**2).sum(axis=1))
                want(ctx, norm2d(A), l, f"norm2d of {N}", 1e-12)
                want(ctx, normalize2d(A), A / l[:, None] if N else A, f"normalize2d of {N}", 1e-12)
                ctx.check(np.array_equal(A, A0), "input changed")
                want(ctx, norm2d(np.asfortranarray(A)), l, f"norm2d of {N} in column order", 1e-12)
                ctx.state(("norm", n, N))
    elif w == "lin":
        for n in (1, 2, 3, 4):
            pts = [np.array(v, float) for v in itertools.product([-1, 0, 2], repeat=n)] if n < 3 else [
                np.array(v, float) for v in itertools.product([-1, 2], repeat=n)]
            for a, b in itertools.product(pts, repeat=2):
                for N in (2, 3, 4, 7):
                    e = np.array([a + (b - a) * i / (N - 1) for i in range(N)])
                    a0, b0 = a.copy(), b.copy()
                    want(ctx, linspace(a, b, N), e, f"linspace {a} {b} {N}", 1e-12)
                    want(ctx, vpath(a, b, N), e, f"vpath {a} {b} {N}", 1e-12)
                    ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0), "input changed")
                    ctx.state(("lin", n, a.tobytes(), b.tobytes(), N))
            for N in (33, 64, 65, 100, 257, 1000):
                a, b = pts[0] + 0.1, pts[-1] * 1.3
                e = np.array([a + (b - a) * i / (N - 1) for i in range(N)])
                want(ctx, linspace(a, b, N), e, f"linspace {N}", 1e-12)
                want(ctx, vpath(a, b, N), e, f"vpath {N}", 1e-12)
        for a, b in itertools.product([-2, 0, 1, 3.5], repeat=2):
            for N in (2, 3, 5, 10, 65, 1000):
                e = np.array([a + (b - a) * i / (N - 1) for i in range(N)])
                want(ctx, linspace1d(a, b, N), e, f"linspace1d {a} {b} {N}", 1e-12)
                want(ctx, linspace(a, b, N), e, f"linspace {a} {b} {N}", 1e-12)
    elif w == "square":
        for nd in range(1, 5):
            for shp in itertools.product([1, 2, 3], repeat=nd):
                ctx.check(bool(is_hermitian(np.zeros(shp))) == (len(set(shp)) == 1), "is_hermitian for shape %s", shp)
                ctx.step()
                ctx.state(("sq", shp))
        for shp in ((2, 3), (3, 2), (2, 2, 2), (3,)):
            try:
                is_rectangular_frame(np.ones(shp))
            except AssertionError:
                continue
            ctx.fail(f"is_rectangular_frame answered for shape {shp}")
        for shp in ((2,), (2, 2, 2), (1, 2, 3, 4)):
            try:
                generalized_inverse(np.ones(shp))
            except LinalgOperationInputError:
                continue
            ctx.fail(f"generalized_inverse answered for shape {shp}")
    elif w == "sym":
        for M in ([[2, 1, 0], [1, 3, 1], [0, 1, 4]], [[1, 2, 3], [0, 1, 4], [5, 6, 0]], [[0, 0, 1], [0, 2, 0], [-1, 3, 5]], [[1, 2, 3], [2, 4, 6], [1, 1, 1]]):
            m = sy.Matrix(M)
            d, a = inv_sym_3x3(m, as_adj_det=True)
            ctx.check(sy.simplify(d - m.det()) == 0, "determinant of %s", M)
            ctx.check((a - m.adjugate()).is_zero_matrix, "adjugate of %s", M)
            if m.det() != 0:
                ctx.check((inv_sym_3x3(m) * m - sy.eye(3)).applyfunc(sy.simplify).is_zero_matrix, "inverse of %s", M)
            ctx.step(3)
            ctx.state(("sym", str(M)))
        x, y = sy.symbols("x y")
        m = sy.Matrix([[x, 1, 0], [y, x, 2], [1, 0, 3]])
        d, a = inv_sym_3x3(m, as_adj_det=True)
        ctx.check(sy.expand(d - m.det()) == 0 and (a - m.adjugate()).applyfunc(sy.expand).is_zero_matrix, "symbolic adjugate")
        ctx.check((inv_sym_3x3(m) * m - sy.eye(3)).applyfunc(sy.simplify).is_zero_matrix, "symbolic inverse")
    ctx.trace()


def k_random(ctx, p):
    """what is drawn does not matter: every draw gives a symmetric matrix that is positive (semi)definite"""
    n, alpha = p["n"], p["alpha"]
    vals = [0.0, 0.5, 0.875]
    for k in range(p["lo"], p["hi"]):
        A = np.array([vals[(k // 3**i) % 3] for i in range(n * n)]).reshape(n, n)
        keep = np.random.rand
        np.random.rand = lambda *a: np.array(A) if a == (n, n) else keep(*a)
        try:
            S = np.array(U.random_pos_semidef_matrix(n))
            P = np.array(U.random_posdef_matrix(n) if alpha is None else U.random_posdef_matrix(n, alpha))
        finally:
            np.random.rand = keep
        for M, low, w in ((S, 0.0, "semidefinite"), (P, alpha or 0.0, "definite")):
            ctx.check(M.shape == (n, n) and np.allclose(M, M.T, atol=1e-13), "random %s matrix %s of draws %s", w, M, A)
            e = np.linalg.eigvalsh(M).min()
            ctx.check(e >= low - 1e-10, "random %s matrix of draws %s: smallest eigenvalue %s", w, A, e)
            ctx.check(bool(is_pos_semidef(M)) or e < 0, "is_pos_semidef of %s", M)
            ctx.step()
        if alpha:
            ctx.check(bool(is_pos_def(P)), "is_pos_def of %s", P)
        ctx.state(("random", n, k, alpha))
    ctx.trace()


LAB = []


def k_sched(ctx, p):
    if not LAB:
        LAB.append(Lab())
    w, N = p["what"], p["N"]
    M = ref.mixed((N, 3, 3), 1) + 3 * np.eye(3)
    V = ref.mixed((N, 3), 1)
    a, b = np.array([0.5, 1.0, 2.0]), np.array([3.0, -1.0, 0.25])
    run = {
        "bulk": lambda: [np.array(U.inv3x3_bulk(M.copy()))],
        "bulk2": lambda: [np.array(U.inv3x3_bulk2(M.copy()))],
        "normalize2d": lambda: [np.array(U.normalize2d(V.copy()))],
        "norm2d": lambda: [np.array(U.norm2d(V.copy()))],
        "linspace": lambda: [np.array(U.linspace(a.copy(), b.copy(), N + 2))],
        "linspace1d": lambda: [np.array(U.linspace1d(0.5, 2.0, N))],
        "vpath": lambda: [np.array(U.vpath(a.copy(), b.copy(), N))],
    }[w]
    explore(ctx, LAB[0], f"{w} N={N}", run, lambda x, y: ref.close(x[0], y[0], 1e-10), bound=p["bound"], limit=300000)


KINDS = {"two": k_two, "three": k_three, "stack": k_stack, "geninv": k_geninv, "def": k_def, "frames": k_frames, "defs": k_defs, "sched": k_sched, "random": k_random}


def cases(tier):
    th = tier == "thorough"
    for w in ("perm", "unit", "norm", "lin", "square", "sym"):
        yield "defs", dict(what=w)
    yield "two", dict(alpha=[-3, -2, -1, 0, 1, 2, 3])
    for n in (1, 2, 3):
        for alpha in (None, 0.5, 1e-3):
            T = 3 ** (n * n)
            for lo in range(0, T, 2048):
                if n < 3 or th or lo % 8192 == 0:
                    yield "random", dict(n=n, alpha=alpha, lo=lo, hi=min(T, lo + 2048))
    for w in ("bulk", "bulk2", "normalize2d", "norm2d", "linspace", "linspace1d", "vpath"):
        for N, b in ((2, 2), (3, 1)) if not th else ((2, 3), (3, 2), (4, 2)):
            yield "sched", dict(what=w, N=N, bound=b)
    for lay in ("C", "F", "T", "S"):
        for shp in ([], [0], [1], [2], [3], [8], [17], [65], [129], [1000], [2, 3], [3, 1, 2], [0, 2], [2, 2, 2, 2]):
            yield "stack", dict(shape=shp, lay=lay)
    for lo in range(0, 3**9, 1024):
        yield "three", dict(alpha=[-1, 0, 1], lo=lo, hi=lo + 1024, single=1)
    for lo in range(0, 4**9, 8192):
        yield "three", dict(alpha=[-2, 0, 1, 3], lo=lo, hi=lo + 8192, single=1 if th else 0)
    if th:
        for lo in range(0, 5**9, 16384):
            yield "three", dict(alpha=[-3, -1, 0, 2, 5], lo=lo, hi=lo + 16384)
    plan = [
        ((1, 1), [-2, -1, 0, 1, 2, 3]), ((1, 2), [-2, -1, 0, 1, 2]), ((2, 1), [-2, -1, 0, 1, 2]), ((1, 3), [-1, 0, 1, 2]), ((3, 1), [-1, 0, 1, 2]),
        ((2, 2), [-2, -1, 0, 1, 2]), ((2, 3), [-1, 0, 1, 2]), ((3, 2), [-1, 0, 1, 2]), ((2, 4), [-1, 0, 1] if th else [0, 1, -2][:2] + [2]), ((4, 2), [-1, 0, 1] if th else [0, 1]),
        ((3, 3), [-1, 0, 1] if th else [0, 1]), ((3, 4), [0, 1]), ((4, 3), [0, 1]),
    ]
    if th:
        plan += [((4, 4), [0, 1]), ((3, 3), [0, 1, 2])]
    for shp in itertools.product(range(1, 7 if not th else 10), repeat=2):
        yield "geninv", dict(shape=list(shp))
    for shp, alpha in plan:
        total = len(alpha) ** (shp[0] * shp[1])
        for lo in range(0, total, 512):
            yield "geninv", dict(shape=list(shp), alpha=alpha, lo=lo, hi=min(total, lo + 512), sym=37 if shp != (1, 1) else 1)
    for n, alpha in ((1, [-2, -1, 0, 1, 2]), (2, [-3, -2, -1, 0, 1, 2, 3]), (3, [-2, -1, 0, 1, 2]), (4, [-1, 0, 1])):
        total = len(alpha) ** (n * (n + 1) // 2)
        for lo in range(0, total, 1024):
            yield "def", dict(n=n, alpha=alpha, lo=lo, hi=min(total, lo + 1024))
    for n, alpha in ((1, [-2, -1, 0, 1, 2]), (2, [-2, -1, 0, 1, 2]), (3, [-1, 0, 1])) + (((3, [-1, 0, 1, 2]),) if th else ()):
        total = len(alpha) ** (n * n)
        for lo in range(0, total, 512):
            yield "frames", dict(n=n, alpha=alpha, lo=lo, hi=min(total, lo + 512))
