"""Independent reference: alphabets and textbook definitions (NumPy only)."""
import itertools
import math

import numpy as np

TOL = 1e-8


def close(a, b, tol=TOL, floor=1.0):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)):
        return bool(np.array_equal(a, b, equal_nan=True))
    scale = max(floor, float(np.max(np.abs(b))))
    return bool(np.max(np.abs(a - b)) <= tol * scale)


def mixed(shape, seed=0):
    """A deterministic array without symmetries: distinct magnitudes and signs."""
    n = int(np.prod(shape)) if len(shape) else 1
    k = np.arange(1, n + 1, dtype=float)
    v = ((k * (7 + 2 * seed) + 3 * seed) % 11) - 4.5 + 0.25 * ((k * k + seed) % 5) + k / (8.0 * n)
    return v.reshape(shape) / 2.0


def rx(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def ry(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rz(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


ROT = {"X": rx, "Y": ry, "Z": rz, "1": rx, "2": ry, "3": rz}


def dcm_body(angles, order):
    """Matrix whose rows are the rotated unit vectors (passive), body-fixed axes."""
    M = np.eye(3)
    for a, o in zip(angles, str(order)):
        M = M @ ROT[o](a)
    return M.T


def dcm_space(angles, order):
    M = np.eye(3)
    for a, o in zip(angles, str(order)):
        M = ROT[o](a) @ M
    return M.T


def dcm_axis(angle, n):
    n = np.asarray(n, float) / np.linalg.norm(n)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    R = np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K @ K
    return R.T


def dcm_quaternion(q):
    q = np.asarray(q, float)
    q = q / np.linalg.norm(q)
    w, x, y, z = q
    R = np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
        ]
    )
    return R.T


def axes_alphabet(dim, kinds=None):
    """name -> axes (rows are base vectors)."""
    A = {}
    I = np.eye(dim)
    A["eye"] = I
    if dim == 1:
        A["two"] = 2 * I
        A["neg"] = -0.5 * I
    elif dim == 2:
        c, s = math.cos(0.3), math.sin(0.3)
        A["rot"] = np.array([[c, s], [-s, c]])
        A["mirror"] = np.array([[0.0, 1.0], [1.0, 0.0]])
        A["rect"] = np.array([[0.0, 2.0], [-0.5, 0.0]])
        A["skew"] = np.array([[1.0, 0.5], [0.25, 2.0]])
        A["skewneg"] = np.array([[1.0, 2.0], [-3.0, -1.0]])
        A["skewleft"] = np.array([[0.0, 1.5], [1.0, -1.0]])
    elif dim == 3:
        A["rot"] = dcm_body([0.4, -0.7, 1.1], "XYZ")
        A["mirror"] = np.array([[0.0, 1, 0], [1, 0, 0], [0, 0, 1]])
        A["rect"] = np.diag([2.0, 0.5, 3.0]) @ dcm_space([0.2, 0.5, -0.3], "ZYX")
        A["skew"] = np.array([[1.0, 0.5, 0.0], [0.25, 2.0, 0.3], [0.0, -0.4, 1.5]])
        A["skewneg"] = np.array([[1.0, 2.0, 0.5], [-3.0, -1.0, 0.0], [0.5, 0.25, 2.0]])
        A["skewleft"] = np.array([[0.0, 1.0, 0.5], [1.0, 0.5, 0.0], [0.0, 0.25, 2.0]])
    else:
        M = np.eye(dim)
        Q = np.linalg.qr(mixed((dim, dim), 3))[0]
        A["rot"] = Q
        A["rect"] = np.diag(np.arange(1, dim + 1) * 0.75) @ Q
        A["skew"] = M + 0.2 * mixed((dim, dim), 1) / dim
    if kinds is not None:
        A = {k: A[k] for k in kinds if k in A}
    return {k: np.ascontiguousarray(v, dtype=float) for k, v in A.items()}


def contract(arr, M, rank):
    """applies the matrix M to each of the last `rank` axes: out_a = M[a, i] arr_i"""
    out = np.asarray(arr, dtype=float)
    n = out.ndim
    for ax in range(n - rank, n):
        out = np.moveaxis(np.tensordot(M, out, axes=([1], [ax])), 0, ax)
    return out


def ambient(comp, S, rank):
    """ambient components of an object with components `comp` in base vectors S.
    S may be a collection (N, d, d) then comp is (N, ...)."""
    S = np.asarray(S, float)
    comp = np.asarray(comp, float)
    if S.ndim == 2:
        return contract(comp, S.T, rank)
    out = np.zeros(comp.shape)
    for i in range(S.shape[0]):
        out[i] = contract(comp[i], S[i].T, rank)
    return out


def components(amb, S, rank):
    S = np.asarray(S, float)
    amb = np.asarray(amb, float)
    if S.ndim == 2:
        return contract(amb, np.linalg.inv(S).T, rank)
    out = np.zeros(amb.shape)
    for i in range(S.shape[0]):
        out[i] = contract(amb[i], np.linalg.inv(S[i]).T, rank)
    return out


def cond(S):
    S = np.asarray(S, float)
    if not np.all(np.isfinite(S)):
        return np.inf
    if S.ndim == 3:
        return max((np.linalg.cond(s) for s in S), default=1.0)
    return np.linalg.cond(S)


def canon(arr, digits=6):
    a = np.round(np.asarray(arr, float), digits) + 0.0
    return (a.shape, a.tobytes())


def subsets(xs):
    xs = list(xs)
    for r in range(len(xs) + 1):
        for c in itertools.combinations(xs, r):
            yield c


RELATED = ["last-", "last2", "lastskew", "first-", "first2", "neg", "x2", "half", "perm", "T", "near", "near6", "metric"]
SCALED = ["tiny", "huge", "tinyskew", "mixed"]


def related(A, rel):
    """axes that share something with the axes A"""
    B = np.array(A, dtype=float)
    n = len(B)
    if rel == "last-":
        B[-1] *= -1
    elif rel == "last2":
        B[-1] *= 2
    elif rel == "lastskew":
        B[-1] += 0.5 * B[0]
    elif rel == "first-":
        B[0] *= -1
    elif rel == "first2":
        B[0] *= 2
    elif rel == "neg":
        B = -B
    elif rel == "x2":
        B = 2 * B
    elif rel == "half":
        B = B / 2
    elif rel == "perm":
        B = np.roll(B, 1, axis=0)
    elif rel == "T":
        B = B.T.copy()
    elif rel == "near":
        B[0, -1] += 1e-3
    elif rel == "near6":  # the same to five digits
        B = B * (1 + 4e-6 * (-1.0) ** np.arange(n)[:, None])
    elif rel == "tiny":
        B = B * 2.0**-30
    elif rel == "huge":
        B = B * 2.0**30
    elif rel == "tinyskew":  # small and, apart from that, different
        B[-1] += 0.5 * B[0]
        B = B * 2.0**-30
    elif rel == "mixed":  # units differ from axis to axis
        B = B * (1000.0 ** -np.arange(n))[:, None]
    elif rel == "metric":  # the same products of the base vectors
        B = B @ axes_alphabet(n)["rot" if n in (2, 3) else "eye"]
    return B
