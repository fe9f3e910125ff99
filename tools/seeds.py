"""Specs of the planted bugs: edits (file, old, new), demonstration, meta data."""
SEEDS = {}


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)


seed(
    "c01_equal_axes", "C01",
    "a tensor is moved to another frame that happens to have the same axes, and that frame is changed later",
    "moving a tensor to a frame with equal axes is skipped as a no-op, so the tensor stays attached to the old frame and later changes of the new frame are missed",
    [("linalg/meta.py", "        array = self.show(f)\n", "        if np.array_equal(f.axes, self.frame.axes):\n            return  # same base vectors, same components\n        array = self.show(f)\n")],
    """
import numpy as np
from sigmaepsilon.math.linalg import ReferenceFrame, Vector
A, B = ReferenceFrame(dim=3), ReferenceFrame(dim=3)
v = Vector(np.array([1.0, 2.0, 3.0]), frame=A)
v.frame = B
B *= 2.0
assert np.allclose(v.array, [0.5, 1.0, 1.5]), v.array
A *= 4.0
assert np.allclose(v.show(), [1.0, 2.0, 3.0]), v.show()
""",
)
seed(
    "c02_rotation_memo", "C02",
    "two rotations with the same amounts but different axis orders in one process",
    "rotation matrices are remembered by kind and amounts, forgetting the order of the axes",
    [("linalg/utils.py", '    source = SymPyFrame("S")\n', '    key = (rot_type, repr(amounts))\n    if key in _rotations:\n        return _rotations[key].copy()\n    source = SymPyFrame("S")\n'),
     ("linalg/utils.py", "    dcm = np.array(target.dcm(source).evalf()).astype(float)\n    return dcm\n", "    dcm = np.array(target.dcm(source).evalf()).astype(float)\n    _rotations[key] = dcm.copy()\n    return dcm\n"),
     ("linalg/utils.py", "def rotation_matrix(\n", "_rotations = {}\n\n\ndef rotation_matrix(\n")],
    """
import numpy as np
from sigmaepsilon.math.linalg import ReferenceFrame
A = ReferenceFrame(dim=3)
a = A.orient_new('Body', [0.3, 0.0, 0.0], 'XYZ').axes
b = A.orient_new('Body', [0.3, 0.0, 0.0], 'ZYX').axes
assert np.allclose(a[0], [1, 0, 0]) and np.allclose(b[2], [0, 0, 1]), (a, b)
""",
)
seed(
    "c05_cancelling", "C05",
    "base vectors whose mutual products are nonzero but cancel each other in the sum",
    "a frame whose skew products cancel (plus and minus) passes for rectangular",
    [("linalg/logical.py", "    agram = np.abs(axes @ axes.T)\n    return np.isclose(np.trace(agram), np.sum(agram))\n", "    gram = axes @ axes.T\n    return np.isclose(np.trace(gram), np.sum(gram))\n")],
    """
import numpy as np
from sigmaepsilon.math.linalg import ReferenceFrame, RectangularFrame
ax = np.array([[1.0, 0, 0], [0.5, 1, 0], [-0.5, 0, 1.0]])
g = ax @ ax.T
ax = np.array([[1.0, 0, 0], [0.5, 1.0, 0], [-0.5, 0.25, 1.0]])
assert not ReferenceFrame(ax).is_rectangular
try:
    F = RectangularFrame(ax)
except Exception:
    pass
else:
    raise AssertionError('skew axes accepted as rectangular')
""",
)
seed(
    "c06_duplicates", "C06",
    "a collection with equal neighbouring vectors, processed by several threads",
    "the components of an item equal to its predecessor are copied from the result of the predecessor, which another thread may not have computed yet",
    [("linalg/utils.py", "        res[i] = dcm @ arr[i, :]\n", "        if i > 0 and np.all(arr[i] == arr[i - 1]):\n            res[i] = res[i - 1]\n        else:\n            res[i] = dcm @ arr[i, :]\n")],
    """
import numpy as np
from sigmaepsilon.math.linalg import ReferenceFrame, Vector
F = ReferenceFrame(np.array([[1.0, 0.5, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 4.0]]))
arr = np.tile(np.array([1.0, 2.0, 3.0]), (4000, 1))
v = Vector(arr, frame=F, bulk=True)
for _ in range(20):
    s = v.show()
    assert np.allclose(s, s[0]) and np.allclose(s[0], F.axes.T @ arr[0]), s
""",
)
seed(
    "c07_reactions", "C07",
    "prescribed values and several right-hand sides at once",
    "the reactions of the first right-hand side are returned for all of them",
    [("linalg/solve.py", "            R[iEQ] = -resid\n", "            R[iEQ] = -resid[0]\n")],
    """
import numpy as np
from sigmaepsilon.math.linalg.solve import linsolve
A = np.array([[3, 1, 2], [1, 1, 1], [2, 1, 2]], dtype=float)
B = np.array([[11.0, 1.0], [6.0, 2.0], [10.0, -3.0]])
pb = np.array([False, True, False])
pv = np.array([0.0, 3.0, 0.0])
X, R = linsolve(A, B, method='Gauss-Jordan', presc_bool=pb, presc_val=pv)
assert np.allclose(A @ X, B + R), (A @ X - B, R)
""",
)
seed(
    "c08_rank_tol", "C08",
    "a regular matrix with small entries",
    "the rank is determined with an absolute tolerance, so small but regular matrices are called rank deficient",
    [("linalg/logical.py", "        return np.linalg.matrix_rank(matrix) == min(matrix.shape)\n", "        return np.linalg.matrix_rank(matrix, tol=1e-6) == min(matrix.shape)\n")],
    """
import numpy as np
from sigmaepsilon.math.linalg import has_full_rank
A = np.array([[2.0, 1.0], [1.0, 3.0]])
assert has_full_rank(A)
assert has_full_rank(A * 1e-7)
assert not has_full_rank(np.array([[1.0, 2.0], [2.0, 4.0]]))
""",
)
seed(
    "c09_empty_operand", "C09",
    "stacking where one of the operands consists of empty rows only",
    "operands without elements are skipped, so their empty rows are lost",
    [("linalg/sparse/jaggedarray.py", "    cuts = np.concatenate(list(t.widths() for t in args[0]))\n", "    cuts = np.concatenate(list(t.widths() for t in args[0] if t.size > 0))\n")],
    """
import numpy as np
from sigmaepsilon.math.linalg import JaggedArray
a = JaggedArray(np.array([1, 2, 3]), cuts=[1, 2])
b = JaggedArray(np.array([], dtype=int), cuts=[0, 0])
assert np.vstack([a, b, a]).to_list() == [[1], [2, 3], [], [], [1], [2, 3]]
assert np.vstack([a, a]).to_list() == [[1], [2, 3], [1], [2, 3]]
""",
)
seed(
    "c10_narrow_counts", "C10",
    "a value that occurs more than 32767 times in a ragged array",
    "occurrences are counted in 16-bit integers",
    [("arraysetops.py", "    counts = np.zeros(nU, dtype=np.int64)\n", "    counts = np.zeros(nU, dtype=np.int16)\n")],
    """
import numpy as np
from sigmaepsilon.math.linalg import JaggedArray
n = 70001
flat = np.ones(n, dtype=int)
flat[::2] = 3
J = JaggedArray(flat, cuts=[1, n - 1])
u, c = J.unique(return_counts=True)
assert np.array(u).tolist() == [1, 3] and np.array(c).tolist() == [35000, 35001], (u, c)
""",
)
seed(
    "c11_depth", "C11",
    "a graph that is deeper than half of its number of nodes, seen from the root",
    "level structures are cut off at half the number of nodes",
    [("graph/utils.py", "    while nE < nN:\n", "    while nE < nN and level <= nN // 2:\n")],
    """
from sigmaepsilon.math.graph import Graph
G = Graph([(i, i + 1) for i in range(9)])
r = G.rooted_level_structure(0)
assert len(r) == 10 and all(list(r[k]) == [k] for k in range(10)), r
""",
)

# ---------------------------------------------------------------- second batch
seed(
    "c03_last_axis", "C03",
    "an in-place sum of two vectors whose frames agree in all base vectors but the last one (a mirrored or skewed partner, or two dimensions)",
    "frames are taken for the same if all their base vectors but the last agree, as would be right for right-handed Cartesian frames only",
    [("linalg/abstract.py", "            self.array += other.show(self.frame)\n        return self\n",
      "            A, B = self.frame.axes, other.frame.axes\n            if A.ndim == 2 and A.shape == B.shape and np.allclose(A[:-1], B[:-1]):\n                self.array += other.array  # the last axis follows from the others\n            else:\n                self.array += other.show(self.frame)\n        return self\n")],
    """
import numpy as np
from sigmaepsilon.math.linalg import ReferenceFrame, Vector
A = ReferenceFrame(dim=3)
B = ReferenceFrame(np.diag([1.0, 1.0, -1.0]))
v = Vector(np.array([1.0, 2.0, 3.0]), frame=A)
w = Vector(np.array([1.0, 1.0, 1.0]), frame=B)
v += w
assert np.allclose(v.show(), [2.0, 3.0, 2.0]), v.show()
""",
)
seed(
    "c04_ascont_copy", "C04",
    "a vector built from the component array of another vector (or the transpose of a vector), one of which is modified later",
    "the copy of the input is skipped where making it contiguous has already given another array object; for subclasses of arrays that object is a view",
    [("linalg/meta.py", "        buf = np.array(buf, dtype=float)\n", "        if not (len(args) > 0 and buf is not args[0] and buf.dtype == float):\n            buf = np.array(buf, dtype=float)  # not copied yet\n")],
    """
import numpy as np
from sigmaepsilon.math.linalg import ReferenceFrame, Vector
f = ReferenceFrame(dim=3)
v = Vector(np.array([1.0, 2.0, 3.0]), frame=f)
w = Vector(v.array, frame=f)
w *= 2.0
assert np.allclose(v.array, [1.0, 2.0, 3.0]), v.array
t = v.T
v += 1.0
assert np.allclose(t.array, [1.0, 2.0, 3.0]), t.array
""",
)
seed(
    "c12_text_memo", "C12",
    "the same text used for two functions with different orders of the variables in one process",
    "symbolic functions made from text are remembered by their text and the set of their variables",
    [("function/metafunction.py", "        return symbolize(*args, str_expr=str_expr, **kwargs)\n", "        names = kwargs.get(\"variables\") or ()\n        key = (str_expr, frozenset(map(str, names)))\n        if key not in cls._known:\n            cls._known[key] = symbolize(*args, str_expr=str_expr, **kwargs)\n        return cls._known[key]\n"),
     ("function/metafunction.py", "    def __call__(self, *args, **kwargs):\n", "    _known = {}\n\n    def __call__(self, *args, **kwargs):\n")],
    """
from sigmaepsilon.math.function import Function
a = Function("x - 2*y", variables=["x", "y"])
b = Function("x - 2*y", variables=["y", "x"])
assert a([1, 0]) == 1 and b([1, 0]) == -2, (a([1, 0]), b([1, 0]))
""",
)
seed(
    "c13_side", "C13",
    "a relation in text whose right side is a sum or difference of several terms",
    "the right side is subtracted without brackets when it does not start with a sign",
    [("function/relation.py", '            rhs = "(" + rhs + ")"\n', '            if rhs[0] in "+-":\n                rhs = "(" + rhs + ")"\n')],
    """
from sigmaepsilon.math.function import Relation
r = Relation("x + y <= 4 - x", variables=["x", "y"])
assert r.relate([1.0, 1.0]) and not r.relate([3.0, 1.0])
r = Relation("x >= y + 1", variables=["x", "y"])
assert r.relate([2.0, 1.0]) and not r.relate([1.0, 1.0])
""",
)
seed(
    "c14_small_coeffs", "C14",
    "a constraint written in units that make all of its coefficients small, given to the sparse (default) path",
    "coefficients below 1e-6 are dropped from sparse inequality constraints",
    [("optimize/lp.py", "                        val = coeffs[x_] * A_ub_multiplier\n                        if val != 0:\n", "                        val = coeffs[x_] * A_ub_multiplier\n                        if abs(val) > 1e-6:\n")],
    """
import sympy as sy
from sigmaepsilon.math.function import Function, Relation
from sigmaepsilon.math.optimize import LinearProgrammingProblem as LPP
v = x, y = sy.symbols("x y")
f = Function(x + y, variables=v)
r = Relation(sy.Rational(1, 2000000) * (x + 2 * y) - sy.Rational(4, 2000000), op="<=", variables=v)
s = LPP(f, [r], variables=v, bounds=(0, 3)).solve(maximize=True)
assert s.success and abs(s.fun - 3.5) < 1e-6, (s.x, s.fun)
""",
)
seed(
    "c14_twin_constraints", "C14",
    "two constraints with the same expression and opposite operators",
    "constraints are dropped as repeated when their expressions agree, whatever their operators",
    [("optimize/lp.py", "                self.constraints.append(constraint)\n", "                if constraint.expr not in [c.expr for c in self.constraints]:\n                    self.constraints.append(constraint)  # each of them once\n")],
    """
import sympy as sy
from sigmaepsilon.math.function import Function, Relation
from sigmaepsilon.math.optimize import LinearProgrammingProblem as LPP
v = x, y = sy.symbols("x y")
f = Function(x + 2 * y, variables=v)
lo = Relation(x + y - 2, op=">=", variables=v)
hi = Relation(x + y - 2, op="<=", variables=v)
for cons in ([lo, hi], [hi, lo]):
    p = LPP(f, cons, variables=v, bounds=(0, 5))
    assert abs(p.solve().fun - 2) < 1e-8 and abs(p.solve(maximize=True).fun - 4) < 1e-8
""",
)
seed(
    "c15_forget", "C15",
    "a few generations evolved by hand (no call of solve), then starting again",
    "starting again forgets the champion only if the earlier search had counted iterations",
    [("optimize/ga.py", "        self._champion = None\n        self._state = OptimizerState()\n", "        if self._state is not None and self._state.n_iter > 0:\n            self._champion = None\n        self._state = OptimizerState()\n")],
    """
import numpy as np
from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm as BGA
for s in range(5):
    np.random.seed(s)
    shift = [0.0]
    seen = []
    def f(x):
        seen.append(float(x[0] ** 2 + x[1] ** 2 + shift[0]))
        return seen[-1]
    g = BGA(f, [[-3, 5], [-4, 4]], length=6, nPop=8, minimize=True, maxiter=4, miniter=4)
    g.evolve(6)
    shift[0] = 100.0  # another problem
    seen.clear()
    g.reset()
    assert g.champion is None, g.champion
    g.solve()
    assert g.champion.fitness >= 100 and g.champion.fitness in seen, g.champion
""",
)
seed(
    "c16_int_codes", "C16",
    "chromosomes of 32 bits or more per variable",
    "the codes are assembled in 32-bit integers, so the highest bit counts as negative and further ones are lost",
    [("optimize/bga.py", "            [genotypes[:, :, i] * 2**i for i in range(self.length)], axis=0\n", "            [np.left_shift(genotypes[:, :, i].astype(np.int32), i) for i in range(self.length)], axis=0\n")],
    """
import numpy as np
from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm as BGA
for n in (5, 16, 32, 40):
    g = BGA(lambda x: x[0] + x[1], [[-1, 2], [0, 5]], length=n, nPop=4)
    lo = g.decode(np.zeros((4, 2 * n), dtype=int))
    hi = g.decode(np.ones((4, 2 * n), dtype=int))
    assert np.allclose(lo, [-1, 0]) and np.allclose(hi, [2, 5]), (n, hi)
""",
)
seed(
    "c17_fev", "C17",
    "the objective evaluated by the user for a few points only",
    "every evaluation counts as one of the whole population",
    [("optimize/ga.py", "            self.state.n_fev += len(phenotypes)\n", "            self.state.n_fev += self.nPop\n")],
    """
import numpy as np
from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm as BGA
n = [0]
def f(x):
    n[0] += 1
    return x[0] + x[1]
g = BGA(f, [[-1, 2], [0, 5]], length=4, nPop=8, maxiter=3, miniter=1)
g.solve()
assert g.state.n_fev == n[0], (g.state.n_fev, n)
g.evaluate(np.array([[0.5, 0.5], [1.0, 2.0]]))
assert g.state.n_fev == n[0], (g.state.n_fev, n)
""",
)
seed(
    "c18_yz", "C18",
    "second derivatives of quadratic fits in three dimensions with a mixed term in the last two coordinates",
    "the derivative with respect to y and z looks at the monomial x z",
    [("approx/ls_poly.py", "    def bdyz(x):\n        return np.array([0, 0, 0, 0, 0, 0, 0, 0, 0, 1])\n", "    def bdyz(x):\n        return np.array([0, 0, 0, 0, 0, 0, 0, 0, 1, 0])\n")],
    """
import numpy as np
from sigmaepsilon.math.approx import least_squares
P = np.array([[i, j, k] for i in (0.0, 1, 2) for j in (0.0, 1, 3) for k in (0.0, 0.5, 2)])
f = least_squares(P, P[:, 1] * P[:, 2], deg=2, order=2)
r = f([0.3, 0.7, 1.1])
assert abs(float(r[-1][0]) - 1.0) < 1e-6 and abs(float(r[-2][0])) < 1e-6, r
""",
)
seed(
    "c19_hess_scale", "C19",
    "a two-dimensional cubic weight function in the outer half of its support in the second direction, with a support of other than unit size",
    "one factor of the chain rule is missing in one branch of the second derivative",
    [("approx/functions.py", "            dwYdYY = (8 - 8 * rY) * drdY * drdY\n", "            dwYdYY = (8 - 8 * rY) * drdY\n")],
    """
import numpy as np
from sigmaepsilon.math.approx import CubicWeightFunction
w = CubicWeightFunction(core=[0.0, 0.0], sd=[2.0, 2.0])
h = 1e-4
for x in ([0.2, 0.3], [0.2, 1.5], [0.2, -1.5], [1.5, 0.3]):
    x = np.array(x)
    e = np.array([0.0, h])
    fd = (w(x + e) - 2 * w(x) + w(x - e)) / h**2
    assert abs(w.G(x)[1, 1] - fd) < 1e-4, (x, w.G(x), fd)
""",
)
seed(
    "c20_basis_memo", "C20",
    "two sets of nodes of the same number used one after the other",
    "the inverse of the system for numeric nodes is remembered by the number of nodes and their ends",
    [("approx/lagrange.py", "    coeffs_new = A.inv() * sy.Matrix(variables)\n", "    key = (N, str(x[0]), str(x[N - 1]))\n    if key not in _inverses:\n        _inverses[key] = A.inv()\n    coeffs_new = _inverses[key] * sy.Matrix(variables)\n"),
     ("approx/lagrange.py", "def _var_tmpl(i: int):\n", "_inverses = dict()\n\n\ndef _var_tmpl(i: int):\n")],
    """
from sigmaepsilon.math.approx import approx_Lagrange_1d
for pts in ([-1, 0, 1], [-1, 0.5, 1], [0, 1, 3], [0, 2, 3]):
    f = approx_Lagrange_1d(pts, [2, 5, 1], lambdify=True)
    assert all(abs(f(p) - v) < 1e-9 for p, v in zip(pts, [2, 5, 1])), pts
""",
)
seed(
    "c21_memo", "C21",
    "a one-dimensional rule that the caller rescales in place and asks for again",
    "one-dimensional rules are remembered and handed out without a copy",
    [("numint.py", "def gauss_points_1d(NumPoints):\n", "@lru_cache(maxsize=None)\ndef gauss_points_1d(NumPoints):\n"), ("numint.py", "import numpy as np\n", "from functools import lru_cache\n\nimport numpy as np\n")],
    """
import numpy as np
from sigmaepsilon.math.numint import gauss_points
r = gauss_points(3)
assert abs(r[1].sum() - 2) < 1e-12
r *= 0.5
assert abs(gauss_points(3)[1].sum() - 2) < 1e-12
assert abs(gauss_points(3, 2)[1].sum() - 4) < 1e-12
""",
)
seed(
    "c22_stale", "C22",
    "one approximator asked for two sets of the same number of target points",
    "the neighbours found for the first set of target points are used for every later set of the same size",
    [("approx/mls.py", "        self._calc_factors_and_neighbours(X_S, X_T)\n", "        if self.neighbours is None or len(self.neighbours) != len(X_T):\n            self._calc_factors_and_neighbours(X_S, X_T)\n")],
    """
import numpy as np
from sigmaepsilon.math.approx import MLSApproximator
X = np.array([[0.0, 0, 0], [1, 0, 0], [2, 0, 0], [3, 0, 0], [4, 0, 0]])
a = MLSApproximator(X, X[:, 0].copy(), k=1)
assert np.allclose(a.approximate(X[:2]), [0, 1])
assert np.allclose(a.approximate(X[2:4]), [2, 3]), a.approximate(X[2:4])
""",
)
seed(
    "c23_rows_tol", "C23",
    "rows of floats that differ in several columns by opposite amounts",
    "the differences of the columns are added up with their signs, so rows differing by opposite amounts count as equal",
    [("utils.py", "            R[i, j] = np.sum(np.abs(x[i] - y[j]))\n    return np.where(R <= tol)\n\n\n@njit(nogil=True, parallel=True, cache=__cache)\ndef indices_of_equal_rows_square_njit",
      "            R[i, j] = np.abs(np.sum(x[i] - y[j]))\n    return np.where(R <= tol)\n\n\n@njit(nogil=True, parallel=True, cache=__cache)\ndef indices_of_equal_rows_square_njit")],
    """
import numpy as np
from sigmaepsilon.math.utils import indices_of_equal_rows
x = np.array([[1.0, 2.0], [2.0, 1.0], [0.0, 0.0]])
y = np.array([[1.0, 2.0], [5.0, 5.0]])
i, j = indices_of_equal_rows(x, y)
assert i.tolist() == [0] and j.tolist() == [0], (i, j)
""",
)
seed(
    "c24_sym_rel", "C24",
    "a matrix whose antisymmetric part is small compared with its norm but not small",
    "symmetry is measured relative to the norm of the matrix",
    [("logical.py", "    return np.linalg.norm(a - a.T) < tol\n", "    return np.linalg.norm(a - a.T) < tol * max(1.0, np.linalg.norm(a))\n")],
    """
import numpy as np
from sigmaepsilon.math.logical import issymmetric
a = np.array([[1e6, 2.0], [2.0 + 1e-3, 1e6]])
assert not issymmetric(a)
assert issymmetric(a, tol=1e-2)
""",
)
seed(
    "c25_goldstein", "C25",
    "the Goldstein-Price function away from the axes",
    "the sign of one mixed term is wrong; the value and the gradient at the optimum are right",
    [("function/functions.py", "18-32*x+12*x**2+48*y-36*x*y+27*y**2", "18-32*x+12*x**2+48*y-36*x*y*y**2+27*y**2")],
    """
from sigmaepsilon.math.function.functions import GoldsteinPrice
f = GoldsteinPrice()
assert abs(f([0.0, -1.0]) - 3) < 1e-9
for x, y in ((1.0, 1.0), (2.0, -1.5), (-1.0, 0.5)):
    g = (1 + (x + y + 1) ** 2 * (19 - 14 * x + 3 * x**2 - 14 * y + 6 * x * y + 3 * y**2)) * (30 + (2 * x - 3 * y) ** 2 * (18 - 32 * x + 12 * x**2 + 48 * y - 36 * x * y + 27 * y**2))
    assert abs(f([x, y]) - g) < 1e-6 * abs(g), (x, y)
""",
)
