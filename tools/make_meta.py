"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (the single source of
the property texts).  Run by hand after a change; both files are committed."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/sigmaepsilon/math/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, technique="", note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            rec=dict(
                id=id,
                title=title,
                statement=statement,
                quantifier=dict(over=over, text=qtext),
                why_tests_cant=why,
                anchors=dict(
                    files=[S + f for f in files],
                    mechanism=[dict(name=n, where=S + w) for n, w in mech],
                    observe_at=observe or [],
                    hook_needed=None,
                ),
            ),
            technique=technique,
            note=note,
        )
    )


prop(
    "C01",
    "Changing a frame never changes the vectors and tensors described in it",
    "However the axes of a reference frame are changed (assignment, an in-place operator, a rotation or transposition in place, a NumPy universal function writing into the frame, an in-place operator that turns the frame into a frame of another class), every vector and tensor then attached to it, single or a collection, keeps its components in the ambient frame, and its own components become those in the new axes. The same holds when a vector or tensor is moved to another frame, after any sequence of such changes, and no matter how many tensors share the frame, were attached or moved away earlier or have been destroyed since. A change that is refused (axes of the wrong shape, singular axes, inadmissible axes) leaves the frame and all tensors attached to it as they were.",
    ["histories", "inputs"],
    "all sequences of frame changes and tensor attach/detach/destroy operations, for all frames (2-d, 3-d, collections of frames) and all tensor orders",
    "The tests change one frame once with one or two tensors attached; the guarantee is about every history of changes, moves and destructions, including refused ones.",
    ["linalg/frame.py", "linalg/meta.py", "linalg/tensor.py", "linalg/vector.py", "linalg/abstract.py"],
    [("axes setter transforming registered tensors", "linalg/frame.py"), ("weak registry of tensors", "linalg/meta.py"), ("in-place operators", "linalg/frame.py"), ("frame setter of tensors", "linalg/meta.py")],
    ["components of tensors, components shown in the ambient frame, axes of the frame"],
    "explicit-state breadth-first search over operation histories on the real objects, checked against a reference model after every step",
    "All histories up to the depth reported over a fixed alphabet of frame/tensor operations; exact component values compared within 1e-8 with an independent model that stores ambient values.",
)
prop(
    "C02",
    "Components in a target frame follow the change-of-basis law, both ways",
    "The components of a vector or tensor of any order shown in a target frame are those for which the combination of the target's base vectors gives the same object, in frames of any dimension and skewness; so showing back returns the original components, going through an intermediate frame gives the same as going directly, and transformation matrices compose, invert and agree whichever of the two frames they are asked from. Rotating a frame or a vector or tensor by any of the supported ways of giving a rotation (successive angles about body-fixed or space-fixed axes in any order, quaternion, matrix) has the effect of that proper orthogonal matrix, and the rotated new object equals the one rotated in place. Asking for components never changes any of the objects involved.",
    ["inputs", "histories"],
    "all tensor orders 1 to 6, dimensions 1 to 4, all ordered pairs and triples of frames, all rotation specifications, all orders of calls",
    "The tests use a couple of frame pairs, mostly orthonormal, in 3-d and one order of calls (cached contraction plans are shared between calls).",
    ["linalg/frame.py", "linalg/tensor.py", "linalg/vector.py", "linalg/tr.py", "linalg/utils.py"],
    [("direction cosine matrices", "linalg/frame.py"), ("component transformation", "linalg/tr.py"), ("einsum plan cache", "linalg/tensor.py"), ("rotation_matrix, show_vector, show_frame", "linalg/utils.py")],
    None,
    "exhaustive enumeration of frame triples x tensor orders x dimensions x rotation specifications and of call orders, on the real code",
    "Every combination of a fixed alphabet of frames (incl. skew, left-handed, badly scaled), orders, rotations and call orders against an independent change-of-basis evaluation.",
)
prop(
    "C03",
    "Tensor algebra does not depend on the frames the operands are given in",
    "Sum, difference, negation, scaling, dot product, cross product and approximate comparison of vectors and tensors represent the same objects (and the same numbers, for scalar results) whatever frames the operands are described in, and equal the operation on ambient components: sums and differences componentwise, dot products of vectors and second-order tensors as matrix products, general dot products as the contraction of the two chosen indices, cross products as usual in a right-handed orthonormal frame. A frame requested for the result changes its components only. Operands are left as they were, and mismatching shapes and kinds that cannot be combined are refused.",
    ["inputs", "configurations"],
    "all pairs of operands over all pairs of operand frames and all result frames",
    "The tests exercise operands in the same or orthonormal frames; mixed skew frames, second-order by vector products and requested result frames are only sampled.",
    ["linalg/abstract.py", "linalg/utils.py", "linalg/tensor.py", "linalg/vector.py"],
    [("operators", "linalg/abstract.py"), ("dot, cross", "linalg/utils.py")],
    None,
    "exhaustive enumeration of operand kinds x frame pairs x operations x result frames against ambient-component reference",
    "Complete product of the operand, frame, operation and result-frame alphabets.",
)
prop(
    "C04",
    "Frames and tensors own their data: no aliasing, in-place equals new",
    "Modifying an array that was used to build or to set a frame, vector or tensor, or modifying a copy of the object, or a frame the copy got from a deep copy, or the result of an operation, never changes the original object or the other way round; a shallow copy shares the frame but not the components. For every operation offered both in place and as a new object the two results are equal, the in-place one returns the very object it was called on and the other leaves its operand untouched. After any change all the ways of reading an object (components, array conversion, indexing, array methods, minimum and maximum) agree.",
    ["histories", "inputs"],
    "all pairs of (way of building, subsequent modification) and all sequences of in-place and new-object operations up to a depth",
    "Tests look at results right after a call; aliasing only shows when one of two objects is modified later.",
    ["linalg/meta.py", "linalg/frame.py", "linalg/abstract.py", "linalg/tensor.py", "linalg/vector.py"],
    [("buffer handling of the array wrapper", "linalg/meta.py"), ("copy/deepcopy", "linalg/meta.py"), ("frame copies", "linalg/frame.py")],
    None,
    "exhaustive enumeration of (construction, derivation, mutation) programs with a heap model of who may share with whom",
    "Every program of the form build-derive-mutate-observe over the listed operations, plus in-place vs out-of-place pairs.",
)
prop(
    "C05",
    "Frame classes keep their promises; dual frames, Gram matrices and volumes agree",
    "A frame that presents itself as rectangular has mutually perpendicular base vectors and one that presents itself as Cartesian has orthonormal ones, after construction and after every sequence of operators and assignments: an operation that cannot guarantee this gives a frame of a more general class or is refused, and the regularity reported by a general frame is the true one. The base vectors of the dual frame have unit product with their own partner and zero product with the others, the dual of the dual is the frame itself, the Gram matrix and the metric tensor hold the products of the base vectors, the Gram matrices of a frame and of its dual are inverses, and the absolute volume is that spanned by the base vectors. A vector or tensor described in the dual frame is the same object.",
    ["histories", "inputs"],
    "all sequences of operations on frames of the three classes, all dimensions, over an alphabet of axes including skew, left-handed, scaled and nearly regular ones",
    "Tests check the class after one operator; the class shortcuts (a Cartesian frame being its own dual) are only right if no history can leave the class invariant.",
    ["linalg/frame.py", "linalg/utils.py", "linalg/logical.py", "linalg/tensor.py", "linalg/vector.py"],
    [("class of operator results", "linalg/frame.py"), ("admissibility check of axes", "linalg/frame.py"), ("Gram, dual_frame", "linalg/utils.py"), ("frame predicates", "linalg/logical.py")],
    None,
    "explicit-state breadth-first search over operator histories of the three frame classes with class invariants checked in every state",
    "All operator histories to the reported depth from each initial frame; laws checked in every reachable state.",
)
prop(
    "C06",
    "Collections of tensors and frames behave as their items one by one",
    "Whatever is done to a collection of vectors or tensors (changing frame, changing the axes of its frame, showing components, dual, transposition, rotation, addition, subtraction, negation, scaling, copying) gives for every item what the same operation gives for that item alone, for a single frame and for one frame per item, for empty, small and large and nested collections; the result is still a collection and reports to be one. It does not depend on the number of threads or on the order in which the items are processed in parallel.",
    ["inputs", "schedules", "configurations"],
    "all collection sizes from 0, all operations, all processing orders of the parallel loops, all thread counts",
    "Tests use one collection size and the thread schedule of one run; a loop-carried dependence or a result left in a shared buffer only shows for other sizes and schedules.",
    ["linalg/tr.py", "linalg/tensor.py", "linalg/vector.py", "linalg/utils.py", "linalg/meta.py"],
    [("parallel item loops", "linalg/tr.py"), ("show_vectors", "linalg/utils.py"), ("bulk handling", "linalg/meta.py")],
    None,
    "exhaustive exploration of iteration schedules of the parallel loops (interpreted) plus exhaustive size/operation enumeration on the compiled code",
    "All permutations of the parallel iterations for small collections and all listed sizes/thread counts for the compiled loops against per-item results.",
)
prop(
    "C07",
    "Linear systems are solved, with prescribed values and reactions, or refused",
    "A returned solution satisfies the system of equations (up to rounding) for every solution method, for one and for several right-hand sides and for integer and float data; where values are prescribed the unknowns take exactly those values, the remaining equations hold, and the returned reactions are zero at the free unknowns and complete the right-hand side at the prescribed ones. Singular systems are reported by an error, never answered. The inputs are left unchanged unless the caller asked for working in place.",
    ["inputs", "configurations"],
    "all small integer matrices and right-hand sides, all subsets of prescribed unknowns, all methods",
    "Tests solve a few random well-conditioned systems; zero pivots, singular matrices and all subsets of prescribed unknowns are not sampled.",
    ["linalg/solve.py"],
    [("elimination", "linalg/solve.py"), ("reduction by prescribed unknowns", "linalg/solve.py")],
    None,
    "exhaustive enumeration of all matrices over a small integer alphabet x right-hand sides x subsets of prescribed unknowns x methods, against exact rational elimination",
    "Every matrix of the alphabet up to the stated size, all masks; exact rational arithmetic oracle.",
)
prop(
    "C08",
    "Inverses, determinants and matrix predicates are exact for every matrix",
    "The small-matrix routines return the true determinant, adjugate and inverse of every (invertible) 2 by 2 and 3 by 3 matrix, alone or in any stack of matrices, and the generalized inverses satisfy the one-sided inverse law on the side their name says and are refused exactly where no such inverse exists. The rank, definiteness, squareness and frame regularity predicates answer true exactly when the matrix has the property. Permutation symbols, unit vectors, normalization and norms, linear spacing and the points of a path between two points equal their definitions in every dimension, and matrices generated as positive definite or semidefinite are so for whatever random numbers are drawn.",
    ["inputs"],
    "all small integer matrices of every shape up to the bound, all stacks",
    "Tests use single random matrices, which are almost surely regular and have no zeros.",
    ["linalg/utils.py", "linalg/logical.py"],
    [("closed-form inverses", "linalg/utils.py"), ("generalized inverses", "linalg/utils.py"), ("predicates", "linalg/logical.py")],
    None,
    "exhaustive enumeration of all matrices over a small integer alphabet against exact integer arithmetic, plus all schedules of the parallel loops",
    "Every matrix of the alphabet and shape listed; schedules of the stacked kernels within a preemption bound.",
)
prop(
    "C09",
    "Ragged and sparse arrays keep every row through construction and conversion",
    "A ragged array built in any supported way (rows, flat data with row lengths, a matrix, an awkward array) has exactly the given rows in the given order, including empty rows, and each conversion (flat data with lengths, list, NumPy, awkward, compressed sparse rows, SciPy) gives the same rows back, padded with zeros where a rectangle is needed; stacking, uniqueness, shape, widths and size agree with the rows. A compressed sparse row matrix built from dense, SciPy, awkward or raw data has the same dense form, shape, rows and column indices, inside and outside compiled code. A list of matrices is kept as the list of these matrices. Converting changes neither the rows nor the source.",
    ["inputs", "histories"],
    "all row-length patterns up to the bound, all pairs and chains of conversions",
    "Tests convert a few handwritten patterns; empty rows, empty arrays and chains of conversions are combinatorial.",
    ["linalg/sparse/jaggedarray.py", "linalg/sparse/csr.py", "linalg/sparse/utils.py"],
    [("row bookkeeping", "linalg/sparse/jaggedarray.py"), ("compressed rows", "linalg/sparse/csr.py"), ("compiled helpers", "linalg/sparse/utils.py")],
    None,
    "exhaustive enumeration of row-length patterns and breadth-first search over chains of conversions against a list-of-lists model",
    "All patterns up to the bound, all conversion chains up to the reported depth.",
)
prop(
    "C10",
    "Set operations on integer arrays: unique values, positions, inverse, counts",
    "For every matrix and every ragged array of integers the unique values come sorted and without repetition, the positions listed for a value are exactly the positions where it stands in the array, the inverse rebuilds the array from the unique values in the original shape, and the counts are the numbers of occurrences. The answer does not depend on which of the optional results are asked for. The input is not modified.",
    ["inputs", "configurations"],
    "all integer arrays up to the bound and all combinations of options",
    "Tests compare one or two fixed arrays and options.",
    ["arraysetops.py", "linalg/sparse/jaggedarray.py"],
    [("unique2d", "arraysetops.py")],
    None,
    "exhaustive enumeration of all small integer matrices and ragged arrays x all option subsets against a dictionary model",
    "Every array of the alphabet/shape listed and all option subsets.",
)
prop(
    "C11",
    "Level structures and peripheral nodes of graphs are right for every graph",
    "The rooted level structure of a graph puts every node reachable from the root, exactly once, into the level given by its distance from the root, and nothing else; the computation ends for every graph, connected or not, and every root. The pseudo-peripheral search ends for every graph and starting node and returns nodes of the component of the start, the last level of a rooted level structure and its root, whose depth is not less than the depth seen from the start, nor than the depth seen from any node of that level. The adjacency and index conversions describe the same graph.",
    ["inputs"],
    "all labelled graphs up to the bound and all roots",
    "Tests run on one mesh graph; disconnected graphs, isolated nodes and odd labelings are not covered.",
    ["graph/graph.py", "graph/utils.py"],
    [("rooted_level_structure", "graph/utils.py"), ("pseudo_peripheral_nodes", "graph/utils.py"), ("graph to adjacency conversion", "graph/graph.py")],
    None,
    "exhaustive enumeration of all labelled graphs up to a size and all roots against breadth-first distances",
    "All labelled graphs up to the stated number of nodes, all roots, plus structured larger graphs.",
)
prop(
    "C12",
    "Functions: value, gradient, Hessian, substitution and linearity agree",
    "A function given as text or as a symbolic expression evaluates to that expression in the order of its variables; its gradient and Hessian are the partial derivatives in the same order, and substituting values for any subset of the variables gives the function of the remaining ones that agrees with the original at those values, in place or as a new object; simplification changes no value. It is reported linear exactly when the expression is affine in its variables, and its coefficients rebuild the expression. A function given by callables returns exactly what they return.",
    ["inputs", "histories"],
    "all expressions of the grammar up to the bound, all orders of the variables, all subsets and orders of substitutions",
    "Tests evaluate a handful of expressions with one variable order.",
    ["function/function.py", "function/symutils.py", "function/utils.py", "function/metafunction.py"],
    [("symbolic derivatives", "function/symutils.py"), ("subs", "function/function.py"), ("variable ordering", "function/function.py")],
    None,
    "exhaustive enumeration of expressions of a grammar x variable orders x substitution sequences against an independent expression-tree evaluator",
    "All expressions of the bounded grammar and all substitution sequences; evaluator and derivatives computed independently on a fixed grid.",
)
prop(
    "C13",
    "Equalities and inequalities hold exactly when the stated relation does",
    "A relation built from text, from an expression or from a callable with an operator, in any of the supported spellings, is fulfilled at a point exactly when left side, operator and right side are true there; a relation given without operator is an equality to zero. Building the general relation yields an equality or an inequality according to the operator, and malformed text or an operator of the wrong kind is refused. The underlying function of a relation is left side minus right side.",
    ["inputs"],
    "all operators, all spellings, all sides up to the bound, points on, above and below the boundary",
    "Tests check a few relations at one point each, hardly ever exactly on the boundary.",
    ["function/relation.py", "function/symutils.py", "function/function.py"],
    [("parsing of relations", "function/relation.py"), ("operator tables", "function/relation.py")],
    None,
    "exhaustive enumeration of operators x spellings x expressions x grid points against direct evaluation",
    "Complete product of the alphabets; points include exact boundary points.",
)
prop(
    "C14",
    "Linear programs: returned points are feasible and optimal, others reported",
    "For a linear program with a bounded feasible region the solution found satisfies every constraint (a strict inequality up to its boundary), bound and integrality requirement, the reported value is the value of the objective at that point, and no feasible point has a better one, for minimization and maximization, with dense or sparse data and for constraints written in any spelling or order. Infeasible and unbounded problems are reported as unsuccessful. (The SciPy solver is trusted with the standard form handed to it.) The problem can be solved repeatedly with the same answer.",
    ["inputs", "configurations"],
    "all objectives and constraint sets over small coefficients, both senses, all integrality patterns",
    "Tests solve a few textbook problems.",
    ["optimize/lp.py", "function/function.py", "function/relation.py"],
    [("translation to standard form", "optimize/lp.py"), ("coefficients of linear functions", "function/function.py")],
    None,
    "exhaustive enumeration of small linear programs against vertex/lattice enumeration in exact arithmetic",
    "Every program of the coefficient alphabet; exact vertex or lattice enumeration as oracle.",
)
prop(
    "C15",
    "The genetic search reports the best solution it has ever seen",
    "Whatever the random choices, the champion of the genetic search is at every moment a best point among the points evaluated so far in the sense of the search (smallest for minimization, largest for maximization), with the objective value that belongs to its coordinates; it never gets worse from one generation to the next, and the final answer reported is that champion. With elites kept, the best member of the population does not get worse either. The search never changes the objective's values, and starting again forgets earlier results.",
    ["schedules", "histories", "inputs"],
    "all outcomes of the random number generator, all numbers of cycles, both senses, all sequences of evolving, solving and restarting",
    "Tests run one random search and look at the final value with a tolerance; that a champion is never lost is a statement on every random outcome.",
    ["optimize/ga.py", "optimize/bga.py", "optimize/state.py"],
    [("champion update", "optimize/ga.py"), ("selection, crossover, mutation", "optimize/bga.py")],
    None,
    "stateless exploration of the real code under a controlled random source: all choice sequences up to a deviation bound, with a monitor on the objective",
    "All executions within the deviation bound for tiny populations, the objective recorded call by call.",
)
prop(
    "C16",
    "Populations stay well formed through selection, crossover and mutation",
    "Whatever the random choices and the settings (population size, length, elitism as a number, a fraction or off, probabilities), every generation has exactly the population size asked for (rounded up to a multiple of four), made only of bits, and every decoded point lies within the given ranges, where the all-zeros and all-ones codes give the lower and upper ends and codes are equally spaced. Crossover produces children position by position from their two parents, mutation flips bits only, and the elites of a generation are its best members and survive unchanged into the next. Elitism and iteration limits that make no sense are refused.",
    ["schedules", "inputs", "configurations"],
    "all outcomes of the random number generator, all settings up to the bound",
    "Tests run the search with one or two settings and a random seed.",
    ["optimize/ga.py", "optimize/bga.py"],
    [("populate, crossover, mutate, select", "optimize/bga.py"), ("decode, divide", "optimize/ga.py")],
    None,
    "stateless exploration under a controlled random source plus exhaustive enumeration of genotypes and settings",
    "All executions within the deviation bound; all genotypes for the decode law.",
)
prop(
    "C17",
    "The genetic search stops when told and counts what it did",
    "The search stops after at most the allowed number of iterations and not before the required minimum, and in between as soon as the champion is older than the allowed age; the status says which of the two happened, or that an error occurred, in which case the error reaches the caller. The numbers of iterations of the search and of objective evaluations reported are those that took place, and the state of the search after continuing, restarting or reading it out describes that search. Reading the results or the population any number of times changes nothing.",
    ["schedules", "histories", "configurations"],
    "all combinations of limits, all random outcomes up to the bound, all sequences of operations on the search",
    "Tests look at one run with default limits.",
    ["optimize/ga.py", "optimize/state.py"],
    [("stopping criteria", "optimize/ga.py"), ("state object", "optimize/state.py")],
    None,
    "stateless exploration under a controlled random source over all limit combinations and operation sequences, with an instrumented objective",
    "All limit combinations and operation sequences to the bound against a counting model.",
)
prop(
    "C18",
    "Least squares approximations reproduce polynomials of their degree",
    "Data sampled from a polynomial of at most the degree of the approximation are reproduced everywhere by the (weighted, moving) least squares approximation, in one, two and three dimensions, for scalar and for vector valued data, together with the first and second derivatives asked for. This holds for every set of sample points that determines the polynomial, for every weight function that is positive there, and in whatever order the samples are listed.",
    ["inputs", "configurations"],
    "all monomials of the degree, all dimensions, degrees, derivative orders, sample layouts, weights",
    "Tests check one polynomial per dimension at the sample points.",
    ["approx/ls.py", "approx/mls.py", "approx/ls_approx.py", "approx/ls_poly.py", "approx/ls_preproc.py", "approx/functions.py"],
    [("moment matrix", "approx/ls_approx.py"), ("bases and derivatives", "approx/ls_poly.py"), ("preprocessing", "approx/ls_preproc.py"), ("moving weights", "approx/mls.py")],
    None,
    "exhaustive enumeration of monomial basis x dimension x degree x derivative order x sample layout x weight (complete by linearity in the data)",
    "Complete over the polynomial space by linearity for each layout/weight/evaluation point of the alphabet.",
)
prop(
    "C19",
    "Least squares fits minimize the weighted error, with true derivatives",
    "The plain and the weighted least squares fit to arbitrary data is the polynomial of the chosen degree with the smallest (weighted) sum of squared errors, the moving fit is that fit with the weights centred at the evaluation point, and the derivatives returned with a plain or moving fit are the derivatives of the returned approximation. Weight functions return their value, gradient and Hessian consistently, a constant one being constant inside its support and zero outside. Fits sharing a weight function, evaluated in any order, do not influence each other.",
    ["inputs", "histories"],
    "all data vectors (by linearity: all unit data vectors), all orders of evaluation calls on shared objects",
    "Tests compare the fit of smooth data with loose tolerances; the weight object is mutable and shared.",
    ["approx/ls.py", "approx/mls.py", "approx/ls_approx.py", "approx/ls_poly.py", "approx/functions.py"],
    [("weighted moment matrix", "approx/ls_approx.py"), ("derivatives of the inverse moment matrix", "approx/mls.py"), ("weight functions", "approx/functions.py")],
    None,
    "exhaustive enumeration of unit data vectors (linearity) x layouts x weights and of all call orders on shared weight objects, against independent normal equations and difference quotients",
    "Complete over data by linearity for each layout/weight of the alphabet; all call orders to the bound.",
)
prop(
    "C20",
    "Lagrange polynomials interpolate exactly, with true derivatives",
    "The generated one-dimensional Lagrange polynomials are one at their own node and zero at all others, add up to one, and the further returned functions are their derivatives, for every set of distinct nodes and every way of asking (coordinates, indices, number of nodes; symbolic or numeric). The interpolant takes the given values at the given points and reproduces every polynomial of sufficiently low degree. Generating for one set of nodes never influences the result for another.",
    ["inputs", "histories"],
    "all node sets over a grid up to the bound, all options, all orders of calls",
    "Tests check two or three node sets.",
    ["approx/lagrange.py"],
    [("gen_Lagrange_1d", "approx/lagrange.py"), ("approx_Lagrange_1d", "approx/lagrange.py")],
    None,
    "exhaustive enumeration of node subsets of a grid x option combinations x call orders against exact rational polynomials",
    "All subsets of the grid up to the stated size, in all node orders for the small ones.",
)
prop(
    "C21",
    "Gauss quadrature integrates every polynomial of its degree exactly",
    "A rule with n points per direction integrates every monomial of degree up to 2n-1 in each direction exactly over the interval, square or cube from -1 to 1, for every combination of point numbers per direction. The points are distinct, strictly inside the domain and symmetric, the weights are positive and belong to the point with the same index, and asking again for the same or another rule gives the same or the right answer whatever the caller did with earlier results. More than three directions are refused.",
    ["inputs", "histories"],
    "all numbers of points in 1, 2 and 3 directions up to the bound, all monomials of the degree, all call sequences",
    "Tests integrate one function with a few rules.",
    ["numint.py"],
    [("gauss_points", "numint.py")],
    None,
    "exhaustive enumeration of rules and of all monomials up to the exactness degree (complete by linearity), and of call/mutation histories",
    "Complete over the polynomial space by linearity for each rule up to the bound.",
)
prop(
    "C22",
    "Nearest neighbours are the nearest, and averages use exactly them",
    "The neighbours returned for a point are k samples with none of the others closer, in increasing order of distance, with the true distances when asked for; within a maximal distance only samples not farther than that are returned and the missing ones are marked, and a sample is a neighbour of itself when the samples are asked for their own neighbours. The neighbour based approximation of data at a point is the mean of the data of exactly these neighbours, for scalar and for vector data, so constant data are reproduced exactly; a point without neighbours gets no number. The inputs are never modified, and repeated queries agree.",
    ["inputs", "configurations"],
    "all sample sets over a small grid, all k, all distance limits, all dimensions 1 to 3",
    "Tests run on random points, without ties, limits or missing neighbours.",
    ["knn.py", "approx/functions.py", "approx/mls.py"],
    [("k_nearest_neighbours", "knn.py"), ("neighbour averaging", "approx/functions.py")],
    None,
    "exhaustive enumeration of sample sets on a grid x k x distance limits x query points against brute force",
    "Every sample set of the grid alphabet, ties treated by comparing distances, not indices.",
)
prop(
    "C23",
    "Array utilities equal their definitions for every shape and content",
    "Repeating, tiling, flattening, reshaping to at least so many dimensions or to matrix form, clipping, finding positions, counting columns, finding equal rows, repeating along the diagonal, rescaling to a range, minimum and maximum, removing axes of length one from results, histograms and bin centres give for every admissible array, of any shape, size, memory layout and number type, exactly what their definitions say. They leave their input unchanged except where working in place is the purpose.",
    ["inputs"],
    "all small arrays, shapes, orders, number types and memory layouts",
    "Tests mostly call these helpers once with one fixed array.",
    ["utils.py", "hist.py", "decorate.py"],
    [("array helpers", "utils.py"), ("histogram", "hist.py"), ("squeeze", "decorate.py")],
    None,
    "exhaustive enumeration of small arrays over integer alphabets x shapes x dtypes x memory layouts against plain-Python definitions",
    "Every array of the alphabet/shape listed.",
)
prop(
    "C24",
    "Predicates on arrays and values answer exactly what they ask",
    "The predicates for arrays of floats, integers and booleans of every precision, for one-dimensional float and integer arrays, for being none or false, and for symmetry, positive definiteness and semidefiniteness of matrices are true exactly when the value has the property. Closeness needs all the tolerances given, is symmetric in the roles documented and agrees with its elementwise form. No predicate changes its argument.",
    ["inputs"],
    "all values of a zoo of kinds, precisions and shapes; all small symmetric and unsymmetric integer matrices; all tolerance combinations",
    "Tests check one true and one false example per predicate.",
    ["logical.py"],
    [("predicates", "logical.py")],
    None,
    "exhaustive enumeration of a value zoo and of all small integer matrices against exact definitions",
    "Complete product of values and predicates; exact minors for definiteness.",
)
prop(
    "C25",
    "Benchmark functions attain their stated optimum; results are reproducible",
    "Each predefined test function equals its textbook definition at every point, its gradient and Hessian are its derivatives, and its stated optimum is its minimum. Everything computed from symbolic expressions without an explicit order of variables, and all other results of the library apart from the random search, are the same in every process, whatever the hash seed. Repeating a call in one process after other calls gives the same result.",
    ["inputs", "configurations", "schedules"],
    "all points of a grid, all parameter values, all hash seeds up to the bound, all orders of calls",
    "Tests run in one process with one hash seed.",
    ["function/functions.py", "function/testfunction.py", "function/function.py", "optimize/lp.py", "function/symutils.py"],
    [("test functions", "function/functions.py"), ("variable ordering", "function/function.py")],
    None,
    "exhaustive grid/parameter enumeration, plus enumeration of interpreter hash seeds comparing complete result digests between processes",
    "All grid points and parameters; all hash seeds of the listed range must give byte-equal digests.",
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["rec"]) + "\n")
    checks, na = [], []
    for p in P:
        id = p["rec"]["id"]
        if os.path.exists(os.path.join(HERE, "mc", "checks", id.lower() + ".py")):
            checks.append(
                dict(
                    property=id,
                    quick_cmd=f"./run.sh {id} quick",
                    thorough_cmd=f"./run.sh {id} thorough",
                    evidence_file=f"evidence/{id}.json",
                    technique="model checking: " + p["technique"],
                    level="model_checking",
                    level_note=p["note"]
                    + " Bounded: says nothing beyond the stated alphabets and depths; trusts NumPy/SciPy/SymPy where they are the oracle or a dependency.",
                )
            )
        else:
            na.append(dict(property=id, reason="check not built yet"))
    man = dict(
        version=1,
        setup_cmd="./setup.sh",
        hooks=dict(guard="none", enable="no hooks are needed: the checks drive the public API and intercept NumPy's random functions from outside", source_commits=[]),
        checks=checks,
        not_applicable=na,
        notes="Every check imports the package from /repo/src, compiles the numba kernels afresh into a scratch cache that it removes, and explores in child processes. See DESIGN.md.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
