"""What decides each property."""
# id -> dict(verus=[templates], sym=[units], kani=[harnesses], hx=(crate, quick budget, thorough budget), files=[...], assumptions=[...], rule=...)
import json, os

_dir = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def files_of(pid):
    with open(os.path.join(_dir, "properties.jsonl")) as f:
        for l in f:
            p = json.loads(l)
            if p["id"] == pid:
                return p["anchors"]["files"]
    return []


EXACT = "machine floating-point numbers treated as mathematical reals in the proofs"
LITS = "literals equal to the machine value of roots of 2, 3, 6, of 1/3, 2/3, 1/6, 4/3, pi and its root are read as these reals, others as their decimal value"
GENERIC = "an equality test between different expressions is taken as false (counted as generic in the evidence)"
STAT = "sx/rand_distr, sx/num_traits: stand-ins of the external samplers (parameter checks only) and number traits"
FUNCS = "functions given by the caller: an arbitrary deterministic function whose calls are recorded; may fail at any call"
VEC = "std Vec push/clear/clone/index/len and vec! (vstd specifications)"



def bounded(crate, quick, note, rule):
    return dict(hx=(crate, quick, 90), level="exploration", technique="executable contract on the unmodified crate (bounded)",
                level_note="Bounded: " + note, rule=rule + "; distinct by the drawn values")


def proved(templates, crate, quick, note, rule, assumptions, bounded_parts):
    return dict(verus=templates, hx=(crate, quick, 60),
                technique="Verus contracts and loop invariants on the extracted functions; executable contract for failing inputs",
                level_note=note, rule=rule + "; distinct by the drawn values", assumptions=list(assumptions), bounded=list(bounded_parts))


def symbolic(spec, crate, quick, note, rule, bounded_parts, extra=()):
    return dict(sym=[spec], hx=(crate, quick, 60),
                technique="contracts discharged as algebraic identities by exact symbolic execution of the converted source; the same contracts executed on the unmodified crate for failing inputs",
                level_note=note, rule=rule + "; distinct by the drawn values", assumptions=[EXACT, LITS, GENERIC] + list(extra), bounded=list(bounded_parts))


BLAS = "sx/blas: exact stand-ins of the BLAS/LAPACK routines (elimination with the largest exactly comparable pivot); sx/stubs: stand-ins of number formatting, approximate-equality checks and of the sparse solver"


def sized(spec, crate, quick, note, sizes, rule, bounded_parts, extra=()):
    """all real data, but only the stated sizes: not counted as proved"""
    d = symbolic(spec, crate, quick, note + " Sizes: " + sizes, rule, bounded_parts, extra)
    d["level"] = "other"
    d["explanation"] = ("Every obligation is discharged for all real data on all paths by exact symbolic execution of the converted current source, "
                        "but only for the listed sizes (" + sizes + "); larger sizes are covered by the executable contracts only. Not counted as proved.")
    return d


PROPS = {
    "C01": dict(
        verus=["C01"], hx=("sparse", 6, 60),
        technique="Verus contracts on the extracted triplet store; executable contract for failing inputs",
        level_note="Constructors, insertion, reset, dense conversion, assign/add, block of Lagrange multipliers and count of the whole matrix proved for all matrices and histories (invariant kept by every operation). Complex values: bounded executable contract.",
        rule="a case is a matrix and a history of insertions; distinct by the drawn values",
        assumptions=[EXACT, VEC, "x.iter_mut().map(|x| *x = v).count() writes every element", "i32::try_from(..).unwrap() panics if out of range",
                     "number of rows times columns of a dense matrix, twice the number of entries and rows plus columns of a block fit in usize"],
        bounded=["complex element type: random matrices up to 40x40"],
    ),
    "C02": dict(
        verus=["C02"], hx=("sparse", 8, 60),
        technique="Verus contracts and loop invariants on the extracted conversions (counting sort by row, summation of duplicates, counting sort by column); executable contract for failing inputs",
        level_note="from_coo and update_from_coo of both compressed kinds proved for all triplet stores, sizes, storage kinds and refresh histories: every stored group holds each position of the source exactly once with the sum, strictly increasing indices, zero-based monotone pointers; a refused refresh changes nothing. Complex element type bounded.",
        rule="a case is a triplet list (and refresh history); distinct by the drawn values",
        assumptions=[EXACT, VEC, "slice::sort_by sorts and permutes (only used by the row form)", "usize::max"],
        bounded=["complex element type: random triplet lists up to 50x50"],
    ),
    "C03": dict(
        verus=["C03"], hx=("sparse", 8, 60),
        technique="Verus contracts and loop invariants on the extracted conversions and constructors; executable contract for failing inputs",
        level_note="Row form to column form and back, the constructors from raw arrays and the dense conversions proved for all well-formed matrices and all raw arrays. Complex element type bounded.",
        rule="a case is a matrix or a set of raw arrays; distinct by the drawn values",
        assumptions=[EXACT, VEC],
        bounded=["complex element type: random matrices up to 50x50"],
    ),
    "C04": dict(
        verus=["C04"], hx=("sparse", 6, 60),
        technique="Verus contracts on the extracted products, with a lemma linking the accumulation to the dense product",
        level_note="All five real products proved equal to alpha times dense meaning times vector, for all well-formed matrices, sizes and storage kinds; complex element type bounded.",
        rule="a case is a matrix, a scalar and vectors; distinct by the drawn values",
        assumptions=[EXACT, VEC],
        bounded=["complex element type: random matrices up to 50x50"],
    ),
    "C05": dict(
        hx=("sparse", 10, 60), level="exploration",
        technique="executable contract on the unmodified crate (write, read back, damaged files)",
        level_note="Bounded: random matrices up to 12x12, all tolerances/handlings, one-line damages. Text formatting and file input are outside the verifier's language.",
        rule="a case is a matrix with tolerance or a damaged file; distinct by the drawn values",
    ),
    "C06": dict(symbolic("lab", "sparse", 6, "Sparse form proved for any function, sizes, storage kinds and previous content: exactly one entry per position (of the triangle), each the forward difference quotient of its variable alone times the factor; the state is restored, also after a failure. Dense form: equals the derivative of every polynomial of degree four in one, two in each of two, one in each of three variables.",
                 "a case is a system, a state and a function", ["dense form with more than three unknowns, rounding (restored state compared bit by bit): up to 12 variables with an arbitrary (hashed) function"],
                 [VEC, FUNCS, "ndim squared plus ndim below usize::MAX"]),
                verus=["C06"], technique="Verus contracts and loop invariants on the extracted functions; dense form discharged by exact symbolic execution for small sizes; executable contract for failing inputs"),
    "C07": proved(["C07"], "lab", 6, "Constructors (zero, filled, identity, diagonal, from nested arrays, lower and upper triangle, equally spaced), access, scaling, rows, columns and transposition of the real matrix and vector proved for all sizes and values.",
                  "a case is a container with a history of accesses",
                  [EXACT, VEC, "copy_from_slice panics on different lengths", "VxArr1, VxArr2: nested arrays are rectangular tables (traits AsArray1D, AsArray2D)", "number of rows times columns fits in usize"],
                  ["mutable element access through the index operators, closures (initialized, mapped), text files, complex and integer element types, dense views: matrices and vectors up to 12 entries a side, histories up to 40 operations"]),
    "C08": sized("lab", "lab", 10, "Every kernel on real and complex vectors and matrices equals its definition for all values, including band storage, norms and refused sizes.", "vectors up to 21 entries (all remainders of the unrolled loops), matrices up to 5 a side, norms up to 4 entries.",
                 "a case is a kernel with operands", ["vectors up to 60 entries, matrices up to 12x12 including empty ones; the routines of the external BLAS themselves"], [BLAS]),
    "C09": proved(["C09"], "lab", 5, "Sorting of two, three and four numbers (ordered permutation), minimum and maximum, valleys and peaks proved for all values and lengths.",
                  "a case is a sequence of numbers", [EXACT, VEC, "a slice is shorter than usize::MAX"],
                  ["index sorts and index of the largest magnitude, NaN values: all orders and ties; random sequences up to 30 values"]),
    "C10": sized("lab", "lab", 8, "Inverse times matrix is the identity and the determinant is the expansion for all entries; elimination with partial pivoting of every pivot order solves the system; full pivoting.", "matrices up to 3x3 in closed form, fixed-size elimination of 2 to 4 unknowns, full pivoting of one and two unknowns, factorised inverse of 4x4.",
                 "a case is a matrix with right-hand side", ["full pivoting of three and more unknowns, factorised systems up to 6x6, nearly singular matrices"], [BLAS]),
    "C11": proved(["C11"], "lab", 8, "Any function and interval: the bracketing root finder evaluates only inside, returns a point inside where the function is zero or changes sign within the tolerance, refuses ends of equal sign. Sampled data: every root returned lies in the sampled interval and the eigenproblem solved is that of the colleague matrix of the interpolant.",
                  "a case is a function with an interval", [EXACT, VEC, FUNCS, "mat_eigenvalues: assumed not to fail, nothing assumed about the values"],
                  ["one root per sign change of the sampled function, rounding, refinement: random continuous and arbitrary (hashed) functions, intervals and tolerances"]),
    "C12": proved(["C12"], "lab", 8, "Any function: successful bracketing returns strictly ordered points with the middle value not above the ends, values are those of the function; the minimiser evaluates only inside the bracket, returns a point inside with a value not above the interior point's, and for a unimodal function within the tolerance of the minimiser.",
                  "a case is a function with a starting point or bracket", [EXACT, FUNCS, "the expansion factor is positive"],
                  ["rounding: random smooth and arbitrary (hashed) functions, starting points and brackets"]),
    "C13": proved(["C13"], "stat", 5, "Constructor, insertion, reset and index search proved for all lists of stations, values and histories.",
                  "a case is a list of stations with a history", [EXACT, VEC, "counters stay below usize::MAX"],
                  ["NaN and infinities, text output: up to 14 stations, histories up to 6 calls"]),
    "C14": sized("stat", "stat", 5, "Mean, deviation, minimum, maximum, quantiles at every probability, quartiles, range and outliers equal their definitions for all values, orders and ties.", "up to 5 values in every order, 6 values in some.",
                 "a case is a data set", ["data sets up to 40 values"], [STAT]),
    "C15": symbolic("stat", "stat", 6, "All parameters and arguments: the density is not negative and equals the exact derivative of the cumulative distribution on every branch, both are zero outside of the support, mean and variance are the closed forms of the distribution, parameters from mean and deviation reproduce both, invalid ones are refused.",
                    "a case is a distribution with arguments", ["limits of the cumulative distribution; samples"], [STAT, "the closed forms of mean and variance are those of the distribution (textbook)", "erf: odd with its derivative; gamma: by name only; random sampling not executed"]),
    "C16": symbolic("tensor", "tensor", 6, "All component values, representations and index combinations: conversions between standard and compact components and back, access, refusal of data without the declared symmetry, preservation of inner products.",
                    "a case is a tensor with its representation", []),
    "C17": symbolic("tensor", "tensor", 6, "All component values and representations: linear combination, products, trace, determinant, inverse, square, deviator, decomposition, dyads.",
                    "a case is one or more tensors", ["deviator of components with very different magnitudes (rounding repair branch)"]),
    "C18": symbolic("tensor", "tensor", 6, "All component values and representations: linear combination, dyads, double contractions, special dyads, elasto-plastic update, constant tensors, third-order products; inverse of diagonal tensors.",
                    "a case is one or more tensors", ["inverse of a general fourth-order tensor (elimination with pivoting): diagonally dominant and singular tensors"]),
    "C19": symbolic("tensor", "tensor", 8, "All component values where the derivative exists: every first and second derivative equals the exact derivative of the corresponding function of the crate with respect to every component.",
                    "a case is a tensor", []),
    "C20": symbolic("tensor", "tensor", 6, "All moduli and strains: Hooke's law, both parametrisations, plane stress, plane strain, out-of-plane strain, compliance is the inverse.",
                    "a case is a pair of constants with a strain", []),
    "C21": symbolic("tensor", "tensor", 6, "All principal values and components: invariants, octahedral coordinates from the angle, composition from projectors. Iterative eigen-decomposition and the arc cosine variant are bounded.",
                    "a case is a tensor or a set of principal values", ["eigen-projectors (iterative): random, repeated and badly scaled symmetric tensors", "construction from the lode invariant (arc cosine)"]),
    "C22": symbolic("ode", "ode", 6, "The current tables of all explicit methods: consistency, row sums, order conditions of every rooted tree up to the order of the method and of the embedded method, with exact rational arithmetic. The implicit method is bounded.",
                    "a case is a method with a rooted tree", ["coefficients of the implicit method: machine precision"], [BLAS]),
    "C23": dict(symbolic("ode", "ode", 8, "One step of every explicit method proved for any right-hand side, number of equations, table, state and step: each stage is the slope at the tabulated point, the new state, the embedded difference, its scaling and norm are the stated ones, the first stage is evaluated or reused as stated; forward Euler; dense output coefficients and evaluation, ends and slopes at both ends (last stage at the end). Table values and the reused stage: by exact symbolic execution of every method, two steps of one equation.",
                 "a case is a method with the values returned by the right-hand side", ["interior accuracy of the dense output of degree 8: polynomials on machine numbers", "two equations on machine numbers"],
                 [BLAS, VEC, FUNCS, "vec_copy, vec_add, vec_update: trusted contracts in the step proof (symbolic under C08)", "the error scales are positive: absolute and relative tolerance positive", "tables of the dense output are unknown numbers in the proof"]),
                verus=["C23"], technique="Verus contracts and loop invariants on the extracted step and dense output; tables and methods by exact symbolic execution; executable contract for failing inputs"),
    "C24": proved(["C24"], "ode", 12, "The control loop of the solver proved for any method, problem, parameters and number of steps: acceptance, rejection, retry, time and state, step sizes, clipping at the end, number of equal steps, counters and recorded output follow the control law; parameter validation and parameter changes; acceptance and rejection of the explicit methods (formula, clamps, smaller step after rejection); stiffness detection; acceptance and rejection of Radau (formula with the predictive controller, clamps, reuse of the Jacobian, collocation polynomial for the next start).",
                  "a case is a method with a problem and parameters",
                  [EXACT, VEC, FUNCS, "the integrator behind the control loop is an arbitrary one that records its calls (its own contract under C23, C26)", "powf of a positive number: positive, at least one for base at least one and non-negative exponent (and the mirrored fact)",
                   "dense output, step output and stopwatches are trusted recorders; counters stay below usize::MAX"],
                  ["end point reached to rounding, whole solves on machine numbers: eight families of right-hand sides, up to three equations, random tolerances, step parameters and intervals"]),
    "C25": bounded("ode", 12, "eight families of right-hand sides, up to 12 stations, reuse of one output object.", "a case is a method with a problem and an output configuration"),
    "C26": proved(["C26"], "ode", 15, "Backward Euler and Radau steps proved for any system, size, mass matrix, Jacobian and linear solver. Backward Euler: a step is only returned when its scaled residual is below the Newton tolerance. Radau: a step is only returned after an iteration whose three stages were evaluated at the collocation points, whose residuals of the transformed equations (with the mass matrix) went to the two linear systems, whose corrections were added and transformed back, and whose scaled correction passed the convergence test; otherwise the step is reported as diverging with a factor in (0,1) or as an error; the error estimate follows the published formula with its second form after a rejection.",
                  "a case is a problem with parameters",
                  [EXACT, VEC, FUNCS, "the linear solver is an unknown function of matrix and right-hand side; the concurrent factorisation and solve do what the serial ones do; assembling the matrices keeps the accepted values and sizes (frame only)",
                   "the numerical Jacobian gives the state back (proved under C06)", "coefficient tables of Radau are unknown constants in the proof (their values: order conditions and solutions in the executable contract)",
                   "vec_copy, vec_update, complex_vec_zip, mass times vector: trusted contracts (symbolic under C08; matrix under C02)", "counters stay below usize::MAX"],
                  ["assembled iteration matrices, coefficient values, mass matrices, repeated solves on machine numbers: eight families of right-hand sides, up to three equations"]),
    "C34": dict(kani=["lab"], hx=("lab", 8, 60),
                technique="contracts decided for every machine value by bit-precise checking (Kani) of the unmodified source files; the loop of the modulo cut at its invariant mechanically; executable contract for failing inputs",
                level_note="Split, integer tests, decomposition, composition, sign, step, ramp and box functions decided for all 64-bit values and exponents, no unwinding bound (loop-free). Modulo: every pass of the loop subtracts exactly a power-of-two multiple of the divisor, for all values; the result is the last state with the sign of the dividend.",
                rule="a case is one or two machine numbers; distinct by the drawn values",
                assumptions=["exact multiples of the divisor removed pass by pass add up to a multiple of the divisor and the loop ends because the remainder decreases (induction over passes, not machine-checked)",
                             "one machine arithmetic: IEEE 754 binary64, round to nearest"],
                bounded=["replay of failing values and smoothed elementary functions: random bit patterns of all classes"]),
    "C35": sized("lab", "lab", 8, "All arguments inside and outside of [-1,1] and at both ends: polynomial values follow the recurrences and the derivative functions return their exact derivatives; Chebyshev nodes are exact zeros, symmetric and increasing.", "degrees up to 24 (Chebyshev) and 32 (Legendre), ends up to 40.",
                 "a case is a degree with arguments", ["Legendre nodes and weights (iterative), adaptive quadrature, degrees up to 40: executable contract", "arguments closer than 1e-11 to the ends"], [BLAS, "cos(n acos x), cosh(n acosh x) and the sines are expanded by the addition theorem; cosines of rational multiples of pi are algebraic numbers"]),
    "C36": sized("lab", "lab", 10, "All polynomials, data, intervals, knots and arguments: interpolants reproduce polynomials and data on every grid and weight kind, derivative matrices are exact, B-spline values and derivatives equal the recurrence, are not negative and sum to one.", "degrees up to 8 (everywhere: 5), series up to 12 terms, splines of degree 1 to 3 with up to 9 knots.",
                 "a case is an interpolant with a polynomial or a knot vector with an argument", ["degrees up to 24 (10 for uniform nodes), splines up to degree 5, adaptive and general-data series", "arguments closer than 1e-12 to a node"], [BLAS, "cosines of rational multiples of pi are algebraic numbers"]),
    "C37": dict(symbolic("lab", "lab", 8, "Line search, Newton solver and straight-line fit proved for all functions, numbers of trials and iterations, unknowns and points: exactly the first acceptable step is returned, Newton returns only states whose residual is within the tolerance, the fit is the line of least squares.",
                 "a case is a function with parameters", ["numerical derivative helpers (all polynomials of the stated degree, by symbolic execution)", "up to 30 trials and 40 iterations, four unknowns on the machine numbers"],
                 [BLAS, VEC, FUNCS, "vec_norm, vec_add, solve_lin_sys and the numerical Jacobian: trusted contracts in the Newton proof (bounded under C06, C08, C10)"]),
                verus=["C37"], technique="Verus contracts and loop invariants on the extracted functions; contracts discharged by exact symbolic execution for small sizes; executable contract for failing inputs"),
    "C28": proved(["C28"], "pde", 6, "Every function of both grids proved for all sizes and coordinates: node numbers and index pairs determine each other, constructions accept exactly the valid arguments, coordinates, spacings, sides, corners and boundary lists in order, loops visit every node once.",
                  "a case is a coordinate list or an interval with a number of nodes",
                  ["product of the numbers of nodes below the machine limit", "coordinates treated as real numbers (rounding is covered by the executable contract)",
                   "functions given by the caller replaced by a recorder of the calls", "Chebyshev-Gauss-Lobatto points: only their number is assumed (values under C35)", "Vector::from copies the values (proved under C07)"],
                  ["rounding of uniform coordinates", "values of Lobatto nodes"]),
    "C29": sized("pde", "pde", 12, "All coordinates, coefficients and boundary values: matrices and right-hand sides equal the difference formulas, both partitions, exact on polynomials.", "grids of 2 to 4 nodes per axis.",
                 "a case is a grid with boundary conditions and coefficients", ["grids up to 8 nodes per axis"], [BLAS]),
    "C30": symbolic("pde", "pde", 8, "All coefficients of the boundary curves (degree four, which is general for values and first two derivatives) and all arguments: boundaries reproduced, first and second derivatives equal the exact derivatives of the mapping.",
                    "a case is a set of boundary curves or faces with arguments", [], [BLAS, "boundary data given as polynomials with free coefficients"]),
    "C31": symbolic("pde", "pde", 6, "All base vectors with a Jacobian above the crate's limit: covariant and contravariant vectors, metric coefficients, Jacobian and connection coefficients satisfy their defining identities.",
                    "a case is a set of base vectors", [], [BLAS, "square of the Jacobian above 1e-15"]),
    "C32": proved(["C32", "C32a"], "nonlin", 10, "Target tests, first step, status and the whole control loop of the continuation (refusal of inconsistent targets, accept/reject, stop at the target, step lists, precise component stop, counters, state after a failure) proved for every target, option, number of steps and method behind the interface; step of the natural method (parameter never beyond the target and equal to it when reached, success only after convergence at the point returned) and step of the pseudo-arclength method (success only after convergence of both equations at the point returned, which is not beyond the target or is held at it by the additional equation) proved for every system.",
                  "a case is a system with a start, a target and options",
                  ["finite floating-point arithmetic treated as exact", VEC, "slice::to_vec on numbers", "derived equality of Status", "vec_norm, vec_all_finite, arctangent, logger and stopwatches: nothing assumed but the frame", "iteration control with the contracts proved for C33; functions of the problem, linear solver, assembly of the Jacobian matrices, new tangent vector and vec_copy, vec_add, vec_update, vec_inner: only dimensions and copies assumed", "the methods behind SolverTrait and the recorder of results are represented by recorders of their calls: a step succeeds or not, an accepted point is the one left in the workspace, control counters are left alone", "the step size controller changes only its own history"],
                  ["tangent vectors of the pseudo-arclength method and sizes of the residuals in floating-point numbers: eight families of equations, up to four unknowns, random targets, directions, methods and step options"]),
    "C33": proved(["C33"], "nonlin", 8, "Every decision function of the iteration control (reset, residual and correction analysis, convergence, failure capture) proved for all states, tolerances and values including NaN and infinities.",
                  "a case is a sequence of residuals and corrections with tolerances and limits",
                  ["finite floating-point arithmetic treated as exact; infinities and NaN follow IEEE comparisons, arithmetic on infinities uninterpreted", VEC, "vec_norm: trusted maximum norm", "counters stay below usize::MAX; absolute tolerance of the correction is positive"],
                  ["use of the decisions within the solver iterations: prescribed residual and correction sequences, up to four unknowns, up to 12 iterations and 4 steps"]),
    "C38": sized("pde", "pde", 5, "All assignments and values: the state after any assignment follows from the state before (induction over histories), nodes and values of every kind.", "grids of 2 to 3 nodes per axis.",
                 "a case is a grid with a history of assignments", ["grids up to 7 nodes per axis"], [BLAS]),
    "C39": sized("pde", "pde", 12, "All polynomials, intervals, conductivities and boundary kinds: the exact polynomial satisfies every equation of both assembled systems, the flow is exact, and the solution returned equals the polynomial.", "2 to 7 nodes on a line, 2 to 4 per axis of a rectangle, 3 to 4 per axis of a straight mapped domain, 5x5 on one curved domain; solutions for one interval and set of coefficients.",
                 "a case is a domain with a polynomial", ["up to 14 nodes per axis, random curved domains"], [BLAS, "cosines of rational multiples of pi are algebraic numbers"]),
    "C27": dict(
        verus=["C27"], hx=("pde", 4, 60),
        technique="Verus contracts on the extracted numbering functions; executable contract for failing inputs",
        level_note="All totals, lists and histories: representation invariant established by the constructor and kept by re-computation, proved on the current source text.",
        rule="a case is a number of equations and a history of prescribed lists; distinct by the drawn values",
        assumptions=["std HashSet insert/contains (vstd axioms)", "std Vec push/clear/clone/index (vstd specifications)",
                     "(0..n).collect() yields 0,1,...,n-1"],
    ),
}

NOT_APPLICABLE = {
    "C40": "the results are computed by foreign code (UMFPACK, LAPACK); no contract on the Rust side can decide the residual",
    "C41": "the truth of the approximation tables is transcendental; no contract on the Rust side can decide the accuracy",
}
