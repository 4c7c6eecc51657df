M = "ntl-extras/mat_lzz_pX_extra/src/"
CLAIMED = [
 dict(id="C01", title="The caller's modulus is in force again when an operation returns",
  statement="Whatever operation of the library is called, on any input and through any exit (normal return or exception), the prime modulus that was current for the calling thread when it was called is current again when it returns. Operations that compute modulo auxiliary primes do so invisibly to the caller.",
  over=["inputs", "histories"], text="Every public operation, every input (including degenerate ones that take early exits), every sequence of calls.",
  why="A test sees a stale modulus only if it uses the same field right after the one call, input and exit path that leaks it; the suite runs each operation on a few generic random inputs.",
  files=[M + "mat_lzz_pX_multiply_3_primes.cpp", M + "mat_lzz_pX_lmultiplier.cpp", "ntl-extras/lzz_pX_CRT/", "ntl-extras/structured_lzz_p/"],
  mech=[("scope-bound context savers around every change of prime", "multiply_3_primes, mat_lzz_pX_lmultiplier_3_primes, lzz_pX_mul helpers")],
  technique="interprocedural typestate analysis (current-modulus state through every path, saver objects unwound at scope exits)",
  note="Sound over all paths of all parsed functions; per-callee effect summaries; recursion assumed to satisfy the summary it is proving (partial correctness). NTL errors abort in this configuration and are not exits."),
 dict(id="C02", title="Operations keep no hidden state between or across calls",
  statement="The result of an operation depends only on its arguments, the current modulus and (where randomised) the random generator: nothing computed by one call survives in the library to influence a later call or a concurrent call from another thread. Operations on an object passed as read-only never change it.",
  over=["histories", "schedules", "inputs"], text="Every sequence and interleaving of calls, including calls made under different moduli and from different threads.",
  why="Stale caches show only for particular call histories (second call, changed modulus, other thread); tests call each operation in one fixed order under one or two moduli.",
  files=["ntl-extras/"], mech=[("no mutable static storage; caches live inside explicit objects; const methods", "all modules")],
  technique="storage-duration and const-discipline lint over the type-checked AST",
  note="Exact: every variable of static storage, every mutable member, every const-removing cast or write through a pointer member of a const object in the parsed units is enumerated."),
 dict(id="C03", title="Only operations specified as randomised draw randomness or read the clock",
  statement="An operation not specified as randomised is deterministic: it neither consumes nor reseeds the random generator and does not consult clock, process id or environment, so re-running a program from the same seed reproduces the same results and the same later random draws.",
  over=["inputs", "histories"], text="Every deterministic public operation (all but the random-object generators, and the Las Vegas/Monte Carlo algorithms and those choosing random evaluation points), all inputs.",
  why="A random fallback taken only for rare inputs never shows in tests, which check results, not generator state.",
  files=["ntl-extras/"], mech=[("randomness confined to random_*, element_of_order and the Las Vegas solvers", "lzz_p_extra, mat_lzz_pX_utils, structured solvers, verification routines")],
  technique="call-graph effect analysis (reachability of random/clock sources)",
  note="Sound for direct and virtual calls in the parsed units; the list of randomised operations is frozen from the current tree."),
 dict(id="C04", title="Computations do not print or touch files",
  statement="Calling a computational operation writes nothing to the standard streams and opens, reads or writes no file; only the printing and computer-algebra-export operations, and the few operations that announce progress or diagnostics today, produce output.",
  over=["inputs"], text="Every public operation outside the output modules and outside the short list that prints today, every input and every internal path.",
  why="Output on a rarely taken branch is not seen by tests, which look at exit codes only.",
  files=["ntl-extras/"], mech=[("output confined to sage_output, magma_output and listed diagnostics", "ntl-extras/sage_output, ntl-extras/magma_output")],
  technique="call-graph effect analysis (reachability of stream and file sources)",
  note="Sound for direct and virtual calls in the parsed units; the list of printing operations is frozen from the current tree."),
 dict(id="C05", title="An output may be the same object as an input",
  statement="Where an operation supports in-place use (its documentation says the output may alias an input, or its code tests for the identity, or the library itself calls it in place), calling it with the output and an input being one and the same object gives the same result as with distinct objects.",
  over=["inputs"], text="Every supported (operation, output, input) combination, all values, sizes and degrees, all internal branches and dispatch choices.",
  why="Tests call almost everything with distinct objects; a read-after-overwrite shows only in the aliased call, often only on one algorithm branch or for one range of sizes.",
  files=[M + "mat_lzz_pX_multiply.cpp", M + "mat_lzz_pX_utils.cpp", M + "mat_lzz_pX_arith.cpp", M + "mat_lzz_pX_inv_trunc.cpp", "ntl-extras/lzz_pX_middle_product/", "ntl-extras/lzz_pX_extra/", "ntl-extras/structured_lzz_p/", "ntl-extras/structured_lzz_pX/"],
  mech=[("identity tests redirecting to a temporary, or element-wise loops reading before writing", "multiply*, middle_product*, mul_right/mul_left, trunc, shifts, add_LeftShift, InvTruncMul")],
  technique="path-sensitive abstract interpretation with symbolic array regions: write-before-read conflicts on one object bound to both parameters",
  note="241 combinations. Callees in the table are used through their own aliasing contract. NTL's own operations are alias-safe as documented. A conflict is reported only when the overlap is certain or its index range is expressed in the arguments and not refuted."),
 dict(id="C06", title="Ill-formed arguments are rejected and well-formed ones are accepted",
  statement="An operation that checks its arguments (matching dimensions of operands, length of a shift, index in range, degree within the prepared bound, number of points within the field) signals an error for every ill-formed combination, on every path and before returning anything; and it signals no error for an argument combination outside its documented ill-formed ones (in particular for empty, one-row, rectangular or degenerate inputs that the operation supports).",
  over=["inputs"], text="Every public operation with a check on sizes, lengths, degrees or orders; all argument sizes and values.",
  why="Tests call operations with matching square or generic sizes; a guard weakened for one side of the inequality, skipped on an early-exit path, or made too strict for a corner case is never exercised.",
  files=[M + "mat_lzz_pX_arith.cpp", M + "mat_lzz_pX_forms.cpp", "ntl-extras/structured_lzz_p/", "ntl-extras/structured_lzz_pX/", "ntl-extras/lzz_pX_CRT/"],
  mech=[("explicit size tests raising LogicError or std::invalid_argument", "add/sub/mul, row_degree and relatives, structured mul_left/mul_right, multipoint constructors and evaluators, transposed products")],
  technique="path-sensitive abstract interpretation over linear facts on sizes and argument values (helpers interpreted in place), rejection conditions as assumptions at entry",
  note="352 rejection conditions on 889 functions, derived from the reviewed tree and frozen. Conditions on computed values (rank, invertibility, roots of unity available) are outside; error exits under such conditions are not judged."),
 dict(id="C07", title="Results have the announced dimensions",
  statement="Whatever the values, degrees and sizes of the arguments, the matrices, vectors and sequences an operation returns have exactly the dimensions the operation announces as a function of its arguments: a product has the rows of the left and the columns of the right operand, a sum, truncation, shift or coefficient has the dimensions of its argument, a transpose swaps them, degree vectors have one entry per row (column), an evaluation has one value per point, and so on. In particular this holds for zero, constant, empty and degenerate arguments, for aliased calls, and on every internal algorithm choice.",
  over=["inputs"], text="Every public operation returning a matrix, vector or sequence whose dimensions are a function of the arguments; all argument sizes, values and degrees; every path.",
  why="Dimensions go wrong on early exits (zero operand, empty matrix, degree bound exceeded) or for rectangular arguments; tests use square or generic nonzero inputs.",
  files=[M + "mat_lzz_pX_utils.cpp", M + "mat_lzz_pX_arith.cpp", M + "mat_lzz_pX_multiply.cpp", M + "mat_lzz_pX_forms.cpp", M + "mat_lzz_pX_inv_trunc.cpp", "ntl-extras/structured_lzz_p/", "ntl-extras/structured_lzz_pX/", "ntl-extras/lzz_pX_CRT/", "ntl-extras/lzz_pX_seq/"],
  mech=[("SetDims / SetLength at the start of each operation and on each early exit", "all modules")],
  technique="path-sensitive abstract interpretation of container sizes (symbolic dimensions as linear terms over the arguments), compared with a frozen, reviewed table of result dimensions at every exit",
  note="About 870 dimensions of 528 functions; callees are used through their own entry of the table. Dimensions depending on computed values (ranks, basis sizes) are outside. Three known findings in lzz_pX_seq."),
 dict(id="C08", title="Polynomials are handed back and handed on normalised",
  statement="Every polynomial an operation hands back (as a result parameter, inside a result vector, matrix or bivariate polynomial, as its value, or stored in the object it constructs) has no zero leading coefficient: its coefficient array ends with a non-zero coefficient or is empty, so that deg, ==, IsZero and LeadCoeff speak of the polynomial itself; and no operation passes a polynomial whose coefficients it has set directly on to another operation before normalising it. This holds for every input, including those where top coefficients cancel, entries have smaller degree than the bound, or the result is zero.",
  over=["inputs"], text="All inputs of every operation that delivers polynomials; every path.",
  why="With random inputs the top coefficient is non-zero with probability 1-1/p, so a missing normalisation is not seen by tests on random data.",
  files=["ntl-extras/mat_lzz_pX_extra/", "ntl-extras/lzz_pX_CRT/", "ntl-extras/lzz_pX_extra/", "ntl-extras/lzz_pX_middle_product/", "ntl-extras/lzz_pXY/", "ntl-extras/structured_lzz_p/", "ntl-extras/structured_lzz_pX/"],
  mech=[("normalize() after direct stores into rep", "all modules"), ("results produced by NTL operations, which normalise", "all modules")],
  technique="flow-sensitive typestate (raw / normalised) over polynomial places, with function summaries and loop fixpoints",
  note="295 places in the code touch coefficient arrays directly; 529 polynomial results of public functions. Three functions where normality follows from degree arithmetic (add_LeftShift, product of a bivariate polynomial by a non-zero constant, from_kronecker) and two constructors are undecided."),
 dict(id="C09", title="A result does not depend on what the result object held before",
  statement="Where an operation delivers a result into an object supplied by the caller (and does not document that it updates that object), the delivered value is the same whatever the object contained before the call, whatever its previous dimensions or degrees: the operation neither accumulates onto, keeps, nor consults the old entries, on any path, including early exits for zero, empty or degenerate arguments and every internal algorithm choice.",
  over=["inputs", "histories"], text="Every result parameter of every operation, every previous content of the result object, all arguments, every path.",
  why="Tests pass freshly constructed (zero) objects; leftover entries show only when the caller reuses an object that already has the right dimensions.",
  files=[M + "mat_lzz_pX_utils.cpp", M + "mat_lzz_pX_multiply_evaluate_dense.cpp", M + "mat_lzz_pX_linearization.cpp", "ntl-extras/structured_lzz_p/", "ntl-extras/structured_lzz_pX/", "ntl-extras/lzz_pX_CRT/"],
  mech=[("clear() or whole assignment before partial stores; loops storing every entry", "all modules")],
  technique="path-sensitive abstract interpretation with symbolic must/may-written array regions of the result object (reads of unwritten places and unwritten places at exits)",
  note="494 result parameters. Exits that report failure through their status value promise nothing. Callees in the table are used as overwriting their result as a whole. Reported only when a place certainly (or for an expressible index range) keeps its old content."),
 dict(id="C10", title="No element access outside its container",
  statement="For arguments whose dimensions fit together (the relations the operations are documented for: matching inner dimensions, a shift with one entry per row, at least one row and column, indices within range, as many points as evaluations), no operation reads or writes an element, row, coefficient or table entry outside the current size of the vector, matrix or polynomial that holds it, and none hands another operation containers whose sizes do not fit together; this includes rectangular matrices, sizes that are not multiples of a block or unrolling width, zero polynomials, and remainders of divisions into halves.",
  over=["inputs"], text="Every subscript and every internal call in every function, all argument sizes and values, every path.",
  why="Accesses are unchecked in a release build of NTL: an access one past the end usually lands in allocation slack and goes unnoticed; square test sizes hide exchanged bounds.",
  files=["ntl-extras/mat_lzz_pX_extra/", "ntl-extras/mat_lzz_p_extra/", "ntl-extras/structured_lzz_p/", "ntl-extras/structured_lzz_pX/", "ntl-extras/lzz_pX_CRT/", "ntl-extras/lzz_pX_extra/", "ntl-extras/lzz_pXY/", "ntl-extras/lzz_pX_seq/"],
  mech=[("SetDims/SetLength before element stores; loop bounds taken from the same dimensions", "all modules"), ("constructor-established sizes of member tables", "lzz_pX_CRT, structured_lzz_p, lmultiplier classes")],
  technique="path-sensitive abstract interpretation of container sizes and index ranges (linear constraints over sizes, arguments and loop counters), with class invariants from the constructors and size requirements of callees as contracts",
  note="about 15.5k index and size conditions in 611 functions, grouped into 2408 obligations by function and container. Accesses whose index is data (pivot indices, permutations) or nonlinear (flattened tables) are undecided, not alarms; containers whose sizes depend on facts outside the analysis are left out."),
 dict(id="C11", title="Forms of one operation agree",
  statement="Convenience forms, operators, compound assignments, accessors and algorithm selectors deliver what the operation they stand for delivers on the same arguments: every functional form f(args) equals the procedural form f(out, args); x op= a equals x = x op a; a form with fewer arguments supplies the documented defaults; a selector or wrapper hands operands and options (order, degrees, shifts, points, is_prime) unchanged and in the right order to the algorithm it chooses, whichever sizes, degrees or modulus drive the choice; accessors report the stored dimension, degree or point.",
  over=["inputs", "configurations"], text="All arguments, every path of every form, operator, accessor and selector.",
  why="Tests call one form, usually the procedural one, on a few sizes, so most branches of a selector (thresholds tuned per machine, composite moduli, high precision) and most convenience forms are never run.",
  files=["ntl-extras/mat_lzz_pX_extra/", "ntl-extras/lzz_pXY/", "ntl-extras/lzz_pX_CRT/", "ntl-extras/structured_lzz_p/", "ntl-extras/structured_lzz_pX/", "ntl-extras/lzz_pX_extra/", "ntl-extras/lzz_pX_middle_product/"],
  mech=[("inline functional forms and operators in the headers", "mat_lzz_pX_utils.h, mat_lzz_pX_arith.h, lzz_pXY.h, ..."), ("selectors", "multiply, middle_product, solve_series, inv_trunc, pmbasis, approximant_basis, kernel_basis, mul")],
  technique="value terms of loop-free functions (symbolic normal form over the arguments, library forms of one operation identified) compared with the term of the procedural form or with the reviewed term",
  note="150 functional/procedural pairs and 211 selectors, wrappers and accessors. Functions with loops have no term and are outside this property; an unfamiliar but not certainly different term is undecided."),
 dict(id="C12", title="Transforms have enough points: no wrap-around, no lost coefficients",
  statement="Wherever a product or middle product is computed through Fourier transforms (of polynomials, of polynomial matrices, of structured matrices, of a multiplier or an evaluator prepared beforehand), the transform has at least as many points as the requested coefficients need: the coefficients handed back are the requested ones of the true product, never coefficients to which higher ones have been folded back, and never fewer than requested. Operands multiplied pointwise are transforms on the same points, including an operand prepared earlier (in a constructor or by a prepare operation) and one transformed on every call; truncated transforms use a length that covers the product. This holds for every size and degree, in particular where a length crosses a power of two, for degree 0, for operands of different lengths and for low-degree operands after a high-degree preparation.",
  over=["inputs", "histories"], text="Every pointwise product and every recovery of coefficients, all sizes and degrees, all constructor arguments.",
  why="A transform that is too short by one point is exact for all lengths but those at one boundary of a power of two, and tests use a handful of sizes; transforms on mismatched points are only met by particular preparation histories.",
  files=["ntl-extras/mat_lzz_pX_extra/", "ntl-extras/structured_lzz_p/", "ntl-extras/structured_lzz_pX/", "ntl-extras/lzz_pX_CRT/", "ntl-extras/lzz_pX_extra/", "ntl-extras/lzz_pXY/", "ntl-extras/lzz_pX_middle_product/"],
  mech=[("NextPowerOfTwo of the product length before TofftRep / FromfftRep", "all modules"), ("transforms prepared in constructors and member functions", "lmultiplier, circulant, Toeplitz, Hankel, Multipoint_FFT, Multipoint_Geometric")],
  technique="path-sensitive abstract interpretation with a transform domain: number of points and length of the transformed polynomial as symbolic terms (exact for power-of-two rounding and truncated transforms), member transforms summarised over the constructors",
  note="221 obligations in the functions that transform; lengths produced by loops (Newton iterations, Kronecker substitutions) are undecided. Whether the field has enough roots of unity is another matter (NTL aborts when it has not)."),
]
NA = [
 dict(id="N01", title="Matrix products equal the schoolbook product",
  statement="Every multiplication, middle-product and left-multiplier algorithm for polynomial matrices returns exactly the mathematical product, for every size, degree, modulus and choice of algorithm.",
  over=["inputs", "configurations"], text="All matrices, degrees, moduli and algorithm variants.", why="Infinite input space.",
  files=[M], mech=[("multiply dispatch and its variants", "mat_lzz_pX_multiply*.cpp")],
  reason="Equality of field elements computed by transforms, Karatsuba-like formulas and CRT is a numeric value property; no sound static argument in reach bounds it. Necessary structural clauses (shapes, aliasing, guards, enough evaluation points, stale output) are claimed separately."),
 dict(id="N02", title="Approximant, interpolant and kernel bases are correct",
  statement="Each basis algorithm returns rows that all satisfy the equations, generate the whole module, and are in the announced shifted form with the announced degrees.",
  over=["inputs"], text="All inputs, orders, shifts.", why="Infinite input space.",
  files=[M], mech=[("M-Basis / PM-Basis and kernel algorithms", "mat_lzz_pX_pmbasis.cpp, mat_lzz_pX_interpolant.cpp, mat_lzz_pX_kernel.cpp")],
  reason="Membership, minimality and generation are algebraic facts about values computed by elimination."),
 dict(id="N03", title="Form predicates and degree queries agree with their definitions",
  statement="Predicates for reduced, weak Popov, ordered weak Popov, Popov and Hermite forms, and degree, leading-matrix and pivot queries, return what the mathematical definition prescribes for every matrix and shift.",
  over=["inputs"], text="All matrices and shifts.", why="Infinite input space.",
  files=[M + "mat_lzz_pX_forms.cpp"], mech=[("form predicates", "mat_lzz_pX_forms.cpp")],
  reason="The definition itself is a relation between degrees of run-time polynomials and ranks of leading matrices; only its argument checks and result shapes are structural (claimed separately)."),
 dict(id="N04", title="Determinants, linear solvers and inverses are correct",
  statement="Determinant, system solving, series and truncated inversion return values satisfying their defining equation.",
  over=["inputs"], text="All inputs.", why="Infinite input space.",
  files=[M], mech=[("determinant and linsolve algorithms", "mat_lzz_pX_determinant.cpp, mat_lzz_pX_linsolve.cpp, mat_lzz_pX_inv_trunc.cpp")],
  reason="Numeric equality over a finite field."),
 dict(id="N05", title="Structured matrices act as the dense matrices they represent",
  statement="Multiplication, transposition, inversion and solving on a structured matrix give the same result as the dense matrix it denotes.",
  over=["inputs"], text="All structured matrices, sizes and operands.", why="Infinite input space.",
  files=["ntl-extras/structured_lzz_p/", "ntl-extras/structured_lzz_pX/"], mech=[("compact representations and their dense conversion", "structured modules")],
  reason="Numeric equality over a finite field; sizes, guards and member initialisation are claimed separately."),
 dict(id="N06", title="Evaluation and interpolation are inverse to each other",
  statement="Multipoint evaluation followed by interpolation (and conversely), on general, geometric and FFT points, is the identity on polynomials of admissible degree.",
  over=["inputs"], text="All point sets and polynomials of admissible degree.", why="Infinite input space.",
  files=["ntl-extras/lzz_pX_CRT/"], mech=[("multipoint evaluators", "lzz_pX_Multipoint*.cpp, lzz_pX_CRT.cpp")],
  reason="Round-trip equality of computed values."),
 dict(id="N07", title="The FLINT-based half gives the same results as the NTL-based half",
  statement="The C modules built on FLINT compute the same mathematical objects as the C++ modules.",
  over=["inputs"], text="All inputs.", why="Infinite input space; that half cannot even be compiled here.",
  files=["flint-extras/"], mech=[("FLINT port", "flint-extras/src")],
  reason="FLINT >= 3.4 is not installed, so the sources cannot be parsed with resolved types; and the equality is numeric."),
]
