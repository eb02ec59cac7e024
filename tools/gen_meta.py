"""Writes properties.jsonl (and MANIFEST.json) from one table.  Run by hand: python3 tools/gen_meta.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
S = "src/primate/"
prop("C01", "Streaming mean and covariance equal the batch statistics",
 "After any sequence of batches, the streaming mean and covariance accumulators report exactly the sample mean and the sample covariance (for the requested degrees of freedom) of all observations seen so far, independently of how the observations were split into batches. The reported covariance is a symmetric matrix of shape (dim, dim), a scalar in one dimension; before any sample the mean is NaN.",
 ["inputs", "histories"], "all real sample values, all partitions of the sample sequence into batches, every dimension; and from any reachable accumulator state, one further batch",
 "tests feed one fixed seeded normal sequence in equal batches and compare to numpy; the claim is over every value and every partition",
 [S+"stats.py"], [("batch mean/shift update of the mean", S+"stats.py:Mean.update"), ("pairwise (Chan/Welford) update of the scatter matrix", S+"stats.py:Covariance.update")],
 [("n, mu, S", "count, running mean, running scatter", S+"stats.py")], ["Mean()", "Covariance()", "Covariance.mean()"])
prop("C02", "Mean estimator tracks count, estimate, change and record",
 "For every sequence of updates, a mean estimator's length equals the number of samples received, its estimate is the mean of all of them, its reported change is the difference between the estimates after and before the last update, and, when recording was requested, its recorded values are exactly the samples in order. Estimators never share recorded values or other state with each other.",
 ["inputs", "histories"], "all sample values, all batchings, scalar and vector dimension, with and without covariance and recording",
 "tests check one seeded stream and only the final mean", [S+"estimators.py"],
 [("update computes delta from mean before/after", S+"estimators.py:MeanEstimator.update")],
 [("n_samples, delta, values", "the estimator protocol's observables", S+"estimators.py:Estimator")], ["len(est)", "est.estimate", "est.delta", "est.values"])
prop("C03", "Control-variate estimator applies the control-variate formula",
 "For every sample history, the control-variate estimate equals the sample mean of the target minus the coefficients times the difference between the controls' sample means and their known expectations. The coefficients are the ones supplied, or otherwise the least-squares ones computed from the sample covariance of everything seen; the estimate is invariant to how the history was split into updates.",
 ["inputs", "histories"], "all sample values and known expectations, one and two control variables, supplied and estimated coefficients, all batchings",
 "the test is statistical: it counts how often the variance is lower in 150 seeded trials", [S+"estimators.py", S+"stats.py"],
 [("joint covariance and solve for alpha", S+"estimators.py:ControlVariableEstimator.update")],
 [("alpha, cov", "coefficients and joint accumulator", S+"estimators.py:ControlVariableEstimator")], ["est.estimate", "est.alpha", "len(est)"])
prop("C04", "Confidence criterion agrees with the confidence interval it names",
 "The confidence criterion reports convergence exactly when the half-width of the two-sided confidence interval of the sample mean (Student-t with n-1 degrees of freedom for small samples, the normal limit otherwise) is at most the absolute tolerance, or the relative standard error is at most the relative tolerance; with fewer than three samples it never does. The interval function returns the mean plus or minus that half-width for both sampling distributions, and rejects confidences outside [0, 1].",
 ["inputs", "histories"], "all sample values, confidence levels, tolerances, and sample counts up to 60",
 "the test is a coverage experiment with a 6.7 percent slack, which cannot see a wrong number of degrees of freedom", [S+"estimators.py", S+"stats.py"],
 [("score table and margin of error", S+"estimators.py:ConfidenceCriterion._error"), ("interval from sem and ppf", S+"stats.py:confidence_interval")],
 [("t_scores, z", "quantiles", S+"estimators.py:ConfidenceCriterion")], ["criterion(est)", "confidence_interval(a)"])
prop("C05", "Count and tolerance criteria, Boolean composition and the registry",
 "The count criterion holds exactly when the estimator has at least that many samples; the tolerance criterion holds exactly when the norm of the last change is below the absolute tolerance or below the relative tolerance times the norm of the estimate. Criteria combined with and, or, not evaluate as the Boolean combination of their parts, and selecting a criterion by (case-insensitive) name with keyword arguments yields that criterion with those arguments, ignoring unrelated ones and rejecting unknown names.",
 ["inputs", "histories"], "all estimator states, tolerances, counts, norm orders and Boolean combinations",
 "tests evaluate a few seeded streams; boundary cases and the algebra of combinations are not settled by them", [S+"estimators.py", S+"typing.py"],
 [("__or__/__and__/__invert__ closures", S+"estimators.py:ConvergenceCriterion"), ("name lookup + keyword restriction", S+"estimators.py:convergence_criterion")],
 (), ["criterion(est)"])
prop("C06", "Knee criterion detects the knee of the running-mean curve",
 "For recorded values, the knee criterion evaluates the kneedle rule on the cumulative absolute differences of the running sample means: it holds exactly when the last point of the normalised difference curve has dropped below the maximum by more than the sensitivity margin. It is false with fewer than three values or no recording, and its verdict does not change when all values are rescaled by a nonzero factor.",
 ["inputs", "histories"], "all recorded sequences up to the stated length and all positive sensitivities",
 "one seeded stream in the tests, with an outcome check that any rule stopping late enough passes", [S+"estimators.py"],
 [("kneedle difference curve", S+"estimators.py:KneeCriterion.__call__")], (), ["KneeCriterion()(est)"])
prop("C07", "Isotropic samplers produce valid isotropic vectors of the requested shape",
 "Whatever the underlying generator draws, sign vectors have entries exactly -1 or +1 (each with probability one half), sphere vectors have Euclidean norm equal to the square root of their dimension in every column, and normal vectors are the generator's draws themselves; returned arrays have the requested shape, in-place sampling fills the given array and returns nothing, and deferred sampling draws the same stream as direct sampling. Synonyms of a distribution behave identically and unknown names are rejected.",
 ["inputs", "schedules"], "all generator outputs, shapes, in-place or returned, for the threaded filler every completion order of its tasks",
 "tests sample a few seeded draws and shapes; the threaded filler is not tested at all", [S+"random.py"],
 [("in-place transforms of the raw draws", S+"random.py:_rademacher_inplace,_sphere_inplace,_normal_inplace"), ("column blocks per thread", S+"random.py:Isotropic.fill")],
 [("values, step", "threaded output and block width", S+"random.py:Isotropic")], ["isotropic(...)", "Isotropic.values"])
prop("C08", "Random symmetric and orthogonally-conjugated matrices have the prescribed spectrum",
 "For every draw of the generator, the random symmetric matrix generators return an exactly symmetric n-by-n matrix whose eigenvalues are the prescribed ones; without prescription the eigenvalues are drawn in the documented range, and a positive-definite request never yields a negative eigenvalue.",
 ["inputs"], "all generator draws (with an invertible draw matrix), all prescribed spectra, both entry distributions",
 "tests use fixed seeds and compare sorted eigenvalues within tolerance", [S+"random.py"],
 [("orthogonal conjugation of diag(ew)", S+"random.py:symmetric,haar")], (), ["symmetric(...)", "haar(...)"])
prop("C09", "Growing a triangular inverse by a column gives the inverse of the grown matrix",
 "For every invertible upper-triangular matrix and every appended column with nonzero last entry, updating the inverse returns the exact inverse of the enlarged upper-triangular matrix, upper-triangular itself, and leaves its arguments unchanged; mismatched shapes are rejected.",
 ["inputs", "histories"], "all invertible upper-triangular matrices up to the stated size, all columns, repeated updates from the empty matrix",
 "tests use one seeded random matrix", [S+"linalg.py"], [("block inverse formula", S+"linalg.py:update_trinv")], (), ["update_trinv(B_inv, b)"])
prop("C10", "Built-in spectral functions have their documented shape",
 "Softsign is odd, nondecreasing on [-1, 1], constant beyond it, equal to its defining polynomial with f(1)=1-type saturation and element-wise with the input's length; smoothstep is 0 below a, 1 above b, nondecreasing and symmetric about the midpoint; step is the indicator of x >= c (of |x| >= c when nonnegative); exp is exp(t x). Calling with data equals building the function first and applying it.",
 ["inputs"], "all real arguments, parameters a < b, c, t and softsign degrees up to the stated bound",
 "tests evaluate a fixed grid for softsign only", [S+"special.py"], [("closed forms", S+"special.py")], (), ["softsign", "smoothstep", "step", "exp"])
prop("C11", "Spectral function registry resolves every supported name to its function",
 "Every name the library lists or documents as a built-in matrix function resolves to the function of that name with its documented defaults and keyword parameters (identity, abs, sqrt, log guarded away from zero, inv, exp with t, smoothstep with a and b, softsign with q, numrank with threshold); callables are returned as given, None means identity and unknown names are rejected.",
 ["inputs", "configurations"], "all names, parameter values and arguments",
 "the test checks a handful of numerical ranks and functions through one operator", [S+"special.py"], [("param_callable dispatch", S+"special.py:param_callable")], (), ["param_callable(name, **kw)"])
prop("C12", "Tridiagonal eigensolvers return an orthonormal eigendecomposition",
 "For every real symmetric tridiagonal matrix, including ones with zero subdiagonals and repeated eigenvalues, whatever method is chosen the returned values are eigenvalues (an exact orthogonal similarity of the input up to the iteration's convergence threshold) and the returned vectors an orthonormal matrix diagonalising it; the subdiagonal may be given with or without its leading zero, with the same result, and the caller's arrays are not modified. The automatic method falls back to the implicit-shift solver, with the caller's iteration limit, when LAPACK fails.",
 ["inputs", "fault_sequences"], "all diagonals and subdiagonals up to the stated size, all methods, LAPACK failing or not",
 "tests use seeded random well-separated matrices; breakdowns need zero couplings or special shifts", [S+"tridiag.py", S+"tqli.py"],
 [("implicit QL with plane rotations", S+"tqli.py:tqli"), ("method dispatch and fallback", S+"tridiag.py:_eigh_tridiag")], (), ["eigh_tridiag", "eigvalsh_tridiag", "tqli"])
prop("C13", "Quadrature of a Jacobi matrix is the Gauss rule",
 "For every Jacobi matrix and every degree, the returned nodes are the eigenvalues of its leading section, the weights are nonnegative, sum to one and equal the squared first components of the eigenvectors, so that the rule integrates every polynomial of degree below twice the rule's degree exactly as the first entry of the polynomial of the matrix. Both weight methods return the same rule, output arrays receive the returned values, and unknown methods are rejected.",
 ["inputs", "configurations"], "all diagonals, positive subdiagonals, degrees up to the stated size, both methods, with or without output arrays",
 "tests compare against one seeded 20-degree rule with random matrices; degree truncation and degenerate sizes never run", [S+"integrate.py", S+"fttr.py"],
 [("Golub-Welsch / three-term recurrence", S+"integrate.py:quadrature"), ("orthonormal polynomial recurrence", S+"fttr.py:fttr")], (), ["quadrature(d, e, deg)"])
prop("C14", "The Lanczos recurrence produces an orthonormal Krylov basis and its Jacobi matrix",
 "For every symmetric operator and start vector, the native recurrence produces coefficients and basis vectors with Q^T Q = I, Q^T A Q equal to the tridiagonal matrix of the coefficients, the first basis vector the normalised start vector, and A Q - Q T confined to the last column; the coefficients do not depend on how many basis vectors are kept or reorthogonalised against (in exact arithmetic), it stops at an invariant subspace within its tolerance, and never touches memory outside its buffers. Reorthogonalisation removes the components along exactly the requested previous vectors, cyclically.",
 ["inputs", "configurations"], "all symmetric matrices and start vectors up to the stated size, every degree, ring-buffer width and reorthogonalisation count; arbitrary matvec results for the reorthogonalisation claim",
 "the existing test checks seeded random matrices with full storage only and does not run in the stock build", [S+"include/lanczos.h", S+"include/eigen_operators.h"],
 [("Paige A27 recurrence in a ring buffer", S+"include/lanczos.h:lanczos_recurrence"), ("cyclic modified Gram-Schmidt", S+"include/lanczos.h:orth_vector"), ("dense, sparse and affine operators", S+"include/eigen_operators.h")],
 [("pos", "previous/current/next ring indices", S+"include/lanczos.h:lanczos_recurrence")], ["_lanczos.lanczos(A, v, deg, rtol, orth, alpha, beta, Q)"])
prop("C15", "The Lanczos front end passes valid parameters and returns the Jacobi matrix",
 "For every operator, degree, reorthogonalisation count, output format and optional user buffer, the front end runs the recurrence with a degree clipped to the operator's size, buffers of the right size and a copy of the caller's start vector, and returns diagonal and subdiagonal of lengths deg and deg-1 (with the deg-column basis when requested), the sparse output being the symmetric tridiagonal matrix of those entries. Rayleigh-Ritz values are the eigenvalues of that matrix, for the solver that was asked for; nonpositive degrees and wrong-length start vectors are rejected.",
 ["inputs", "configurations"], "all parameter combinations up to the stated size, all coefficient values the recurrence may return",
 "tests exercise one parameter set and do not run in the stock build", [S+"lanczos.py"], [("parameter clipping and buffer checks", S+"lanczos.py:lanczos"), ("Ritz extraction", S+"lanczos.py:rayleigh_ritz")], (), ["lanczos(...)", "rayleigh_ritz(...)"])
prop("C16", "Matrix functions act as f(A) and do not depend on earlier calls",
 "With a Krylov degree equal to the operator's size, applying a matrix-function operator to a vector gives f(A) v and its quadratic form gives v^T f(A) v for every symmetric A, spectral function f and vector v, including vectors spanning a proper invariant subspace; for smaller degree both equal the Lanczos approximation built from the degree-d Krylov space. The result for a vector depends only on that vector: not on earlier calls on the same operator, nor on other columns of a batch, and vector, matrix and quadratic-form calls agree in value and shape.",
 ["inputs", "histories", "configurations"], "all symmetric matrices, vectors and earlier calls up to the stated size, all reorthogonalisation settings",
 "tests use fresh operators and seeded full-rank vectors; they do not run in the stock build", [S+"operators.py"],
 [("workspace clearing before Lanczos", S+"operators.py:MatrixFunction._matvec"), ("Lanczos quadrature", S+"operators.py:MatrixFunction.quad")],
 [("_Q, _alpha, _beta, _nodes, _weights", "reused workspaces", S+"operators.py:MatrixFunction")], ["M @ v", "M.quad(v)", "matrix_function(A, f, v)"])
prop("C17", "Girard-Hutchinson trace estimate is the mean of the sampled quadratic forms",
 "For every operator and every sequence of random vectors, the estimate returned is exactly the mean of v^T A v over all vectors drawn before the convergence criterion first held, checked after every batch and never earlier or later; the number of samples, batching and the full/callback modes agree with that, an operator with its own quadratic form uses it, and averaging over all sign vectors gives the trace exactly. The default criterion stops at 200 samples or at a 95 percent interval of half-width 1.",
 ["inputs", "histories", "configurations"], "all symmetric matrices, all sampled vectors, criteria and batch sizes within the stated bounds",
 "tests compare seeded estimates to the trace with a wide tolerance and do not run in the stock build", [S+"trace.py", S+"estimators.py"],
 [("sampling loop", S+"trace.py:hutch")], (), ["hutch(A, ...)"])
prop("C18", "Hutch++ returns the range trace plus the deflated residual estimate",
 "For every operator and every draw, the Hutch++ estimate equals the trace of A restricted to the range of the sketch plus the average quadratic form of the complement-projected test vectors, the number of vectors being the smallest multiple of three that covers the requested one (at least three); it equals the trace exactly when the sketch spans the range of A, and reduced and full modes, plain and full results, all agree.",
 ["inputs", "configurations"], "all symmetric matrices and draws up to the stated size, all requested sample counts",
 "tests average 50 seeded runs", [S+"trace.py"], [("deflation by QR of the sketch", S+"trace.py:hutchpp")], (), ["hutchpp(A, m)"])
prop("C19", "XTrace equals the averaged leave-one-out estimator and is exact at n vectors",
 "For every operator and draw, XTrace equals the mean over the sampled vectors of the leave-one-out Hutch++ estimate built from the other vectors, with the sphere normalisation when the sphere distribution is used, whatever the batch size; it never draws more than n vectors, stops by then or as soon as the given criterion holds, and with the sphere distribution the estimate at n vectors is the exact trace.",
 ["inputs", "configurations", "histories"], "all symmetric matrices and draws up to the stated size, every batch size and distribution",
 "tests only see the exact n-vector case, where the leave-one-out machinery cancels, and seeded averages", [S+"trace.py", S+"linalg.py"],
 [("exchangeable leave-one-out update", S+"trace.py:_xtrace"), ("incremental QR and triangular inverse", S+"trace.py:xtrace")], (), ["xtrace(A, ...)"])
prop("C20", "Stochastic diagonal estimate is the ratio estimator and exact for diagonal operators",
 "For every operator and draw, the per-sample diagonal estimate is the ratio of the accumulated v*(Av) to the accumulated v*v over all vectors drawn, the estimate returned is what the estimator reports when the criterion first holds, diagonal operators are recovered exactly from any single sample without zero entries, and averaging over all sign vectors gives the diagonal. Plain, full and callback modes agree.",
 ["inputs", "histories", "configurations"], "all symmetric matrices, draws and criteria within the stated bounds",
 "tests compare a seeded run with a loose tolerance", [S+"diagonal.py"], [("numerator/denominator accumulation", S+"diagonal.py:diag")], (), ["diag(A, ...)"])
prop("C21", "XDiag equals the averaged leave-one-out diagonal estimator",
 "For every operator and draw, XDiag equals the mean over sampled vectors of the leave-one-out deflated diagonal estimate, and uses half of the requested number of matrix-vector products, rounded up, for sampling (never more than n vectors).",
 ["inputs", "configurations"], "all symmetric matrices and draws up to the stated size, every m",
 "tests only see the exact case and one seeded tolerance", [S+"diagonal.py"], [("leave-one-out correction terms", S+"diagonal.py:xdiag")], (), ["xdiag(A, m)"])
prop("C22", "The Toeplitz operator multiplies like the dense Toeplitz matrix",
 "For every first column, first row and vector, multiplying by the Toeplitz operator (vector, column vector or matrix argument) gives the product with the dense Toeplitz matrix, symmetric or not, and a result never changes when the operator is used again.",
 ["inputs", "histories"], "all columns, rows and vectors up to the stated size, repeated products",
 "tests use integer symmetric examples", [S+"operators.py"], [("circulant embedding and FFT", S+"operators.py:Toeplitz")], [("_z", "shared padded workspace", S+"operators.py:Toeplitz")], ["T @ x"])
prop("C23", "Normalising an operator maps its spectrum into [-1, 1]",
 "For every symmetric operator with known extremal eigenvalue, the normalised operator is an affine image of the original whose spectrum lies in [-1, 1], sending the largest-magnitude eigenvalue to an endpoint of that range, and its eigenvectors are unchanged.",
 ["inputs"], "all symmetric matrices up to the stated size, either sign of the dominant eigenvalue",
 "one seeded positive-semidefinite example", [S+"operators.py"], [("shift and scale by the dominant eigenvalue", S+"operators.py:normalize_unit")], (), ["normalize_unit(A)"])
prop("C24", "Caller-supplied arrays are never modified unless they are output arguments",
 "No public function changes the contents of an array or operator passed to it as input (matrices, start vectors, diagonals, samples, spectra), and no result aliases an input or an internal workspace so that later calls change it. Output arguments receive exactly the returned values.",
 ["inputs", "histories"], "all argument values, all public entry points, one further call after each result",
 "tests rarely look at their inputs again", [S+"tridiag.py", S+"lanczos.py", S+"operators.py", S+"trace.py", S+"diagonal.py", S+"linalg.py", S+"estimators.py", S+"stats.py"],
 [("defensive copies", S+"tridiag.py:eigh_tridiag"), ("start vector copy", S+"lanczos.py:lanczos")], (), ["arguments after the call"])
prop("C25", "Operator validation accepts exactly square floating-point operators",
 "An argument is accepted as an operator exactly when it offers a matrix product, has at least two dimensions of which the first two agree, and works in 32- or 64-bit floating point; the reported dtype is the operator's own, inferred from a product when it has none, and the Girard-Hutchinson, Hutch++ and diagonal estimators reject what validation rejects before drawing samples.",
 ["inputs", "configurations"], "all combinations of offered products, shapes and dtypes",
 "tests check a few accepted operators", [S+"operators.py"], [("attribute, shape and dtype checks", S+"operators.py:is_valid_operator,is_linear_op")], (), ["is_valid_operator(A)", "is_linear_op(A)"])
prop("C26", "Native index and parameter helpers stay within bounds for all machine integers",
 "For all 32-bit arguments within their stated preconditions, the native modulus helper returns the true modulus in [0, b) without overflow, and the parameter helpers return a degree in [1, n], a buffer width of at least 2 where the size allows and never above the degree, and a reorthogonalisation count between 0 and one less than the width.",
 ["inputs"], "all 32-bit integers", "no test calls them", [S+"include/lanczos.h"], [("mod, param_deg, param_ncv, param_orth", S+"include/lanczos.h")], (), ["mod", "param_deg", "param_ncv", "param_orth"])
prop("C27", "Full results are consistent with the plain estimate",
 "Whenever additional information is requested from a trace or diagonal estimator, the returned estimate equals the one returned without it for the same draws, the result object carries that same estimate (and, for the iterative estimators, the estimator and criterion used and the number of samples drawn), and a callback observes every batch with the estimate up to date at that point. The quadratic forms Hutch++ reports are those of every column of the range followed by those of every residual vector, and the estimate is the sum of the former plus the mean of the latter.",
 ["inputs", "histories", "configurations"], "all estimators, operators, draws and stopping points within the stated bounds",
 "tests only unpack the result", [S+"trace.py", S+"diagonal.py", S+"estimators.py"], [("EstimatorResult population", S+"trace.py")], (), ["(estimate, EstimatorResult)"])
prop("C28", "Equal seeds give equal results and generators are consumed, not reset",
 "Every randomised function draws only from the generator determined by its seed argument: two calls with the same seed return identical results, calls with no seed use fresh entropy, and passing a generator object continues its stream so that consecutive calls use disjoint draws. The global random state is neither read nor changed.",
 ["inputs", "histories", "configurations"], "all seeds and draws, all randomised entry points",
 "tests seed once per test", [S+"random.py", S+"trace.py", S+"diagonal.py", S+"lanczos.py"], [("default_rng(seed) threaded through", S+"random.py")], (), ["every function with a seed argument"])
P.append(dict(id="C29", title="Native and Python calls agree for dense, sparse and operator arguments",
 statement="For the same symmetric operator given as a dense array, a sparse matrix or a Python object with a matrix product, in single or double precision, the native Lanczos entry point returns the same coefficients and basis up to rounding, whatever the layout of the vectors a Python operator returns, and whatever it does with the vector it is handed, and Python exceptions raised by the operator propagate.",
 quantifier=dict(over=["inputs", "configurations"], text="all operators, storage formats and precisions"),
 why_tests_cant="tests do not run in the stock build and compare a few seeded matrices",
 anchors=dict(files=[S+"_lanczos.cpp", S+"include/pylinop.h"], state=[], mechanism=[dict(name="pybind11 overload set", where=S+"_lanczos.cpp:_lanczos_wrapper"), dict(name="PyLinearOperator", where=S+"include/pylinop.h")], observe_at=["_lanczos.lanczos"], hook_needed=None)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")

NA = {}
NOTE = ("Every claim is decided by z3 (or closed as a polynomial identity) for all real inputs within the bounds written in the harness and copied into the evidence file, on the source found in /repo at run time; "
        "trusted: the symbolic executor vsym/, its numpy/scipy contracts (checked on each path by running one model on the real libraries), z3. Arithmetic is exact: rounding is outside the claim. A violation is reported only if the real code reproduces it.")
EXTRA = {"C14": " The native recurrence is the real C++ template compiled with a symbolic scalar type.", "C26": " The helpers are encoded from clang's LLVM IR as 32-bit vectors."}
checks, na = [], []
for p in P:
    i = p["id"]
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if not os.path.exists(os.path.join(ROOT, "props", i.lower() + ".py")):
        na.append(dict(property=i, reason="no check built yet")); continue
    cmd = f"python3-vt /verif/check.py {i}"
    checks.append(dict(property=i, quick_cmd=cmd + " --tier quick", thorough_cmd=cmd + " --tier thorough", evidence_file=f"evidence/{i}.json",
        technique="symbolic execution of the real C++ (LLVM IR to bit-vectors) decided by z3" if i == "C26" else "symbolic execution of the real C++ template, claims decided by z3" if i in ("C14", "C29") else "symbolic execution of the Python source, claims decided by z3, counterexamples replayed",
        level="model_checking", level_note=NOTE + EXTRA.get(i, "")))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy, scipy'", checks=checks, not_applicable=na,
        notes="No hooks: /repo carries only fix commits. See DESIGN.md."), f, indent=1); f.write("\n")
