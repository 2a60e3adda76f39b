"""What each property runs: harness executables, suites, case counts (quick, thorough), build variants."""
OPT = dict(cxx="g++", libflags="-O2 -g1", hflags="-O1", ldflags="")
SAN = dict(cxx="g++", libflags="-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer",
           hflags="-O1 -g1 -DVH_SAN -fsanitize=address,undefined -fno-sanitize-recover=all", ldflags="-fsanitize=address,undefined",
           env={"ASAN_OPTIONS": "detect_leaks=1:leak_check_at_exit=0:abort_on_error=0:halt_on_error=1:detect_stack_use_after_return=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"})
_FM = {"MALLOC_MMAP_THRESHOLD_": "1000000000", "MALLOC_TOP_PAD_": "16777216", "MALLOC_TCACHE_COUNT": "7"}
FILL0 = dict(cxx="g++", libflags="-O2 -g1 -ftrivial-auto-var-init=zero", hflags="-O1", ldflags="")
FILL1 = dict(cxx="g++", libflags="-O2 -g1 -ftrivial-auto-var-init=pattern", hflags="-O1", ldflags="")
FILL = dict(kind="fill", fills=[("fill0", dict(_FM, MALLOC_PERTURB_="255")), ("fill1", dict(_FM, MALLOC_PERTURB_="1"))])
VARIANTS = {"opt": OPT, "san": SAN, "fill0": FILL0, "fill1": FILL1, "fill": FILL}
EXES = {"elem": ["elem"], "mani": ["mani_fix", "mani"], "prob": ["mani_fix", "prob_fix", "prob", "report"], "solv": ["mani_fix", "prob_fix", "solv_fix", "solv", "solv2", "solv3"], "misc": ["mani_fix", "misc"]}
NOTES = ["oracle code in /verif/harness", "system BLAS/LAPACK/FFTW", "admissible inputs as documented in DESIGN.md"]
PLAN = {}
PLAN["E01"] = dict(suites=[("elem", "hist", (40000, 200000), "opt"), ("elem", "histprod", (20000, 100000), "opt")],
    rule="random histories of 20-60 public operations (copy, assign, pass by value, component views, in-place updates, reshape, temp data) over a pool of real, complex and product elements; after every operation every pool member is compared bitwise with a deep-copying shadow; distinct = distinct operation/kind combinations reached")
PLAN["E02"] = dict(suites=[("elem", "fields", (16000, 200000), "opt"), ("elem", "fieldsprod", (4000, 100000), "opt")],
    rule="random interleavings of factorisation/solve calls, attachments, copies and in-place changes; after every step the defining equation of every cached factor is checked against the current value")
PLAN["E03"] = dict(suites=[("elem", "algebra", (24000, 200000), "opt")],
    rule="random operands (real/complex, all shapes incl. 1xn, repeated and shared operands); every operation compared with an independent complex matrix algebra")
PLAN["E04"] = dict(suites=[("elem", "decomp", (40000, 200000), "opt")],
    rule="random well/ill-conditioned, rank deficient, repeated-spectrum real and complex inputs; defining equations of every factorisation re-evaluated independently")
PLAN["E05"] = dict(suites=[("elem", "transf", (40000, 200000), "opt")],
    rule="random shapes, both directions; FFT compared with the explicit DFT sum, Haar with inverse and norm, sparse and block operations entry by entry")
_FIX = "random manifold (14 kinds, all parameter sets, intrinsic/extrinsic representation, locking on/off, real/complex, sizes 1-10, products, tangent-sphere), random point (library-drawn, own, structured, retracted; conditioning up to 1e6) and tangent vectors built independently of the library; "
_MR = {
 "M01": ("constraint residual of random points, of single retractions at steps from 1e-8 to 8 and along chains of retractions, recomputed with own matrix algebra", ["M01.chain", "M01.retr", "M01.random"]),
 "M02": ("projections of arbitrary ambient vectors: tangent equations, idempotence, orthogonality of the residual to independently built tangent vectors in the documented metric, aliasing, arguments unchanged", ["M02.orthogonal", "M02.fixes", "M02.tangent"]),
 "M03": ("round trips vector/coordinates in both directions, inner products in both representations, dimension counts, normal-space coordinates", ["M03.extintrext", "M03.intrextintr", "M03.isometry", "M03.normalround"]),
 "M04": ("metric against the documented inner product, symmetry, bilinearity, positivity, vector operations against own arithmetic incl. documented aliasing", ["M04.value", "M04.alias.*", "M04.bilinear"]),
 "M05": ("R(0)=x, numerical derivative of t->R(tv), closed forms of every retraction, length of exponentials, inverse retractions, distances against closed forms", ["M05.firstorder", "M05.closed", "M05.inverse", "M05.distvalue", "M05.explength"]),
 "M06": ("differentiated retraction against high-order finite differences of the real retraction, adjointness of the cotangent operator, scale factor recomputed", ["M06.*", "M06.adjoint*", "M06.beta*"]),
 "M07": ("linearity, isometry, tangency, inverse in both orders, locking condition, zero step, aliasing", ["M07.isometric", "M07.linear", "M07.inverse", "M07.locking", "M07.zerostep"]),
 "M08": ("operator transports, one-sided block transports and rank-one updates compared with the action of the vector transports on random arguments", ["M08.TranHInvTran", "M08.HInvTran", "M08.TranH", "M08.rank1"]),
 "M09": ("every geometric operation of a random product (three constructors, 1-9 components, multiplicities, shuffled order) compared component by component with the component manifold called directly on stand-alone copies; settings of the components compared before and after", ["M09.component", "M09.permuted", "M09.operator", "M09.dist", "M09.flags", "M09.inplace", "M09.rankone", "transports with locking components"]),
 "M10": ("gradients and Hessian actions derived by the library for random polynomial functions of the invariant embedding, compared with directional derivatives and with the second derivative computed from closed-form connection terms", ["M10.*"]),
}
for _m, (_r, _o) in _MR.items():
    PLAN[_m] = dict(suites=[("mani", _m.lower(), ({"M01": 36000, "M09": 36000}.get(_m, 50000), 400000), "opt")], rule=_FIX + _r + "; distinct = distinct configuration labels", observe=_o)

PLAN["P01"] = dict(suites=[("prob", "p01", (20000, 200000), "opt")],
    rule="every supplied problem (16) with random data shapes on every admissible manifold configuration; cost against an independent evaluation of the documented formula, Euclidean and Riemannian gradients against high-order differences of that formula, Hessian actions against differences of the gradient; then a random order of evaluations on shared and fresh copies compared with the first values; problem data compared byte by byte",
    observe=["costs compared", "Euclidean directional derivatives", "Euclidean Hessian actions", "Riemannian directional derivatives", "history steps"])
PLAN["P02"] = dict(suites=[("prob", "p02", (18000, 150000), "opt")],
    rule="polynomial problems supplying only a cost or no Hessian, and every smooth supplied problem with numerical derivatives switched on; compared with the analytic values within the truncation error; directions of norm 1e-4..100 and zero",
    observe=["numerical gradients", "numerical Hessian actions", "no gradient supplied", "no Hessian supplied", "numerical derivatives requested"])
PLAN["P03"] = dict(suites=[("prob", "p03", (18000, 150000), "opt")],
    rule="proximal maps with random block weights and inputs on, near and away from the kinks judged by the subgradient optimality condition; generalized derivative against differences; weights positive and majorising; extreme Hessian eigenvalues against a dense eigendecomposition in an independently built orthonormal tangent basis",
    observe=["thresholded entries", "kept entries", "derivative entries", "spectra compared", "majorisation tests"])
_SR = "random solver of the eleven smooth ones, random problem (random polynomial on any of the manifolds above, or a supplied problem), random options; the real Run is executed with the protected steps hooked and all manifold and problem calls counted by proxies; "
PLAN["S01"] = dict(suites=[("solv", "s01", (30000, 200000), "opt")], rule=_SR + "reported point, cost, gradient norm, ratio, counts, times and every series entry recomputed from the observed iterates; one run in ten has a cost that turns NaN at a random evaluation",
    observe=["reports compared", "evaluation counts compared", "series entries"])
PLAN["S02"] = dict(suites=[("solv", "s02", (36000, 200000), "opt")], rule=_SR + "after every line search the step, trial point, cost, gradient and slope are recomputed and the first trial step is compared with the formula of its type, the documented acceptance conditions (Armijo with its window, Wolfe, strong Wolfe, exact, user step, fixed final step, limits) are evaluated, the slope against differences of the real cost along the real retraction",
    observe=["successful searches", "sufficient decrease checked", "slopes compared", "fixed final steps", "nonmonotone window used", "status 5 search 0", "status 5 search 1", "status 5 search 2", "status 5 search 3", "user steps", "first steps compared", "first steps by Barzilai-Borwein", "first steps by adaptive Barzilai-Borwein", "first step type 0", "first step type 1", "first step type 2", "first step type 3", "first step type 4", "trial sequences with several steps", "bracketed trials", "gave up after many trials", "gave up at the minimum"],
    ratio=[("status 0 search 1", "status 5 search 1", 0.005, 300), ("status 4 search 2", "status 5 search 2", 0.006, 300), ("status 1 search 0", "status 5 search 0", 0.002, 300)])
PLAN["S03"] = dict(suites=[("solv", "s03", (36000, 200000), "opt")], rule=_SR + "every search direction compared with the method's formula recomputed from the observed gradients, transports and memory (six CG formulas, truncated Newton residual, dense quasi-Newton operator, inverse BFGS recursion over the shadow memory), descent and tangency",
    observe=["formulas compared", "conjugate updates", "Newton equations", "limited-memory directions", "preconditioner rejected"])
PLAN["S04"] = dict(suites=[("solv", "s04", (12000, 200000), "opt")], rule=_SR + "every trust-region iteration: trial step norm, model decrease against the Cauchy step, boundary, inner residual, dense solution of the limited-memory subproblem, ratio, radius rule and acceptance rule recomputed, and the next iterate compared bitwise with the accepted or kept point",
    observe=["trial steps", "Cauchy decrease compared", "inner residuals", "radius rules", "radius enlarged", "radius reduced", "ratios compared", "subproblems solved independently"])
PLAN["S05"] = dict(suites=[("solv", "s05", (18000, 200000), "opt")], rule=_SR + "every quasi-Newton update: operator or memory after the update compared with the update formula applied to the transported previous one, secant equation, symmetry, positive definiteness, cautious-update rule and memory order",
    observe=["updates compared", "secant equations", "spectra"])
PLAN["S06"] = dict(suites=[("solv", "s06", (20000, 150000), "opt")], rule=_SR + "every evaluation of the stopping test observed with the iterate it judges; the criterion re-evaluated from the reported values and from the iterate itself, the user criterion, two-sided time bounds with slowed-down costs, iteration limits, and the reason of every end identified",
    observe=["tests judged", "iterates judged", "limit reached", "minimum respected", "time limit reached", "user criterion", "ended by an invalid cost", "ended by the line search", "ended by the radius", "stopped by cost change", "stopped by gradient norm", "stopped by gradient ratio"])
PLAN["S07"] = dict(suites=[("solv", "s07", (12000, 100000), "opt")], rule=_SR + "the run is repeated bit for bit after unrelated runs, next to other live solver objects, under other verbosity and after reseeding; problem data, initial point and manifold settings compared byte by byte; the same object run again is compared with a fresh object started where it stands",
    observe=["runs compared", "series compared", "other verbosity", "other solver alive", "objects reused", "data checked"])
PLAN["S10"] = dict(suites=[("solv", "s10", (4000, 60000), "opt"), ("solv", "s10ns", (1500, 20000), "opt"), ("misc", "s10m", (3000, 40000), "opt")], rule=_SR + "random option maps set by name in one or several calls and in any order, all members compared with direct assignment, runs compared bitwise, unknown and misspelt names, parameter check captured and searched for its verdicts on valid and on each single invalid setting",
    observe=["members compared", "manifold settings compared", "runs of RGS", "runs of AManPG", "unknown names", "single options", "runs compared", "valid settings checked", "invalid settings checked"])
PLAN["S11"] = dict(suites=[("solv", "s11", (9000, 100000), "opt")], rule="eleven kinds of planted instances with a known minimiser (extreme eigenvectors, commuting means, exactly recoverable low-rank, phase and blind deconvolution data, matrix equations with known solution) whose Hessian at the solution is well-conditioned; every smooth solver with random line search, initial step and memory started near the solution; final cost against the known optimum and the gradient bound, number of iterations",
    observe=["optima reached"] )
PLAN["S08"] = dict(suites=[("solv", "s08", (6000, 60000), "opt")], rule="random subgradient solver (RGS, LRBFGSSub, RBFGSSub), random piecewise-smooth cost (polynomial plus absolute values on any manifold, or sparsest vector), random options; the real Run with the protected steps hooked: every bundle member matched with a sampled point inside the radius, minimum-norm element certified by its variational inequality and hull membership, direction, descent at the radius, weak Wolfe conditions, quasi-Newton secant equations, tolerance rules, reports and series",
    observe=["bundle members", "minimum-norm elements judged", "bundles of several subgradients", "small elements", "descent at the radius", "accepted steps", "updates judged", "secant equations", "tolerances reduced", "tests judged", "cost changes", "series entries", "limit reached", "stopped by the criterion"])
PLAN["S09"] = dict(suites=[("solv", "s09", (12000, 60000), "opt")], rule="ManPG and AManPG on random sparse PCA and sparse low-rank problems, random options; the real Run with the subproblem, retractions and line search hooked: the direction is tangent and its model value meets the dual bound recomputed from the multiplier, every trial step of the search re-judged, adaptation and accuracy rules, acceleration and safeguard replayed, cost monotone, stopping tests and reports",
    observe=["subproblems solved to the tolerance", "regularised subproblems certified", "accepted steps", "steps reduced", "adaptive weight", "extrapolations", "safeguard used", "tests judged", "cost changes", "series entries", "limit reached", "stopped by the criterion"],
    ratio=[("subproblems not solved to the tolerance", "subproblems solved to the tolerance", 0.08, 300)])
PLAN["U01"] = dict(suites=[("misc", "u01", (20000, 400000), "opt")], rule="four spline constructors on 2-40 samples, even and uneven knots (ratios up to 20) starting anywhere, flat, smooth, sparse and random data of scale 1e-3..1e3; interpolation, first and second derivative at every knot, end conditions, and all evaluators at, between and at both ends of the knots",
    observe=["knots", "periodic ends", "prescribed end slopes", "evaluations", "single interval", "two intervals"])
PLAN["U02"] = dict(suites=[("misc", "u02", (12000, 60000), "opt")], rule="1-12 tangent vectors (generic, duplicated, around the origin, one-sided, nearly equal, low-dimensional) at a random point of any manifold, with and without a positive definite operator; membership in the hull by an independent active-set solver, reported value, variational inequality and independent optimal value",
    observe=["hull memberships", "elements certified", "single vector", "with operator", "duplicates", "contains the origin", "nearly equal", "low-dimensional", "hull problems"], ratio=[("elements not certified", "elements certified", 0.003, 300)])
PLAN["U03"] = dict(suites=[("misc", "u03", (2000, 40000), "opt")], rule="random seeds after random warm-up draws: sequences repeated, other seeds differ, range, mean, variance, fourth moment, lag correlation and distribution function of 20000 draws, mean and variance of filled elements, repeated random points of every manifold",
    observe=["draws", "elements", "points"])
U04RATES = [("composition", 0.02), ("cotangent vectors", 0.02), ("derivative tests without a ratio near one", 0.03), ("differentiated retractions", 0.02), ("differentiated retractions along the step", 0.02), ("isometry", 0.04), ("isometry of the inverse", 0.04), ("locking condition", 0.02), ("locking factor", 0.02), ("rank-one updates", 0.05), ("retractions", 0.03), ("retractions (quotient)", 0.5), ("transported operators", 0.05)]
PLAN["U04"] = dict(suites=[("prob", "u04", (6000, 40000), "opt")], rule="everything the library prints while it prints elements, products, temporary data and sizes, tests the derivatives of the shipped problems and tests the manifolds, captured and parsed: entries, sizes, ratios and vectors against the stored data and against recomputation; share of diagnostics that contradict themselves",
    observe=["printed elements", "printed products", "printed fields", "names of temporary data", "raw prints", "derivative tests", "first-order ratios", "second-order ratios", "CheckParams", "CheckRetraction", "CheckIntrExtr", "CheckDiffRetraction", "CheckDiffRetraction along the step", "CheckLockingCondition", "CheckcoTangentVector", "CheckIsometryofVectorTransport", "CheckIsometryofInvVectorTransport", "CheckVecTranComposeInverseVecTran", "CheckTranHInvTran", "CheckHaddScaledRank1OPE"],
    ratio=[("disagreement: " + q, "agreement: " + q, m, 100) for q, m in U04RATES])
_ALL = {}
for _p in list(PLAN):
    for _s in PLAN[_p]["suites"]: _ALL[_s[1]] = _s[0]
def _every(n, var, **special):
    return [(e, s, (special.get(s, n), 20 * special.get(s, n)), var, dict(timeout=150)) for s, e in sorted(_ALL.items())]
PLAN["R01"] = dict(suites=_every(240, "san", hist=600, histprod=400, fields=600), checks=["crash:*"], skip=["crash:leak*", "crash:hang*"],
    rule="every workload of every other property repeated on a build with AddressSanitizer and UndefinedBehaviorSanitizer (heap, stack, globals, use after free/return, integer overflow, shifts, invalid enums and bools, null); every case in its own process",
    observe=["operation", "formulas compared", "costs compared", "M0*", "accepted steps", "knots"])
PLAN["R02"] = dict(suites=_every(160, "fill"), checks=["uninit*", "trace-missing", "crash:*"], skip=["crash:hang*"],
    rule="every workload of every other property executed twice, by builds filling fresh stack variables with zero bytes or with the pattern 0xFE and with heap blocks filled with zero bytes or 0xFE; the complete event traces (every cost, gradient, Hessian action, solver step, compared quantity and verdict) must agree bit for bit",
    observe=["trace"])
PLAN["R03"] = dict(suites=_every(160, "san"), checks=["crash:leak*"],
    rule="every workload of every other property, each in its own process; after the case destroyed its objects the leak sanitizer searches for blocks nobody points to",
    observe=["operation", "formulas compared", "costs compared", "M0*", "accepted steps", "knots"])
