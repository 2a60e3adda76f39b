#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand after editing; the file is committed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

ELEM = ["Manifolds/SmartSpace.cpp", "Manifolds/SmartSpace.h", "Manifolds/Element.cpp", "Manifolds/Element.h"]
MANI = ["Manifolds/Manifold.cpp", "Manifolds/Euclidean.cpp", "Manifolds/Sphere.cpp", "Manifolds/SphereTx.cpp", "Manifolds/Stiefel.cpp",
        "Manifolds/CStiefel.cpp", "Manifolds/Grassmann.cpp", "Manifolds/SPDManifold.cpp", "Manifolds/SymFixedRankQ.cpp",
        "Manifolds/CSymFixedRankQ.cpp", "Manifolds/FixedRankE.cpp", "Manifolds/FixedRankQ2F.cpp", "Manifolds/CFixedRankQ2F.cpp",
        "Manifolds/MultiManifolds.cpp"]
SOLV = ["Solvers/Solvers.cpp", "Solvers/SolversSM.cpp", "Solvers/SolversSMLS.cpp", "Solvers/SolversSMTR.cpp"]
TEST = "The 617 driver tests only compare the final gradient norm of converging runs with 1e-6 on one seed; "

# ---------------------------------------------------------------- storage / linear algebra
prop("E01", "Elements behave as independent values despite shared storage",
 "After any sequence of copies, assignments, pass-by-value, component views and in-place updates, changing one point, vector or matrix never changes the value, shape or realness of another one, and an operation documented as non-modifying leaves its operands unchanged. Every object always reads back exactly the value that a plain deep-copying implementation of the same sequence would give, including the entries an in-place update does not touch.",
 ["histories", "inputs"], "every finite sequence of public storage operations over a pool of real, complex and product elements, with any number of sharers",
 TEST + "aliasing bugs depend on the history of sharing between objects, which no test asserts on.",
 ELEM, [("copy-on-write reference count", "SmartSpace::CopyTo/CopyOnWrite/NewMemoryOnWrite"), ("product element views", "Element::ResetMultiElementsParams")],
 ["public read access to every live object after every operation"],
 [("sharedtimes", "number of objects that share the storage", "Manifolds/SmartSpace.h"), ("Space", "the storage", "Manifolds/SmartSpace.h")])
prop("E02", "Cached factorizations never outlive the value they belong to",
 "Whatever attached data or factorization an object carries, once the object's value or shape is changed by any public operation, every later factorization, solve or query on it is the one of the current value. Data a user attached to an object stays readable and intact under copies and disappears no later than the next change of the value.",
 ["histories", "inputs"], "every interleaving of factorization/solve calls, attachments, copies and in-place modifications on real and complex matrices",
 TEST + "a stale cache needs a factorization, then a modification, then another use of the same object.",
 ELEM, [("field cache cleared on write", "Element::ObtainWrite*Data/CopyOnWrite/NewMemoryOnWrite"), ("FieldsExist short cuts", "Element::{QR,SVD,LU,Chol,EigenSym,Schur}*")],
 ["factor fields and results of solve-type functions, compared with the object's current value"],
 [("Fields", "attached data and cached factors", "Manifolds/Element.h")])
prop("E03", "Element arithmetic agrees with real and complex matrix algebra",
 "Sums, differences, matrix products with any transposition flags, scalar operations, divisions by matrices, entrywise maps and comparisons, inner products and norms of elements return, up to rounding, what textbook real or complex matrix algebra defines, for every compatible shape. In-place forms compute the same values as the corresponding value-returning forms, also when operands are shared or repeated.",
 ["inputs"], "all compatible real and complex shapes (including 1 x n, n x 1, non-square), scalings and operand repetitions",
 TEST + "the element self tests are compiled but never run and only print values.",
 ELEM + ["Others/BlasLapackCppWrapper.cpp"], [("BLAS calls", "Element::AlphaABaddBetaThis and operators")],
 ["returned elements"])
prop("E04", "Matrix factorizations satisfy their defining equations",
 "For every admissible real or complex input the QR, Householder, SVD, symmetric/Hermitian eigen, Cholesky, LU, Schur, Sylvester, triangular-solve, polar-factor and matrix exp/log routines return factors that multiply back to the input, have the required orthonormality, triangularity, ordering or sign structure, and solve the equation they claim to solve, to a small multiple of rounding.",
 ["inputs"], "square, tall, wide where admitted, rank-deficient, repeated-spectrum, badly scaled real and complex inputs",
 TEST + "factorizations are only exercised indirectly, on a few tiny well-conditioned real matrices.",
 ELEM + ["Others/BlasLapackCppWrapper.cpp"], [("LAPACK calls and workspace handling", "Element::*Decom, SYL, SchurForm")],
 ["factor fields and results"])
prop("E05", "FFT, wavelet, sparse and block operations match their definitions",
 "The 2D Fourier transform equals the discrete Fourier sum and its backward transform inverts it up to the documented scale, the Haar transform is inverted exactly by its inverse and preserves norms, and sparse-times-dense products equal the dense product of the same triplets. Taking, assigning, reshaping and transposing blocks, and diagonal, Hadamard, rank-one and reflector products agree entry by entry with their definitions.",
 ["inputs"], "all shapes that the routine admits, real and complex, both sides/directions, arbitrary sparsity patterns",
 TEST + "these routines are used by one or two driver problems of size 2 x 2.",
 ELEM + ["Others/wavelet/wavelet.cpp", "Others/SparseMatrix.cpp", "Others/SparseBLAS/nist_spblas.cpp"],
 [("FFTW / wavelet / NIST sparse BLAS calls", "Element::FFT2D, GetHaarFWT, operator*(SparseMatrix,...)")], ["returned elements"])

# ---------------------------------------------------------------- manifolds
cfg = "every manifold, parameter set, dimension, base point, tangent vectors of any scale"
prop("M01", "Points produced by a manifold lie on the manifold",
 "Random points and every result of a retraction satisfy the defining constraints of the manifold (unit norm, orthonormal columns, symmetric positive definiteness, full rank of factors, consistency between stored factors) to rounding error, for real, complex and product manifolds. Repeated retraction does not let the constraint error grow beyond rounding per step.",
 ["inputs", "configurations", "histories"], cfg + ", and sequences of retractions",
 TEST + "a slow loss of feasibility still converges to a small gradient.",
 MANI, [("QR/polar/Cayley/exponential retractions", "*::Retraction and variants"), ("random points", "*::RandominManifold")], ["returned points"])
prop("M02", "Projection onto tangent spaces is the metric-orthogonal projection",
 "Projecting an ambient vector gives a vector satisfying the tangent-space equations, projecting twice changes nothing, tangent vectors are fixed, and the difference between a vector and its projection is orthogonal to every tangent vector in the manifold's inner product of ambient type. The result may be stored in the argument without changing the outcome.",
 ["inputs", "configurations"], cfg, TEST + "solvers tolerate wrong normal components.",
 MANI, [("projections", "*::Projection/ExtrProjection/IntrProjection")], ["returned vectors"])
prop("M03", "Intrinsic coordinates represent tangent vectors exactly and isometrically",
 "Converting a tangent vector to intrinsic coordinates and back returns the same vector, converting coordinates to a vector and back returns the same coordinates, and inner products agree in both representations where the intrinsic metric is the Euclidean one. The number of coordinates equals the dimension of the manifold, and the same holds for the coordinates of the normal space where offered.",
 ["inputs", "configurations"], cfg, TEST + "a non-isometric basis still gives descent directions.",
 MANI, [("basis via Householder/Cholesky", "*::ObtainIntr/ObtainExtr/ObtainNorVer*")], ["returned vectors"])
prop("M04", "Metric and tangent-vector arithmetic form an inner-product space",
 "The metric is symmetric, bilinear and positive on nonzero tangent vectors and equals the documented inner product of the chosen geometry, and scaling, adding and linear combination of tangent vectors give the linear-algebra result. Documented aliasing of result and argument is allowed and no argument that is not the result is changed.",
 ["inputs", "configurations"], cfg + ", with and without aliasing of result and argument",
 TEST + "never called with the aliasing patterns or metrics outside the defaults.",
 MANI, [("Metric and vector operations", "*::Metric, ScalarTimesVector, ScalarVectorAddVector, VectorLinearCombination")], ["returned values"])
prop("M05", "Retractions fix the base point and agree with tangent vectors to first order",
 "Retracting the zero vector returns the base point and the derivative of t -> R_x(t v) at 0 is v, for every retraction offered; exponential maps move exactly the length of the vector. Where an inverse retraction or a distance is offered it inverts the retraction, is symmetric, vanishes exactly at equal points and agrees with the norm of small steps.",
 ["inputs", "configurations"], cfg, TEST + "any descent-producing map would pass.",
 MANI, [("retractions and inverses", "*::Retraction/InvRetraction/Dist")], ["returned points and vectors"])
prop("M06", "Differentiated retraction, its adjoint and the scale factor are consistent",
 "The differentiated retraction equals the derivative of the retraction along the requested direction, the cotangent operator is its adjoint with respect to the metrics at the two points, and the reported scale factor equals the ratio of the norms of a step and of its transported image. Where only the direction of the step itself is supported this holds for every positive multiple of that direction.",
 ["inputs", "configurations"], cfg, TEST + "line searches hide wrong slopes.",
 MANI, [("differentiated retractions", "*::DiffRetraction, coTangentVector, Beta")], ["returned vectors, compared with finite differences of the retraction"])
prop("M07", "Vector transports are linear isometries with matching inverses",
 "Every vector transport advertised as isometric preserves inner products, is linear, lands in the tangent space of the target point, and is undone by the inverse transport; when the locking option is on, transporting the step itself gives the scaled differentiated retraction. The zero step transports every vector to itself.",
 ["inputs", "configurations"], cfg + ", locking option on and off",
 TEST + "quasi-Newton updates stay convergent with a wrong transport.",
 MANI, [("transports by parallelization/projection/Cayley/parallel translation", "*::VectorTransport, InverseVectorTransport, LC*")], ["returned vectors"])
prop("M08", "Transport and rank-one update of tangent-space operators match vector actions",
 "Transporting an operator equals transporting the argument back, applying the operator and transporting the result forward; one-sided transports of column or row blocks equal the transport of each column or row. A scaled rank-one update acts as adding a multiple of the inner product with the second vector times the first, and result may alias the operator argument.",
 ["inputs", "configurations"], cfg + ", arbitrary operators, all column/row ranges used by products",
 TEST + "operators are never compared with their vector action.",
 MANI, [("operator transports", "*::HInvTran, TranH, TranHInvTran, HaddScaledRank1OPE, ObtainEtaxFlat")], ["returned operators applied to vectors"])
prop("M09", "A product manifold acts component by component",
 "Every geometric operation on a product manifold gives on each component exactly the component manifold's own result, the metric and squared distance are the sums over components, and feeding any component order or multiplicity yields the corresponding permuted result. Using the product does not change the behaviour of its component manifolds afterwards.",
 ["inputs", "configurations"], "products of one to three manifold kinds with multiplicities, real components, intrinsic and extrinsic representations",
 TEST + "one product of one fixed shape is tested.",
 ["Manifolds/MultiManifolds.cpp", "Manifolds/MultiManifolds.h", "Manifolds/Manifold.cpp", "Manifolds/Element.cpp"],
 [("component loops", "MultiManifolds::*")], ["product results against component results"])
prop("M10", "Riemannian gradients and Hessians are derived correctly from Euclidean ones",
 "For any smooth function the gradient handed to the solvers is tangent and its inner product with any tangent vector is the directional derivative of the function, for every metric choice. The Hessian action is linear, symmetric in the metric and equals the second derivative of the function along the manifold at critical points and, where the connection is the Levi-Civita one, along geodesic-like curves.",
 ["inputs", "configurations"], cfg + ", arbitrary quadratic and quartic test functions with known Euclidean derivatives",
 TEST + "Newton-type runs on one cost per manifold converge even with slightly wrong Hessians.",
 MANI + ["Problems/Problem.cpp"], [("conversion of derivatives", "*::EucGradToGrad, EucHvToHv")], ["gradients/Hessian actions against differences of the cost"])

# ---------------------------------------------------------------- problems
prop("P01", "Each supplied problem evaluates its documented cost and derivatives",
 "The cost of every supplied problem equals its documented formula computed independently, its gradient is the derivative of that cost and its Hessian action the derivative of the gradient, for all data shapes it admits. Evaluating never changes the problem's data, and values do not depend on what was evaluated before at the same or another point.",
 ["inputs", "histories"], "all supplied problems, random data shapes including rank and size one, any evaluation order",
 TEST + "data are tiny with fixed seeds, and a scaled gradient still converges.",
 ["Problems/Problem.cpp", "Problems/StieBrockett.cpp", "Problems/CStieBrockett.cpp", "Problems/ProdStieSumBrockett.cpp", "Problems/GrassRQ.cpp", "Problems/EucQuadratic.cpp",
  "Problems/SPDKarcherMean.cpp", "Problems/SFRQLyapunov.cpp", "Problems/CSFRQPhaseRetrieval.cpp", "Problems/CFRankQ2FBlindDecon2D.cpp", "Problems/FRankEWeightApprox.cpp",
  "Problems/FRankESparseApprox.cpp", "Problems/FRankQ2FMatCompletion.cpp", "Problems/SphereConvexHull.cpp", "Problems/SphereSparsestVector.cpp", "Problems/SphereTxRQ.cpp", "Problems/StieSPCA.cpp"],
 [("cost and derivatives sharing cached data", "*::f, EucGrad, EucHessianEta")], ["cost, gradient, Hessian action"])
prop("P02", "Numerical derivatives stand in for missing analytic ones",
 "When a problem supplies no gradient or no Hessian action, or numerical ones are requested, the values used agree with the true derivatives within the truncation error of the difference scheme and evaluating them leaves the point and direction unchanged. Switching between analytic and numerical derivatives changes results only within that error.",
 ["inputs", "configurations"], "all smooth supplied problems, points, directions of any scale including zero",
 TEST + "only convergence with one scale of direction is tested.",
 ["Problems/Problem.cpp", "Problems/Problem.h"], [("difference quotients", "Problem::Grad/HessianEta/EucGrad/EucHessianEta")], ["numerical against analytic derivatives"])
prop("P03", "Proximal maps and preconditioners do what they claim",
 "The proximal map of each nonsmooth problem returns the minimizer of the penalty plus the weighted squared distance, its generalized derivative matches the map's local behaviour, and a preconditioner is symmetric positive so that preconditioned directions remain ascent directions. The extreme-eigenvalue helper returns bounds that match the spectrum of the Hessian on the tangent space.",
 ["inputs"], "arbitrary inputs, thresholds and weights, points on the manifold", TEST + "never evaluated on their own.",
 ["Problems/Problem.cpp", "Problems/FRankESparseApprox.cpp", "Problems/StieSPCA.cpp", "Problems/SFRQLyapunov.cpp", "Problems/SphereTxRQ.cpp"],
 [("soft thresholding and its derivative", "*::ProxW, CalJW"), ("preconditioner", "*::PreConditioner"), ("extreme eigenvalues", "Problem::MinMaxEigValHess")], ["returned vectors"])

# ---------------------------------------------------------------- solvers
sc = "every solver, line search, initial-step rule, problem, start point and parameter setting"
prop("S01", "A solver's report describes the point it returns",
 "When a solver stops, the reported cost and gradient norm are those of the returned point, which lies on the manifold; the recorded series have one entry per iterate, start at the initial point's values and end at the reported ones. The reported evaluation counts equal the evaluations actually made on the problem and the manifold.",
 ["inputs", "configurations"], sc, TEST + "nothing but the final relative gradient norm is read.",
 SOLV + ["Solvers/SolversNSM.cpp", "Solvers/SolversNSMSubLS.cpp", "Solvers/SolversNSMPGLS.cpp"], [("final report", "*::Run, Get*")], ["getters after a run, counting wrappers around problem and manifold"])
prop("S02", "Accepted line-search steps satisfy the requested conditions",
 "Whenever the line search reports success, the accepted step satisfies the chosen condition (Armijo, possibly nonmonotone over the configured window; Wolfe; strong Wolfe; exact) with the cost and slopes re-evaluated independently at the actual new iterate, and lies within the configured step limits. The next iterate is the retraction of the accepted step, and without nonmonotone mode the cost never increases along iterates.",
 ["inputs", "configurations"], sc, TEST + "an unsatisfied condition still converges on well-behaved costs.",
 ["Solvers/SolversSMLS.cpp"], [("line searches", "SolversSMLS::Linesearch*, h, dh, Zoom")], ["state after each line search"])
prop("S03", "Search directions follow each method's definition and are descent directions",
 "Steepest descent uses the negative gradient, conjugate-gradient methods the combination defined by the selected formula with transported quantities, Newton the truncated-CG solution of the Newton equation, and quasi-Newton methods the negative inverse-Hessian approximation applied to the gradient. Every direction used by a line search is tangent and has negative slope.",
 ["inputs", "configurations"], sc, TEST + "a wrong formula still descends.",
 ["Solvers/RSD.cpp", "Solvers/RCG.cpp", "Solvers/RNewton.cpp", "Solvers/RBFGS.cpp", "Solvers/RWRBFGS.cpp", "Solvers/RBroydenFamily.cpp", "Solvers/LRBFGS.cpp", "Solvers/SolversSMLS.cpp"],
 [("search directions", "*::GetSearchDir")], ["direction at every iteration"])
prop("S04", "Trust-region iterations obey the trust-region rules",
 "Every trial step lies in the trust region, does not increase the quadratic model and reduces it at least as much as the steepest-descent step within the region; a step is taken only if the ratio of actual to predicted decrease (or the documented rounding-level exceptions) allows it, otherwise the iterate is unchanged. The radius shrinks on poor agreement, may grow only on good agreement and never exceeds its limit.",
 ["inputs", "configurations"], "every trust-region solver, problem, start point and parameter setting",
 TEST + "acceptance and radius rules are never observed.",
 ["Solvers/SolversSMTR.cpp", "Solvers/RTRNewton.cpp", "Solvers/RTRSD.cpp", "Solvers/RTRSR1.cpp", "Solvers/LRTRSR1.cpp"],
 [("inner solver, acceptance, radius update", "SolversSMTR::Run, tCG_TR; LRTRSR1::tCG_TR")], ["state before and after each iteration"])
prop("S05", "Quasi-Newton updates keep secant equation, symmetry and positive definiteness",
 "After every update that is carried out, the Hessian approximation is symmetric and maps the transported step to the transported gradient difference (or the inverse does the reverse), stays positive definite for the BFGS-type methods, and a skipped update is exactly the transported old approximation. Limited-memory methods act like the corresponding full-memory recursion over the stored, transported pairs, newest pairs replacing oldest.",
 ["inputs", "configurations", "histories"], "every quasi-Newton solver, memory length (0, 1, many), restart interval, update safeguards, problems",
 TEST + "broken updates degrade only the iteration count.",
 ["Solvers/RBFGS.cpp", "Solvers/RWRBFGS.cpp", "Solvers/RBroydenFamily.cpp", "Solvers/LRBFGS.cpp", "Solvers/RTRSR1.cpp", "Solvers/LRTRSR1.cpp", "Solvers/SolversSMLS.cpp", "Solvers/SolversSMTR.cpp", "Solvers/LRBFGSSub.cpp", "Solvers/RBFGSSub.cpp"],
 [("updates and two-loop recursion", "*::UpdateData*, HvRBFGS/HvLRBFGS/HvLRTRSR1")], ["operator action after each update"])
prop("S06", "Solvers stop exactly when their stopping rules say so",
 "A run ends only because the selected criterion is met at the returned point, the iteration or time limit is reached, the user's own criterion fires, or the method reports that no further step is possible; the criterion is not met at any earlier iterate after the minimum number of iterations. The iteration count never exceeds the limit and the minimum number of iterations is honoured.",
 ["inputs", "configurations"], sc + "; all stopping criteria, limits 0, 1, many, user criterion",
 TEST + "one criterion, generous limits.",
 SOLV + ["Solvers/SolversNSM.cpp", "Solvers/SolversNSMSubLS.cpp", "Solvers/SolversNSMPGLS.cpp"], [("stopping tests", "*::IsStopped, Run loops")], ["series and counters after a run"])
prop("S07", "Runs are reproducible and side-effect free",
 "Running a solver changes neither the problem data, the initial point nor the manifold's settings, and two runs from the same inputs give identical results whatever the verbosity, whatever ran before, and whatever other solver objects exist. Running the same solver object again continues exactly like a fresh object started at the point it stopped at (full-matrix quasi-Newton methods keep their operator as the initial one).",
 ["histories", "configurations"], "every solver and problem, orders of runs, verbosity levels, object reuse",
 TEST + "each solver object is run once.",
 SOLV + ["Problems/Problem.cpp", "Manifolds/Element.cpp"], [("per-run initialisation", "*::Run, SetProbX")], ["results, problem data and start point before and after"])
prop("S08", "Subgradient solvers take descent steps along minimum-norm directions",
 "The direction used by the subgradient-based solvers is the negative of (a preconditioned version of) a minimum-norm element of the convex hull of sampled, transported subgradients, each accepted step lowers the cost by the required amount, and the reported measure is the norm of that direction. The tolerance parameters only decrease by their factors.",
 ["inputs", "configurations"], "all subgradient solvers, the sparsest-vector and piecewise-smooth costs, start points, parameters",
 TEST + "one problem, final direction norm only.",
 ["Solvers/SolversNSMSub.cpp", "Solvers/SolversNSMSubLS.cpp", "Solvers/LRBFGSSub.cpp", "Solvers/RBFGSSub.cpp", "Solvers/RGS.cpp", "Others/MinPNormConHull.cpp"],
 [("increasing-precision line search", "SolversNSMSubLS::*")], ["state of each iteration"])
prop("S09", "Proximal-gradient solvers solve the tangent subproblem and decrease the cost",
 "The search direction of the proximal-gradient solvers is tangent and minimises the regularised model over the tangent space up to the requested accuracy, the accepted step satisfies the sufficient-decrease rule, and the composite cost of the non-accelerated method never increases. At termination by criterion the direction's scaled norm is below the tolerance, so the point is first-order stationary.",
 ["inputs", "configurations"], "all proximal-gradient solvers and variants, sparse PCA and sparse approximation data",
 TEST + "only the final norm ratio is read, and one such test is known to fail.",
 ["Solvers/SolversNSMPGLS.cpp", "Solvers/ManPG.cpp", "Solvers/AManPG.cpp", "Manifolds/Manifold.cpp", "Problems/StieSPCA.cpp", "Problems/FRankESparseApprox.cpp"],
 [("semismooth Newton on the normal space", "Manifold::TangentSpaceProximalMap"), ("line search", "SolversNSMPGLS::*")], ["direction and costs of each iteration"])
prop("S10", "Options set by name have the same effect as options set directly",
 "Setting any documented parameter through the name-to-value map gives the same run as assigning it directly, unknown names change nothing, and real-valued options keep their fractional part. Invalid settings are reported by the parameter check rather than silently altered.",
 ["configurations"], "every documented parameter name of every solver and manifold, arbitrary admissible values",
 TEST + "the map interface is used only by the scripting front ends, which are not tested.",
 SOLV + ["Solvers/SolversNSM.cpp", "Solvers/SolversNSMSub.cpp", "Solvers/SolversNSMSubLS.cpp", "Solvers/SolversNSMPGLS.cpp", "Solvers/RCG.cpp", "Solvers/LRBFGS.cpp", "Manifolds/Manifold.cpp"],
 [("name dispatch", "*::SetParams")], ["members after the call, traces of runs"])
prop("S11", "Solvers converge to correct solutions where the solution is known",
 "On problems with a known answer (extreme eigenspaces, linear systems, matrix equations, geometric means, exactly recoverable low-rank data) every solver started inside the basin of attraction ends at a point whose cost equals the optimal cost and whose gradient is small. Superlinear methods reach high accuracy in few iterations.",
 ["inputs", "configurations"], "every smooth solver, random instances of problems with closed-form optima",
 TEST + "one tiny instance per problem, no comparison with the true optimum.",
 SOLV, [("whole solver stack", "Solvers/*")], ["final cost against closed form"])

# ---------------------------------------------------------------- utilities and cross-cutting
prop("U01", "Spline routines interpolate and are smooth",
 "Every cubic spline built by the library interpolates the given samples, is twice continuously differentiable at the knots and satisfies its boundary condition (periodic or prescribed slopes), for uniform and non-uniform knots starting anywhere. Evaluation of value and derivatives is consistent with the coefficients and with each other.",
 ["inputs"], "all sample counts, uniform and non-uniform knots, all offered boundary conditions", "No test touches the spline module.",
 ["Others/Spline.cpp", "Others/Spline.h"], [("tridiagonal and bordered solves", "Spline::*")], ["coefficients and evaluated values"])
prop("U02", "Minimum-norm element of a convex hull is optimal",
 "The minimum-norm helper returns a convex combination of the given tangent vectors, reports its coefficients and norm truthfully, and no vector of the hull makes a smaller inner product with it than its own squared norm beyond the tolerance. It does so for any number of vectors, including one, duplicates and hulls containing the origin, and for any symmetric positive operator supplied.",
 ["inputs"], "arbitrary finite sets of tangent vectors, operators and manifolds", TEST + "only called inside one nonsmooth test.",
 ["Others/MinPNormConHull.cpp", "Problems/SphereConvexHull.cpp"], [("quadratic program and Riemannian fallback", "MinPNormConHull*")], ["returned vector and weights"])
prop("U03", "Random generator is seedable and distributed as documented",
 "Seeding makes every later random draw, random point and random element reproducible, draws stay in their documented ranges and have the documented mean and spread, and random points use no other source of randomness.",
 ["inputs", "histories"], "all seeds and draw sequences", "Tests fix one seed and never look at draws.",
 ["Others/randgen.cpp", "Manifolds/Element.cpp", "Manifolds/SmartSpace.cpp"], [("generator", "genrandseed/genrandreal/genrandnormal")], ["drawn values"])
prop("U04", "Printed elements and self-tests tell the truth",
 "What the library prints about an element, a product, its temporary data, its size or its parameters equals what the object holds, entry by entry, and printing changes nothing. The built-in derivative test of a problem and the built-in self-tests of a manifold (retraction, differentiated retraction, locking condition, cotangent vectors, transports and operator updates) report the quantities they name, leave the point and the representation unchanged, and confirm what the manifold really satisfies.",
 ["inputs", "configurations"], "all element shapes and products, all shipped smooth problems, all manifolds and parameter sets", TEST + "their output is never read.",
 ["Manifolds/Element.cpp", "Manifolds/SmartSpace.cpp", "Manifolds/Manifold.cpp", "Problems/Problem.cpp"], [("printers and self-tests", "Element::Print, Problem::CheckGradHessian, Manifold::Check*")], ["captured standard output"])
prop("R01", "No memory error or undefined behaviour on admissible use",
 "No sequence of admissible calls reads or writes outside allocated storage, uses freed storage, dereferences null, divides integers by zero, overflows signed integers or otherwise has undefined behaviour, for any admissible sizes including one.",
 ["inputs", "histories", "configurations"], "the whole public API under the workloads of all other properties, including smallest sizes, object reuse and unusual options",
 TEST + "run without sanitizers on one size per problem.",
 ELEM + MANI + SOLV + ["Others/Spline.cpp", "Others/MinPNormConHull.cpp", "Others/SparseBLAS/nist_spblas.cpp", "Others/wavelet/wavelet.cpp"],
 [("manual memory management and LAPACK workspaces", "throughout")], ["sanitizer reports"])
prop("R02", "Results never depend on uninitialised memory",
 "Every result, decision and report is a function of the inputs and the seed only: whatever garbage fresh memory holds, the library computes bit-identical values.",
 ["inputs", "histories", "configurations"], "the whole public API, arbitrary initial contents of heap and stack memory",
 TEST + "fresh pages are usually zero, which hides such reads.",
 ELEM + MANI + SOLV, [("malloc'ed storage fully written before reading", "throughout")], ["event traces of two runs with different fill patterns"])
prop("R03", "All memory is released",
 "After all user objects are destroyed the library holds no memory it allocated, on every path including early termination of solvers, failed factorizations and object reuse; running repeatedly does not grow memory.",
 ["histories", "configurations"], "the whole public API under the workloads of all other properties",
 "No test looks at memory.", ELEM + SOLV + MANI, [("reference counts, field cache, solver work arrays", "destructors and DeleteVectors")], ["leak sanitizer and live-block counts"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
