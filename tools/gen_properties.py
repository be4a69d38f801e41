#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
S = "src/"
I = S + "Interfaces/"; A = S + "Algorithm/"; C = S + "Common/"; L = S + "LinAlg/"; LS = A + "LinearSolvers/"; T = L + "TMatrices/"

p("C01", "Reported success is a KKT point of the user's own problem",
  "Whenever a solve reports success or acceptable success, the point, objective value, constraint values, bound multipliers and constraint multipliers handed back satisfy the first-order optimality conditions of the problem exactly as the user stated it (the user's order, signs and units), within the tolerances in force. Objective and constraint values are those of the returned point, multipliers have the documented signs and are zero for absent bounds, and all this holds for every mix of free, one-sided, two-sided and fixed variables and of equality, one-sided, range and free constraints, whatever way of treating bounds, fixed variables, step computation or initialization is selected.",
  ["inputs", "configurations"], "every combination of variable bound kind, constraint kind, problem family and treatment option up to 3 variables and 2 constraints, with up to two simultaneous non-default options",
  "The 23 stable tests solve about ten fixed problems with default options and look at the status or at one printed solution; the mapping between user space and internal space has hundreds of shape combinations they never reach.",
  [I+"IpTNLPAdapter.cpp", A+"IpOrigIpoptNLP.cpp", A+"IpOptErrorConvCheck.cpp", A+"IpIpoptAlg.cpp", I+"IpIpoptApplication.cpp"],
  [("split of user variables/constraints into free, bounded, equality and inequality parts and the way back", "IpTNLPAdapter.cpp: GetSpaces, GetBoundsInformation, ResortX/ResortG/ResortBounds, FinalizeSolution"),
   ("termination test on scaled and unscaled errors", "IpOptErrorConvCheck.cpp: CheckConvergence")],
  ["TNLP::finalize_solution arguments", "IpoptApplication::OptimizeTNLP return value"])

p("C02", "Solvable problems get solved, unsolvable ones are never called solved",
  "A strictly convex quadratic problem with consistent linear constraints is solved to its unique minimizer from every start point, whatever the shape of its bounds and constraints. A problem whose constraints are inconsistent is never reported as solved, a verdict of local infeasibility is only given at a point that violates the constraints, and malformed problems (crossed bounds, negative dimensions, too few degrees of freedom) are refused with the documented status instead of being solved.",
  ["inputs", "configurations"], "every small strictly convex QP over an enumerated grid of bounds, constraint coefficients, sides and start points, including inconsistent and degenerate ones; every malformed-problem kind",
  "Tests contain two or three feasible problems; which verdict is given depends on bound/constraint classes and start points which must all be enumerated.",
  [A+"IpIpoptAlg.cpp", A+"IpBacktrackingLineSearch.cpp", A+"IpRestoMinC_1Nrm.cpp", A+"IpRestoConvCheck.cpp", I+"IpTNLPAdapter.cpp", I+"IpIpoptApplication.cpp"],
  [("restoration phase and its failure verdicts", "IpRestoMinC_1Nrm.cpp, IpRestoFilterConvCheck.cpp"), ("degree-of-freedom and bound checks", "IpTNLPAdapter.cpp: GetSpaces; IpOrigIpoptNLP.cpp")],
  ["return status", "finalize_solution"])

p("C03", "Every solve follows the documented callback protocol and reports exactly once",
  "For every solve, dimensions, bounds, starting point and sparsity structure are requested before any value that needs them, all array arguments have the documented dimensions and nullness, and every solve that starts iterating makes exactly one final report, with no callback after it. The status in that final report, the status returned to the caller and the statistics agree with each other, and iteration callbacks number the iterations 0,1,2,... without gaps.",
  ["configurations", "fault_sequences"], "every termination cause (success, acceptable, infeasible, limits, user stop, evaluation failure, bad numbers, option error, refused structure callback) crossed with small problem shapes",
  "Tests reach the success exit and one or two others; the protocol must hold on every exit path.",
  [I+"IpIpoptApplication.cpp", I+"IpTNLPAdapter.cpp", A+"IpIpoptAlg.cpp"],
  [("status translation and single finalization", "IpIpoptApplication.cpp: call_optimize"), ("callback dispatch", "IpTNLPAdapter.cpp")],
  ["sequence of TNLP callbacks", "ApplicationReturnStatus", "SolveStatistics"])

p("C04", "No evaluation failure or non-finite value is ever mistaken for a result",
  "If any evaluation callback fails, throws or delivers NaN/Inf at any call of any solve, the solve still ends normally with a documented status. It never reports success (or acceptable success) at a point where the needed evaluations failed, never treats stale or uninitialized memory as the failed value, and a failure at a trial point only shortens the step: if later evaluations work the solve can still reach the same solution.",
  ["fault_sequences"], "every single fault (and every pair, thorough) of every kind at every evaluation call position of small solves",
  "Tests never make a callback fail except one fixed scenario; fault position x fault kind is a product space.",
  [I+"IpTNLPAdapter.cpp", A+"IpOrigIpoptNLP.cpp", A+"IpIpoptCalculatedQuantities.cpp", A+"IpBacktrackingLineSearch.cpp", A+"IpIpoptAlg.cpp", I+"IpIpoptApplication.cpp"],
  [("evaluation error exception and step cut-back", "IpOrigIpoptNLP.cpp, IpBacktrackingLineSearch.cpp"), ("evaluation cache invalidation on failure", "IpTNLPAdapter.cpp: internal_eval_*")],
  ["return status", "finalize_solution", "sanitizer"])

p("C05", "A user's stop request is obeyed at once and reports the current iterate",
  "If the user's iteration callback asks to stop at any iteration, in the regular or the restoration phase, the solve ends with the user-stop status, evaluates and iterates no further, and makes its single final report. The point reported is the iterate that was current when the callback ran, expressed in the user's own problem, with consistent objective and constraint values.",
  ["fault_sequences", "configurations"], "a stop at every iteration callback of every problem of the enumerated set, under several algorithm options",
  "Only emptynlp/getcurr style tests touch the callback and none stops in restoration or compares the reported point.",
  [A+"IpIpoptAlg.cpp", A+"IpOptErrorConvCheck.cpp", A+"IpRestoConvCheck.cpp", A+"IpRestoMinC_1Nrm.cpp", A+"IpRestoIpoptNLP.cpp", I+"IpIpoptApplication.cpp"],
  [("stop flag of the iteration callback turned into an exit status", "IpOptErrorConvCheck.cpp: CheckConvergence; IpRestoMinC_1Nrm.cpp")],
  ["intermediate_callback", "finalize_solution", "return status"])

p("C06", "The user's functions are only evaluated where, and as, promised",
  "Every point at which a user function is evaluated during optimization lies within the variable bounds relaxed by the configured relaxation (exactly within them when relaxation is off), and variables fixed by equal bounds are held exactly at that value unless the option that relaxes them is chosen. Whenever an evaluation is flagged as not being at a new point, its point equals that of the preceding evaluation call, and functions declared linear/constant by option are not re-evaluated during the solve.",
  ["inputs", "configurations", "fault_sequences"], "all evaluation calls in solves of the enumerated problem shapes under all bound, fixed-variable and initialization treatments",
  "Tests only look at results; a single out-of-bounds trial point or a wrong new-point flag is invisible unless every call is monitored over many shapes.",
  [I+"IpTNLPAdapter.cpp", A+"IpOrigIpoptNLP.cpp", A+"IpDefaultIterateInitializer.cpp", A+"IpIpoptCalculatedQuantities.cpp", A+"IpBacktrackingLineSearch.cpp"],
  [("bound relaxation and push of the initial point", "IpOrigIpoptNLP.cpp: relax_bounds; IpDefaultIterateInitializer.cpp: push_variables"), ("fraction-to-the-boundary rule", "IpIpoptCalculatedQuantities.cpp"), ("new-point flag", "IpTNLPAdapter.cpp: update_local_x")],
  ["arguments of eval_f/eval_grad_f/eval_g/eval_jac_g/eval_h"])

p("C07", "Equivalent statements of a problem give equivalent answers",
  "Restating a problem without changing its meaning - C or Fortran index base, another order or splitting into duplicates of Jacobian and Hessian entries, explicit structural zeros, upper instead of lower Hessian triangle entries, permuted variables or constraints, infinite bounds written as any value beyond the infinity threshold, a different treatment of fixed variables - does not change the verdict and changes the solution and multipliers only by the corresponding permutation, up to solver tolerance.",
  ["inputs", "configurations"], "all listed restatements (all permutations, all entry orders within the bound) of each enumerated small problem",
  "Tests use one statement of each problem.",
  [I+"IpTNLPAdapter.cpp", T+"IpGenTMatrix.cpp", T+"IpSymTMatrix.cpp", LS+"IpTripletToCSRConverter.cpp", LS+"IpTSymLinearSolver.cpp"],
  [("index translation and entry resorting", "IpTNLPAdapter.cpp: GetSpaces, Eval_jac_c, Eval_jac_d, Eval_h")],
  ["finalize_solution", "return status"])

p("C08", "Mid-solve queries of iterate and violations tell the truth",
  "At every iteration callback, in the regular and in the restoration phase, the current iterate and violation queries return, in the user's order, units and sign convention, exactly the quantities of the current iterate: the point lies within relaxed bounds, constraint values and gradients of the Lagrangian match an independent evaluation, and bound/constraint violations and complementarities match the definition. The objective, infeasibilities and barrier parameter passed to the callback agree with them, and outside a solve the queries report failure.",
  ["inputs", "configurations"], "every iteration of the enumerated problems, for all bound/constraint kinds, fixed-variable treatments, scalings and both phases",
  "The getcurr test does this for one problem with a handful of options, and prints rather than checks most quantities.",
  [I+"IpTNLP.cpp", I+"IpTNLPAdapter.cpp", A+"IpIpoptCalculatedQuantities.cpp", A+"IpOrigIpoptNLP.cpp"],
  [("translation of internal iterate and slack/complementarity vectors to user space", "IpTNLP.cpp: get_curr_iterate, get_curr_violations; IpTNLPAdapter.cpp: ResortX/ResortG/ResortBounds")],
  ["TNLP::get_curr_iterate", "TNLP::get_curr_violations", "intermediate_callback arguments"])

p("C09", "Problem scaling is invisible to the user",
  "For every scaling method and every scaling factor (including negative objective factors, which turn minimization into maximization), evaluation points, final point, objective, constraint values, multipliers and the quantities of the iteration callbacks are in the user's unscaled units, and the solution satisfies the optimality conditions of the unscaled problem. User-provided scaling factors scale exactly the objective, variable or constraint they are given for.",
  ["inputs", "configurations"], "all scaling methods x a grid of factors per objective/variable/constraint x enumerated problem shapes",
  "No stable test uses anything but default gradient-based scaling.",
  [A+"IpNLPScaling.cpp", A+"IpUserScaling.cpp", A+"IpGradientScaling.cpp", A+"IpEquilibrationScaling.cpp", A+"IpOrigIpoptNLP.cpp", I+"IpTNLPAdapter.cpp", L+"IpScaledMatrix.cpp", L+"IpSymScaledMatrix.cpp"],
  [("scale/unscale of vectors and matrices", "IpNLPScaling.cpp, IpScaledMatrix.cpp, IpSymScaledMatrix.cpp")],
  ["all TNLP callbacks", "finalize_solution"])

p("C10", "A solve's outcome does not depend on what ran before it",
  "Solving the same problem with the same options gives bit-identical results, whatever solves (successful, failed, interrupted, of other problems or other dimensions, re-optimizations) were run before on the same or on other application objects in the process. Re-optimizing a changed problem of the same structure gives the result a fresh application gives, and statistics always describe the latest solve.",
  ["histories"], "all sequences of solve operations up to length 3 (4 thorough) over an alphabet of problems, failure modes, option changes and re-optimizations",
  "Tests do at most one or two solves per process.",
  [I+"IpIpoptApplication.cpp", I+"IpTNLPAdapter.cpp", C+"IpTaggedObject.cpp", C+"IpCachedResults.hpp", A+"IpIpoptData.cpp", A+"IpOrigIpoptNLP.cpp", LS+"IpTSymLinearSolver.cpp", LS+"IpMumpsSolverInterface.cpp"],
  [("re-initialization of algorithm objects per solve", "Initialize/InitializeImpl of each strategy object; IpIpoptApplication.cpp: OptimizeNLP/ReOptimizeNLP"), ("cache invalidation by tags", "IpCachedResults.hpp, IpTaggedObject.cpp")],
  ["finalize_solution", "SolveStatistics", "sequence of evaluation points"])

p("C11", "Iteration and time limits are honoured with a usable result",
  "A solve never performs more iterations than the configured maximum, and once the configured CPU or wall-clock budget is exceeded at any moment it stops at the next check with the matching status, in the regular and the restoration phase. On every limit exit the final report carries the last iterate with consistent objective, constraint values and multipliers, and a larger limit follows the very same path of iterates further.",
  ["schedules", "configurations"], "every iteration limit 0..N and every clock position at which a controlled clock jumps past the budget, for each problem of the enumerated set",
  "Time-limit expiry at a given moment cannot be produced by a test without owning the clock.",
  [A+"IpOptErrorConvCheck.cpp", A+"IpRestoConvCheck.cpp", A+"IpIpoptAlg.cpp", A+"IpBacktrackingLineSearch.cpp", C+"IpUtils.cpp", I+"IpIpoptApplication.cpp", A+"IpRestoMinC_1Nrm.cpp"],
  [("limit checks", "IpOptErrorConvCheck.cpp: CheckConvergence; IpBacktrackingLineSearch.cpp; IpPDFullSpaceSolver.cpp")],
  ["return status", "intermediate_callback", "finalize_solution"])

p("C12", "Warm starts use the given primal-dual point, and only as configured",
  "With warm start enabled, the primal values, bound multipliers and constraint multipliers the user supplies become the first iterate up to the documented pushes and bounds on their size, each component in its own place for every problem shape; without it, the user's multipliers are not even requested. Warm-starting from a solution with a small barrier parameter converges again to that solution, and the first iterate is strictly within bounds with positive bound multipliers in every initialization mode.",
  ["inputs", "configurations"], "all bound/constraint shapes x grid of supplied primal-dual points (inside, on and outside bounds; zero, tiny, huge multipliers) x warm-start and initialization options",
  "One example warm-starts one problem from its own solution and does not look at the first iterate.",
  [A+"IpWarmStartIterateInitializer.cpp", A+"IpDefaultIterateInitializer.cpp", I+"IpTNLPAdapter.cpp", A+"IpIpoptData.cpp", A+"IpOrigIpoptNLP.cpp"],
  [("initial iterate construction", "IpWarmStartIterateInitializer.cpp; IpDefaultIterateInitializer.cpp: push_variables, least_square_mults"), ("starting point translation", "IpTNLPAdapter.cpp: GetStartingPoint")],
  ["get_starting_point flags", "first iteration callback + get_curr_iterate", "finalize_solution"])

p("C13", "Concurrent solves in different threads do not influence each other",
  "Independent solves running in several threads of a process produce exactly the results they produce when run alone, for every interleaving of their callbacks and of their uses of shared facilities, and never deadlock or race on shared state. An object handed from one thread to another between solves (create in one, re-optimize in another) behaves as if it had stayed in one thread.",
  ["schedules"], "all interleavings of 2 small solves (and of solve/re-optimize hand-over histories) at callback, lock and linear-solver granularity up to 2 preemptions",
  "No stable test runs two threads, and none controls the schedule.",
  [C+"IpTaggedObject.cpp", LS+"IpMumpsSolverInterface.cpp", C+"IpUtils.cpp", I+"IpIpoptApplication.cpp", C+"IpLibraryLoader.cpp"],
  [("thread-local unique change tags", "IpTaggedObject.cpp"), ("serialized calls of the non-reentrant linear solver", "IpMumpsSolverInterface.cpp: mumps_call_mutex")],
  ["finalize_solution of each thread", "thread sanitizer"])

p("C14", "C, Fortran and Java interfaces behave like the C++ interface",
  "For every problem, option setting and user-callback behaviour, solving through the C, Fortran or Java interface performs the same evaluations and iterations and returns the same status, point, objective, constraint values and multipliers as the C++ interface, with each output array optional where documented. Refused problem creations and options report failure, options set between solves take effect for the next one, and callback failures and stop requests from the other language are obeyed identically.",
  ["inputs", "configurations", "fault_sequences"], "enumerated problem shapes x option settings x null/non-null output combinations x callback failure positions x sequences of interface calls",
  "One hs071 program per language, success path only.",
  [I+"IpStdCInterface.cpp", I+"IpStdInterfaceTNLP.cpp", I+"IpStdFInterface.c", I+"IpStdJInterface.cpp", I+"Ipopt.java"],
  [("adapter from C function pointers to the callback class", "IpStdInterfaceTNLP.cpp"), ("JNI glue", "IpStdJInterface.cpp"), ("Fortran glue", "IpStdFInterface.c")],
  ["IpoptSolve, IPSOLVE, Ipopt.OptimizeTNLP results", "callback traces"])

p("C15", "The derivative checker flags exactly the wrong derivatives",
  "For every problem shape and sparsity pattern, a derivative check of correct derivatives reports no error, and with exactly one (or more) wrong or missing entries of gradient, Jacobian or Hessian it reports exactly those entries, naming the right variable, constraint and entry kind, whatever fixed variables, index base or checked-column subset are selected. The check changes nothing about the solve that follows.",
  ["inputs", "configurations"], "every single wrong entry (pairs, thorough) of every derivative of enumerated problems x checker modes x index base x fixed-variable treatment",
  "No stable test turns the checker on.",
  [I+"IpTNLPAdapter.cpp"], [("finite-difference comparison", "IpTNLPAdapter.cpp: CheckDerivatives")],
  ["journal output of the derivative test", "subsequent solve"])

p("C16", "Finite-difference derivatives match the exact ones in place and value",
  "When gradients or Jacobians are approximated by finite differences, every solve reaches the solution it reaches with exact derivatives, and every approximated entry sits in its right place and agrees with the exact one within discretization error, for every sparsity pattern, bound kind and fixed-variable treatment. The perturbed evaluations never leave the variable bounds and leave no trace: values later used for the unperturbed point are those of the unperturbed point.",
  ["inputs", "configurations"], "all bound/constraint shapes x fixed-variable treatments x approximated quantity x x-at-bound situations",
  "No stable test uses finite-difference gradients or Jacobians.",
  [I+"IpTNLPAdapter.cpp"], [("finite differences", "IpTNLPAdapter.cpp: internal_eval_grad_f, internal_eval_jac_g, initialize_findiff_jac")],
  ["evaluation calls", "finalize_solution", "get_curr_violations gradient of Lagrangian"])

p("C17", "Quasi-Newton mode finds the same solutions without any second derivatives",
  "With a limited-memory Hessian approximation no user Hessian is ever requested, the maintained matrix stays symmetric and equals the documented update of its secant pairs (positive definite where promised), and solves of convex problems end at the solution exact Hessians give, for every memory length, update rule, initialization, restriction to a nonlinear variable subspace and problem shape.",
  ["inputs", "configurations"], "all update types x initializations x memory lengths 0..3 x nonlinear-variable subsets x problem shapes",
  "One stable example uses limited memory with defaults.",
  [A+"IpLimMemQuasiNewtonUpdater.cpp", A+"IpLowRankAugSystemSolver.cpp", A+"IpLowRankSSAugSystemSolver.cpp", L+"IpLowRankUpdateSymMatrix.cpp", L+"IpExpandedMultiVectorMatrix.cpp", I+"IpTNLPAdapter.cpp"],
  [("compact limited-memory update and low-rank augmented solve", "IpLimMemQuasiNewtonUpdater.cpp; IpLowRankAugSystemSolver.cpp")],
  ["eval_h calls", "W matrix of the current iterate vs dense reference", "finalize_solution"])

p("C18", "Linear solver failures and wrong inertia are corrected, never trusted",
  "Whatever answers a linear solver gives - singular, wrong inertia, a request to call again, failure, or an inaccurate solution, at any factorization of a solve - the solve ends with a documented status, terminates, and never reports success at a non-optimal point. A singular or wrong-inertia answer leads to a retry with increased regularization following the documented schedule, regularization never exceeds its configured maximum, and after transient failures the solve still reaches the solution.",
  ["fault_sequences"], "every single (pairs, thorough) non-default answer at every linear-solver call of small solves",
  "The real solver never gives these answers on the test problems, and tests cannot choose when it does.",
  [A+"IpPDFullSpaceSolver.cpp", A+"IpPDPerturbationHandler.cpp", A+"IpStdAugSystemSolver.cpp", LS+"IpTSymLinearSolver.cpp", A+"IpBacktrackingLineSearch.cpp", A+"IpIpoptAlg.cpp"],
  [("inertia correction and perturbation schedule", "IpPDPerturbationHandler.cpp"), ("iterative refinement and quality escalation", "IpPDFullSpaceSolver.cpp")],
  ["return status", "sequence of matrices handed to the linear solver", "finalize_solution"])

p("C19", "Options hold exactly what was validly set",
  "After any sequence of set, set-if-unset, set-default, unset and query operations with or without prefix, an option's value is the last one validly stored, prefixed values take precedence over unprefixed, unset ones yield the registered default, and string values are recognized case-insensitively. A value outside the registered type, range (open or closed ends) or list of strings is refused and changes nothing, protected values are not overwritten, and a numeric value is stored without loss of precision.",
  ["histories"], "all operation sequences up to depth 4 (5 thorough) over a small alphabet of names, prefixes and boundary values; all registered options of the library at and beyond their bounds",
  "Tests set a dozen valid options once.",
  [C+"IpOptionsList.cpp", C+"IpOptionsList.hpp", C+"IpRegOptions.cpp"], [("registry validation and case-insensitive map", "IpOptionsList.cpp: SetStringValue, find_tag; IpRegOptions.cpp: IsValid*Setting")],
  ["OptionsList Set*/Get* results"])

p("C20", "Option files mean what they say",
  "Reading an options file or stream sets exactly the options its text states - comments, blank lines, quoting, line ends and a missing final newline included - with later lines overriding earlier ones and the same validation as programmatic setting. Any malformed content (unknown name, bad or missing value) makes initialization fail with the documented error and is never silently accepted or partially misread, and a missing default file is not an error.",
  ["inputs"], "all token strings up to length 6 (7 thorough) over an alphabet of names, values, separators, comment and quote characters",
  "Tests read at most one well-formed options file.",
  [C+"IpOptionsList.cpp", I+"IpIpoptApplication.cpp"], [("tokenizer", "IpOptionsList.cpp: ReadFromStream, readnexttoken")],
  ["option values after reading", "Initialize return status"])

p("C21", "Vector operations compute their mathematical definition in every storage form",
  "Every vector operation gives the mathematically defined result for every combination of storage states (homogeneous constant, dense, compound, repeated or nested blocks, dimension 0), operand aliasing and scalar special cases, independent of which norms or products were asked for before. Operations that modify a vector invalidate every remembered result, and operands that are not outputs are unchanged.",
  ["histories", "inputs"], "all operation sequences up to depth 2-3 over all vector operations, all storage states, special scalars and aliasing patterns, against a plain array reference",
  "There are no unit tests of the linear algebra layer at all.",
  [L+"IpVector.hpp", L+"IpVector.cpp", L+"IpDenseVector.cpp", L+"IpCompoundVector.cpp", L+"IpBlas.cpp"], [("homogeneous shortcut and cached results", "IpDenseVector.cpp; IpVector.hpp")],
  ["Vector public operations"])

p("C22", "Matrix operations compute their mathematical definition for every matrix type",
  "For every matrix type and nesting of matrix types, products with vectors, transposed products, row/column maxima, scaled and expanded forms, and conversion to triplet form all agree with the explicit dense matrix, for all scalar factors (including zero, where old result content must be ignored) and for vectors in every storage state.",
  ["inputs", "histories"], "all matrix types x all sparsity patterns and value alphabets up to 3x3 x all scalar factors x vector storage states",
  "There are no unit tests of the linear algebra layer at all.",
  [L+"IpMatrix.cpp", L+"IpExpansionMatrix.cpp", L+"IpCompoundMatrix.cpp", L+"IpCompoundSymMatrix.cpp", L+"IpSumMatrix.cpp", L+"IpScaledMatrix.cpp", L+"IpDenseGenMatrix.cpp", L+"IpDenseSymMatrix.cpp", T+"IpGenTMatrix.cpp", T+"IpSymTMatrix.cpp", T+"IpTripletHelper.cpp"],
  [("matrix-vector kernels", "Mult*Impl of each matrix class"), ("triplet conversion", "IpTripletHelper.cpp")],
  ["Matrix public operations", "TripletHelper"])

p("C23", "A remembered result is never served for changed inputs",
  "Whatever sequence of computations, changes of inputs, insertions, evictions, invalidations and destructions of inputs occurs, a cached result is returned if and only if it was stored for exactly the current state of all its inputs and has not been evicted or invalidated, and change notification reaches every registered observer exactly once with destroyed observers or subjects leaving no dangling links.",
  ["histories"], "all reachable states of caches with sizes 0..3 over 2-3 inputs, breadth-first over operation sequences, against a reference map",
  "No test touches caches directly; staleness needs specific sequences of changes.",
  [C+"IpCachedResults.hpp", C+"IpTaggedObject.hpp", C+"IpTaggedObject.cpp", C+"IpObserver.hpp", C+"IpObserver.cpp"],
  [("tags, dependents lists and stale marking", "IpCachedResults.hpp: DependentResult, CachedResults")], ["CachedResults public operations", "Observer callbacks"])

p("C24", "Shared objects live exactly as long as they are referenced",
  "Under every sequence of creating, copying, assigning, swapping in place, casting, resetting and destroying smart pointers (self-assignment and chains included), an object is destroyed exactly when its last smart pointer goes away, never earlier and never twice. After every solve, however it ended (including refused problems, failing callbacks and option errors), releasing the user's handles releases every object and all memory the library allocated.",
  ["histories", "fault_sequences"], "all sequences up to depth 5 of smart-pointer operations over 3 pointers and 2 objects; every early exit position of a solve with leak detection",
  "Tests run without leak checking and on success paths.",
  [C+"IpSmartPtr.hpp", C+"IpReferenced.hpp", I+"IpTNLPAdapter.cpp", I+"IpIpoptApplication.cpp", I+"IpStdCInterface.cpp"],
  [("intrusive reference count", "IpSmartPtr.hpp, IpReferenced.hpp"), ("exception-path clean-up", "IpTNLPAdapter.cpp")], ["object destruction events", "leak sanitizer"])

p("C25", "Accepted steps make the promised progress",
  "Outside the documented exceptions (restoration, watchdog, soft restoration, tiny steps, full acceptance options), every iterate accepted by the filter line search is not dominated by any pair the filter contains and sufficiently reduces constraint violation or barrier objective. The filter itself accepts a pair exactly if no stored pair dominates it and after any sequence of additions stores no dominated pair, and with the monotone strategy the barrier parameter never increases within the regular phase.",
  ["histories", "inputs"], "all add/query/clear sequences up to depth 5 over a grid of pairs (2-D and 3-D filter); all iterations of the enumerated problems for the trajectory part",
  "Tests check end results only; filter contents are never looked at.",
  [A+"IpFilter.cpp", A+"IpFilterLSAcceptor.cpp", A+"IpBacktrackingLineSearch.cpp", A+"IpMonotoneMuUpdate.cpp", A+"IpPenaltyLSAcceptor.cpp"],
  [("filter and sufficient-decrease tests", "IpFilterLSAcceptor.cpp, IpFilter.cpp"), ("monotone barrier update", "IpMonotoneMuUpdate.cpp")], ["Filter operations", "intermediate_callback sequence"])

p("C26", "The linear system layer solves the system it is given and counts its inertia",
  "For every symmetric matrix given in any triplet order with any duplicates, the linear solver layer returns solutions of exactly that system for each right-hand side, reports the true number of negative eigenvalues, reports singular systems as singular, and detects wrong inertia when asked to check, whatever scaling, memory increase or re-use of a previous analysis is active. The conversions to compressed row formats represent the same matrix entry by entry.",
  ["inputs", "histories"], "all symmetric matrices up to 3x3 over a small value alphabet, all entry orders/duplications, all scalings, and call sequences (new matrix, same matrix, several right-hand sides)",
  "Tests use the linear solver only indirectly on well-behaved systems.",
  [LS+"IpTSymLinearSolver.cpp", LS+"IpTripletToCSRConverter.cpp", LS+"IpMumpsSolverInterface.cpp", LS+"IpSlackBasedTSymScalingMethod.cpp", A+"IpStdAugSystemSolver.cpp", A+"IpAugRestoSystemSolver.cpp"],
  [("triplet conversion, scaling, inertia check, retry protocol", "IpTSymLinearSolver.cpp; IpMumpsSolverInterface.cpp")], ["SymLinearSolver::MultiSolve", "NumberOfNegEVals"])

p("C27", "Any callback and option mix finishes: no crash, hang or undefined behaviour",
  "For every combination of up to two (three, thorough) non-default algorithm options, a small valid problem ends with a documented status after finitely many steps, without crashing, undefined behaviour or use of uninitialized data, and an option value accepted by validation is never rejected or misapplied later. Success reported under any option mix is genuine, and options documented as affecting output only do not change the iterates.",
  ["configurations"], "all pairs of values of all registered algorithm options (choice options: every setting; numeric options: representative and boundary values) on small problems with and without restoration",
  "Tests use under ten of about 300 options and never pairs.",
  [A+"IpAlgBuilder.cpp", A+"IpAdaptiveMuUpdate.cpp", A+"IpQualityFunctionMuOracle.cpp", A+"IpProbingMuOracle.cpp", A+"IpLoqoMuOracle.cpp", A+"IpPenaltyLSAcceptor.cpp", "contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp", A+"IpIpoptAlg.cpp"],
  [("strategy construction from options", "IpAlgBuilder.cpp")], ["return status", "finalize_solution", "sanitizer"])

p("C28", "Messages reach exactly the journals that asked for them",
  "After any sequence of adding, configuring, redirecting and deleting journals, each printed message appears in full exactly once in each journal whose level for the message's category is at least the message's level, in order, and in no other. Print level options, output file options and console suppression work accordingly, and printing never alters the solve.",
  ["histories", "configurations"], "all sequences up to depth 4 of journal operations over 2 journals x 3 categories x 3 levels; all print-level/output-file option combinations of a small solve",
  "Tests only look at console output of a default run.",
  [C+"IpJournalist.cpp", C+"IpJournalist.hpp", I+"IpIpoptApplication.cpp"], [("level test and fan-out", "IpJournalist.cpp: Printf, VPrintf, ProduceOutput")], ["journal contents"])

p("C29", "The AMPL solver reads the model it is given and writes back its true solution",
  "For every well-formed .nl model (any mix of variable and constraint bounds, fixed variables, maximization, linear and nonlinear parts, suffixes, initial primal and dual values), the solver executable solves that model and writes a solution file with the primal and dual values and the solve code matching the outcome, in the model's order and sign conventions. Options from the environment variable, the command line and an options file take effect with documented precedence.",
  ["inputs", "configurations"], "all enumerated small QP models written as .nl text (bound kinds, constraint kinds, min/max, linear/nonlinear rows) x outcome kinds x option sources",
  "One model (mytoy.nl) is run and only its success message is looked at.",
  ["src/Apps/AmplSolver/AmplTNLP.cpp", "src/Apps/AmplSolver/ampl_ipopt.cpp"], [("model translation and solution writing", "AmplTNLP.cpp: get_bounds_info, eval_*, finalize_solution, write_solution_file")], [".sol file", "exit behaviour"])

p("C30", "Computed sensitivities are the true first-order response of the solution",
  "For every parametric problem, the sensitivity step equals the true derivative of the solution (variables, constraint and bound multipliers) with respect to the parameters times the perturbation, for every parameter subset, order and perturbation; the reduced Hessian equals the projection of the inverse KKT matrix for the declared variables; both are independent of parameter numbering and problem scaling.",
  ["inputs", "configurations"], "all small parametric QPs of the enumerated family x parameter subsets/orders x perturbations x scaling and bound options",
  "Two example programs with one problem each.",
  ["contrib/sIPOPT/src/SensApplication.cpp", "contrib/sIPOPT/src/SensStdStepCalc.cpp", "contrib/sIPOPT/src/SensIndexPCalculator.cpp", "contrib/sIPOPT/src/SensDenseGenSchurDriver.cpp", "contrib/sIPOPT/src/SensReducedHessianCalculator.cpp", "contrib/sIPOPT/src/SensSchurData.cpp"],
  [("Schur complement backsolve", "SensDenseGenSchurDriver.cpp, SensIndexPCalculator.cpp")], ["sens_sol_state_1 metadata", "reduced Hessian output"])

p("C31", "Problem reductions are transparent",
  "Dropping constraints, dropping or keeping variable bounds, fixing variables through the reducing wrapper, replacing bounds by inequality constraints and removing linearly dependent equality constraints all leave the user with answers to the original problem: the same solution, constraint values for all constraints, multipliers in the original order with those of removed items zero or correctly recovered, and unchanged callback conventions.",
  ["inputs", "configurations"], "all subsets of dropped constraints/bounds/fixed variables for enumerated shapes; all small Jacobians with dependent rows",
  "No stable test uses any of these reductions.",
  [I+"IpTNLPReducer.cpp", A+"IpNLPBoundsRemover.cpp", I+"IpTNLPAdapter.cpp", LS+"IpTSymDependencyDetector.cpp"],
  [("index maps of the wrapper", "IpTNLPReducer.cpp"), ("bounds as constraints", "IpNLPBoundsRemover.cpp"), ("dependency detection", "IpTNLPAdapter.cpp: DetermineDependentConstraints")], ["finalize_solution", "callback arguments"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
