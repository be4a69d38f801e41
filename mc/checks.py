"""Registry of checks: property -> parts, level, rule."""
import os
import build as B

def prog(name, flavor, harness, groups=("lib",), extra=(), **kw):
    return lambda: B.build(name, flavor, harness, groups, extra, **kw)

def solve(name, extra=()):
    return prog(name, "opt", [name + ".cpp"], ("lib",), extra)

CHECKS = {}

def check(id, level, rule, parts, bounds="", assumptions=()):
    CHECKS[id] = {"level": level, "rule": rule, "parts": parts, "bounds": bounds, "assumptions": list(assumptions)}

opt_common = prog("h_options", "asan", ["h_options.cpp"], ("common",))
opt_app = prog("h_options_app", "opt", ["h_options.cpp"], ("lib",), ("-DWITH_APP",))

check("C18", "model_checking",
      "Regularization: the real PDPerturbationHandler and an independent model of the documented schedule are driven through all sequences of {new system, new system with smaller mu, singular, wrong inertia} for 8 option settings and must agree in every delivered perturbation. "
      "Faults: each answer a linear solver can give (singular, wrong inertia, call again, fatal error, NaN, Inf, zero, slightly or grossly wrong solution, exception, out of memory) is given at each of its calls, once, twice, five times, forever or every other time; the values array is "
      "destroyed after each call as real solvers do. During each solve a watched handler compares every request with the solver's preceding answer, every perturbation with the schedule, and every matrix with its predecessor plus the delivered change. "
      "Final answers are judged by the KKT oracle, transient faults in convex problems must not change the answer. A state is a distinct (schedule state | status, calls, iterations, result).",
      [{"name": "schedule", "build": solve("h_linsolve"), "args": ["--mode", "handler"]},
       {"name": "shapes", "build": solve("h_linsolve"), "args": ["--mode", "shapes"]},
       {"name": "special", "build": solve("h_linsolve"), "args": ["--mode", "special"]}],
      "schedule: 9 (thorough 12) operations; faults: first 16 (60) linear solver calls and the last of each solve, n=2, m<=2 plus special problems, 9 (24) option settings, thorough also a second fault within 8 calls",
      ["wrong inertia is only answered when inertia was asked for, singular only for a factorization", "starting points computed directly by the linear solver (least_square_init_primal, Mehrotra) are not checked for NaN by Ipopt", "bounds may be exceeded by 1e-10 through slack_move"])

check("C19", "model_checking",
      "Every operation sequence up to the depth over the option operations is executed on the real option list and on a reference map; "
      "all queries with all prefixes are compared after each operation. A state is a distinct content of the reference map.",
      [{"name": "sequences", "build": opt_common, "args": ["--mode", "seq"]},
       {"name": "values", "build": opt_common, "args": ["--mode", "value"]},
       {"name": "registered", "build": opt_app, "args": ["--mode", "all"]}],
      "sequences of 3 (thorough 4) operations out of 49; every option registered in the library at/beyond its bounds")
check("C20", "model_checking",
      "Every text over the atom alphabet up to the length is parsed by the real reader and by an independent reference reader; "
      "accept/refuse verdict and all resulting option values are compared. A state is a distinct (resulting options, verdict).",
      [{"name": "texts", "build": opt_common, "args": ["--mode", "file"]},
       {"name": "lines", "build": opt_common, "args": ["--mode", "line"]},
       {"name": "long", "build": opt_common, "args": ["--mode", "long"]},
       {"name": "bytes", "build": opt_common, "args": ["--mode", "bytes"]},
       {"name": "init", "build": opt_app, "args": ["--mode", "init"]},
       {"name": "application", "build": opt_app, "args": ["--mode", "appfile"]}],
      "texts of up to 5 (thorough 6) of 16 atoms; one- and two-line files over 31 value literals; runs of 22 lengths up to 70000; every byte value at 7 places; all ways of initializing x existing files x option_file_name x earlier settings",
      ["text glued to a closing quote has no documented meaning and is excluded"])

def setup():
    for fl in ("opt", "asan"):
        B.build("warm", fl, [os.path.join(B.VERIF, "harness/warm.cpp")], ("lib",))

check("C01", "model_checking",
      "Each execution solves one problem shape with one set of non-default treatment options and checks the KKT conditions in user space on "
      "every reported success. A state is a distinct (status, rounded solution, rounded multipliers, constraint kinds).",
      [{"name": "shapes", "build": solve("h_kkt"), "args": ["--mode", "small", "--maxdev", 1]},
       {"name": "mumps", "build": solve("h_kkt"), "args": ["--mode", "mumps", "--maxdev", 0]},
       {"name": "special", "build": solve("h_kkt"), "args": ["--mode", "special"], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 2]},
       {"name": "big", "build": solve("h_kkt"), "args": ["--mode", "big", "--maxdev", 1], "thorough_only": True}],
      "4 problem families, all bound kinds x constraint kinds with n<=2, m<=2 (n=3 thorough), one of 67 treatments (pairs on 9 special problems, thorough)")
check("C02", "model_checking",
      "Each execution solves one problem and compares the verdict with an exact oracle (active-set enumeration for strictly convex QPs, known inconsistency, known malformedness). "
      "A state is a distinct (status, rounded result).",
      [{"name": "convex", "build": solve("h_verdict"), "args": ["--mode", "convex"]},
       {"name": "infeasible", "build": solve("h_verdict"), "args": ["--mode", "infeasible"]},
       {"name": "malformed", "build": solve("h_verdict"), "args": ["--mode", "malformed"]}],
      "n<=2 (thorough 3), m<=2, 5 bound kinds, 5 constraint kinds, 7 starts; 12 inconsistent problems x 4 starts x 22 option sets; 12 malformations at each index")
check("C08", "model_checking",
      "Each execution is one solve in which every iteration callback queries iterate and violations (with every array given and with each omitted) and compares with an "
      "independent evaluation, with the algorithm's own iterate and with the callback arguments; the solve is repeated without queries and must be bit-identical. "
      "A state is a distinct sequence of (mode, rounded iterate).",
      [{"name": "shapes", "build": solve("h_query"), "args": ["--mode", "shapes"], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 1]},
       {"name": "special", "build": solve("h_query"), "args": ["--mode", "special"], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 2]}],
      "2 nonlinear families x all bound and constraint kinds, n<=2 (3), m<=2; 9 special problems (restoration, infeasible, unbounded) x 3 starts x each variable fixed; each with 32 option treatments (pairs, thorough)")
check("C03", "model_checking",
      "Each execution is one solve of one problem shape with one (thorough: two) of 68 ways of ending or configuring it; a monitor checks every callback's order, dimensions and nullness, "
      "and final report, returned status and statistics are compared. A state is a distinct sequence of callbacks with its verdicts.",
      [{"name": "shapes", "build": solve("h_protocol"), "args": ["--mode", "shapes", "--maxdev", 1]},
       {"name": "special", "build": solve("h_protocol"), "args": ["--mode", "special"], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 2]}],
      "2 families x all bound and constraint kinds (n<=2, thorough 3; m<=2) and 9 special problems, 68 endings/configurations")
check("C04", "model_checking",
      "Each execution is one solve in which one evaluation (its number, from the first to the cap and the last; once, from then on, or always at that point) fails, "
      "delivers NaN or an infinity, or throws; solves are done twice with fresh memory filled differently and must agree bit for bit; successes are checked against the KKT conditions. "
      "A state is a distinct (status, sequence of evaluation points).",
      [{"name": "special", "build": solve("h_fault"), "args": ["--mode", "special"]},
       {"name": "shapes", "build": solve("h_fault"), "args": ["--mode", "shapes"]}],
      "9 special problems x 12 (thorough 18) configurations and 3 families x bound/constraint kinds; 6 callbacks; calls 0..5 and last (thorough: first 200), 7 kinds of failure")
check("C05", "model_checking",
      "For every problem and configuration a solve without stop is recorded; then the solve is repeated with a stop request at every single iteration callback (with and without queries before it); "
      "status, course before the stop, silence after it and the reported point are compared with the record. A state is a distinct (callback, reported point).",
      [{"name": "special", "build": solve("h_stop"), "args": ["--mode", "special", "--maxdev", 1]},
       {"name": "shapes", "build": solve("h_stop"), "args": ["--mode", "shapes", "--maxdev", 1]}],
      "9 special problems x starts x fixed variable and 2 families x all bound/constraint kinds with n<=2, m<=1 (thorough 2), 25 configurations, every callback (first 25 iterations; thorough 200)")
check("C06", "model_checking",
      "Every solve of the enumeration is done twice, once by a user who recomputes everything and once by a user who recomputes only if told that the point is new; every evaluation point of every callback "
      "is checked against the (relaxed) bounds, the fixed values and the previous point; both courses must be identical. A state is a distinct sequence of (callback, point).",
      [{"name": "special", "build": solve("h_points"), "args": ["--mode", "special"], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 2]},
       {"name": "shapes", "build": solve("h_points"), "args": ["--mode", "shapes", "--maxdev", 1]}],
      "9 special problems x 4 starts x each variable fixed; 2 (thorough 3) families x all bound/constraint kinds with n<=2 (3), m<=1 (2) x starts in- and outside; 58 treatments (pairs on special problems, thorough)")
check("C07", "model_checking",
      "Each execution solves one problem in its canonical statement and in one (thorough, special problems: two) of its restatements and compares verdict, solution and multipliers mapped back; "
      "restatements that leave the internal problem unchanged must give bit-identical results. A state is a distinct (restatement, status, rounded result).",
      [{"name": "special", "build": solve("h_restate"), "args": ["--mode", "special"], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 2]},
       {"name": "shapes", "build": solve("h_restate"), "args": ["--mode", "shapes", "--maxdev", 1]}],
      "9 special problems x each variable fixed x 5 configurations, 1 (thorough 2) families x all bound/constraint kinds (n<=2, thorough 3; m<=2); index base, 6 infinities, entry orders/duplications/flips/zeros per entry, "
      "all variable and constraint permutations, 4 compressed matrix formats, 3 other fixed-variable treatments")
check("C09", "model_checking",
      "Each execution is one solve under one scaling method and one set of factors; at every iteration the objective and constraint values in user units are compared with an independent evaluation and the internal iterate with "
      "the factors (given ones, or recomputed independently for the gradient-based method); every evaluation point must lie within the user's bounds; successes are checked against the KKT conditions and the exact minimizer; "
      "for power-of-two factors the course of iterates must agree with that of a user who states the scaled problem by hand. A state is a distinct sequence of rounded iterates.",
      [{"name": "user", "build": solve("h_scale"), "args": ["--mode", "shapes", "--maxdev", 1]},
       {"name": "automatic", "build": solve("h_scale"), "args": ["--mode", "shapes-auto", "--maxdev", 1]},
       {"name": "user-special", "build": solve("h_scale"), "args": ["--mode", "special"], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 2]},
       {"name": "automatic-special", "build": solve("h_scale"), "args": ["--mode", "special-auto"], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 2]}],
      "2 families x all bound/constraint kinds with n<=2 (thorough 3), m<=2, and 9 special problems x each variable fixed; 17 user factor patterns (powers of two, odd, large, maximization, unused arrays), 16 settings of "
      "gradient-based/none scaling, 22 algorithm treatments (one deviation; on special problems two, thorough)",
      ["equilibration-based scaling needs HSL MC19, which is not available here", "problems without free variables under warm start keep the given multipliers"])
check("C10", "model_checking",
      "Each execution is one history of operations on one or two applications (solves of 7 problems, 6 ways a user misbehaves, re-optimizations with 3 data variants, another or a new application, Initialize, toggling one of 26 option sets); "
      "the complete record of every solve (status, final report, iterations, evaluation points, statistics) is compared bit for bit with that of the same solve as the only one in a pristine process. A state is a distinct sequence of operations and records.",
      [{"name": "dense", "build": solve("h_history"), "args": ["--mode", "dense"]},
       {"name": "mumps", "build": solve("h_history"), "args": ["--mode", "mumps"]},
       {"name": "alternating", "build": solve("h_history"), "args": ["--mode", "long"]}],
      "all histories of 3 (thorough 4) operations ending in a solve with the dense linear solver stub, 2 (thorough 3) with MUMPS, and alternations of two operations up to length 8 (12)",
      ["re-optimization after a change of options reuses the configured algorithm by documentation and is excluded", "the option sets of a history do not name the same option twice"])
check("C11", "model_checking",
      "For every problem and configuration a solve without limits is recorded; then it is repeated with every iteration limit and, under a clock owned by the harness (every evaluation, objective value or callback takes one second), with every (spaced) "
      "wall-clock/CPU budget, and with time jumping past the budget at every (spaced) reading of the clock. Status, number of callbacks, course before the limit, and the reported point are compared with the record. A state is a distinct (status, callbacks, reported point).",
      [{"name": "special", "build": solve("h_limit"), "args": ["--mode", "special", "--maxdev", 1]},
       {"name": "shapes", "build": solve("h_limit"), "args": ["--mode", "shapes", "--maxdev", 1]}],
      "9 special problems x starts x fixed variable and 1 family (thorough 2) x all bound/constraint kinds with n<=2, m<=1 (thorough 2), 25 configurations, first 25 iterations (thorough 100); up to 30 budgets and 40 clock positions (shapes: 5/6; thorough: 400/1000)",
      ["time spent in setting up a restoration phase is only noticed when that phase has ended", "in a watchdog the iterate from before it is reported (documented)", "multipliers of a square problem are only computed if there is time left"])

check("C12", "model_checking",
      "Each execution is one solve observed at its first iteration callback; primal point, slacks, bound multipliers (of variables and constraint sides) and constraint multipliers of the first iterate are compared with an independent "
      "reconstruction of the documented initialization (pushes, caps, least-square estimates) in the scaled internal space; which start values were requested is checked. Part 'again' warm-starts every problem from its own solution. "
      "A state is a distinct (rounded first iterate, start pattern) resp. (status, iterations, result).",
      [{"name": "warm", "build": solve("h_init"), "args": ["--mode", "warm", "--maxdev", 1]},
       {"name": "cold", "build": solve("h_init"), "args": ["--mode", "cold", "--maxdev", 1]},
       {"name": "again", "build": solve("h_init"), "args": ["--mode", "again"]}],
      "1 family (thorough 2) x all bound/constraint kinds with n<=2 (3), m<=2; 9 start patterns (inside, on, near, beyond bounds) x 3 (6) dual patterns (zero, tiny, huge, negative); 37 warm and 33 cold option sets; "
      "again: 3 families and 9 special problems with linearly independent active constraints, 9 option sets, fresh and re-optimizing application",
      ["pushes below the rounding error of a bound are not kept", "least-square multipliers are only predicted for full-rank constraints and (all multipliers) problems whose variables all have bounds"])

def comp(name, extra=(), flavor="opt"):
    return prog(name, flavor, [name + ".cpp"], ("linalg",), extra)
check("C21", "model_checking",
      "Every operation with every operand choice and scalar is applied to vectors in every storage form (homogeneous, array, empty, compound, nested, repeated block) with and without results remembered before; values, operands and all queries "
      "(norms, sums, extrema, products, validity) are compared with plain arithmetic after each operation, also on a copy. A state is a distinct (space, result).",
      [{"name": "single", "build": comp("h_vector"), "args": ["--mode", "single"]},
       {"name": "sequences", "build": comp("h_vector"), "args": ["--mode", "seq"]},
       {"name": "special", "build": comp("h_vector"), "args": ["--mode", "special"]}],
      "7 spaces (dimensions 0..3, up to 3 leaves), 7-11 leaf states, 21 operations, scalars 0,1,-1,0.5; all sequences of 2 (thorough 3) operations; garbage/NaN in results that are overwritten; all subranges up to length 3",
      ["the result of AddOneVector/AddTwoVectors/AddVectorQuotient is not one of the operands", "operations leading to non-finite values end a sequence", "Max/Min of an empty vector have no meaning"])


check("C22", "model_checking",
      "Every matrix type, every leaf structure and every nesting (transpose, scaled, sum, compound, symmetric compound, low rank, expanded multi vectors) up to depth 1 (2) is built together with its explicit dense matrix; products and transposed products "
      "with all factor/vector state combinations, AddMSinvZ, SinvBlrmZMTdBr, row/column maxima, validity (one NaN placed) and the triplet form must agree; all updating operations of dense and multi vector matrices, factorizations and vector/array conversion are enumerated too. A state is a distinct (matrix type, values).",
      [{"name": "general", "build": comp("h_matrix"), "args": ["--mode", "gen"]},
       {"name": "symmetric", "build": comp("h_matrix"), "args": ["--mode", "sym"]},
       {"name": "operations", "build": comp("h_matrix"), "args": ["--mode", "ops"]},
       {"name": "operations-asan", "build": comp("h_matrix", flavor="asan"), "args": ["--mode", "ops"], "thorough_only": True}],
      "dimensions 0..4, all sparsity patterns up to 4 entries, all injections, 5 compound shapes (thorough: nested ones, depth 2), factors 0,1,-0.5 / 0,1,-2, vectors homogeneous/zero/array/NaN result",
      ["norms and triplet forms a type declares as not implemented are skipped", "norms of matrices with repeated entries or sums are bounds only and not compared", "triplet form of a symmetric matrix inside of an unsymmetric one has one triangle only and is not compared"])

cache_common = prog("h_cache", "asan", ["h_cache.cpp"], ("common",))
check("C23", "model_checking",
      "Every sequence of store/change/destroy/invalidate/clear/query operations on a real result cache (all capacities) and every sequence of attach/detach/notify/destroy operations on subjects and observers is executed and compared with a reference model after each step; "
      "for the about 100 caches of the algorithm's quantities, every sequence of iterate/barrier parameter/step changes with every set of queries in between is executed and all quantities compared with those of an object that never saw anything before; the same comparison is made at every iteration of enumerated solves, including restoration phases. A state is a distinct (cache content | attachment | quantities).",
      [{"name": "cache", "build": cache_common, "args": ["--mode", "cache"]},
       {"name": "keys", "build": cache_common, "args": ["--mode", "cachekeys"]},
       {"name": "observers", "build": cache_common, "args": ["--mode", "observer"]},
       {"name": "quantities", "build": solve("h_cq"), "args": ["--mode", "hist"]},
       {"name": "solves", "build": solve("h_cq"), "args": ["--mode", "solve"], "quick_args": ["--maxdev", "1"], "thorough_args": ["--maxdev", "1"]}],
      "capacities 0,1,2,3,unlimited; 6-11 keys over 2 objects and scalars; 4 (thorough 5) operations; 2-3 observers x 2 subjects, 5 (6) operations; quantities: 3 (4) changes out of 11 with 2 query sets, 2 (3) with 6 sets, 2 (4) problems; solves: all 2-variable shapes x 20 option settings",
      ["an observer does not attach to the same subject twice and does not change attachments from within a notification"])

memory = prog("h_memory", "opt", ["h_memory.cpp"], ("lib",), ("-DMEM_SOLVE", "-DMEM_COUNT"))
check("C24", "model_checking",
      "Every sequence of creating, copying, assigning (pointers, raw pointers, chained successors, derived and const pointers, themselves), swapping, casting, storing and resetting smart pointers is executed; after each step destruction, reference counts, targets and comparisons "
      "are compared with a reference model of who refers to whom. Every enumerated solve (failure of each callback at each of its calls in 5 ways, 13 ways to tamper with the problem, 34 option settings, re-optimization) is executed with all of the process' "
      "memory allocations counted: after releasing all handles not one block may be left. A state is a distinct (pointer configuration | status and callback counts).",
      [{"name": "smart-pointers", "build": prog("h_memory", "asan", ["h_memory.cpp"], ("common",)), "args": ["--mode", "smart"]},
       {"name": "solves", "build": memory, "args": ["--mode", "shapes"]},
       {"name": "special", "build": memory, "args": ["--mode", "special"]},
       {"name": "mumps", "build": memory, "args": ["--mode", "mumps"]},
       {"name": "out-of-memory", "build": memory, "args": ["--mode", "oom"]}],
      "3 objects, 2 (thorough 3) pointers plus const/derived/base pointers and a vector, 4 (5) operations; solves: 2 families, 2x2 shapes with n=2, m<=2, first 3 (25) calls of each callback and the last, dense linear solver and MUMPS; "
      "out of memory: every allocation of a solve fails",
      ["no cycles of references", "memory left after an allocation failed (out of memory) is not accounted, only status and absence of crashes", "NaN in matrices is not handed to MUMPS, which may crash on it"])

symlin = prog("h_symlin", "opt", ["h_symlin.cpp"], ("lib",), link=("-Wl,--wrap=dmumps_c",))
check("C26", "model_checking",
      "Every triplet pattern (any order, both triangles, duplicates, empty rows) is converted to each compressed format and compared entry by entry. Every history of solves, new values, inertia checks, repeated requests and quality increases over every pattern, matrix format and scaling mode is executed "
      "on the real linear system layer over a reference solver; delivered matrix, solutions (exact rational reference), inertia and status are compared. The same judgement is made for MUMPS on all matrices over a small alphabet with re-used analyses, on systems of the algorithm's form, and with every error answer MUMPS can give at every call. "
      "A state is a distinct (matrix, request, result).",
      [{"name": "conversion", "build": symlin, "args": ["--mode", "conversion"]},
       {"name": "layer", "build": symlin, "args": ["--mode", "layer"]},
       {"name": "mumps", "build": symlin, "args": ["--mode", "mumps"]},
       {"name": "kkt", "build": symlin, "args": ["--mode", "kkt"]},
       {"name": "errors", "build": symlin, "args": ["--mode", "fault"]}],
      "conversion: dimension <=4, <=4 (thorough 5) triplets; layer: dimension <=3, <=3 triplets, 3 (4) operations, 5 formats, 3 scaling modes; MUMPS: dimension <=3, 2-5 values per entry, 3 (13) option sets, systems up to 60+59; 7 error codes x 3 jobs x first 4 calls x up to 25 repetitions",
      ["an exactly singular matrix which the solver scales may be answered as nonsingular up to rounding", "no promise without pivoting (mumps_pivtol=0)", "only MUMPS is available here"])

check("C27", "model_checking",
      "Every registered option with every string value, values around the default and its limits is tried, alone, in pairs and (choices of algorithms) in triples; values come from the registry itself. Each execution solves a problem twice with different contents of fresh memory (0x00 / 0xff): status documented (or the combination refused by a listed rule), "
      "identical records (iterates, evaluations, report) in both, number of evaluations bounded, success genuine (KKT of the original problem), and equal records with and without options about output or unused components. Crashes and hangs of an execution are violations. A state is a distinct (status, record).",
      [{"name": "singles", "build": solve("h_mix"), "args": ["--mode", "singles"]},
       {"name": "singles-asan", "build": prog("h_mix", "asan", ["h_mix.cpp"], ("lib",)), "args": ["--mode", "asan"]},
       {"name": "mumps", "build": solve("h_mix"), "args": ["--mode", "mumps"]},
       {"name": "pairs", "build": solve("h_mix"), "args": ["--mode", "pairs"]},
       {"name": "triples", "build": solve("h_mix"), "args": ["--mode", "triples"]}],
      "1073 option values alone on 5 problems with the dense linear solver stub and MUMPS; pairs of 528 moderate values on 1 problem (quick: one of them a choice of algorithm; thorough: all, 5 problems); triples of 85 algorithm choices on 1 (2) problems; max_iter 150",
      ["refused combinations are those the option documentation excludes (listed in h_mix.cpp)", "user callbacks are valid; invalid ones are C06/C24", "constant-derivative options are only set where true (C09)", "linear solvers that are not available are not chosen"])

deriv = solve("h_deriv")
check("C15", "model_checking",
      "Every enumerated problem is solved with the derivative checker on: correct derivatives, every single wrong, missing, NaN or infinite entry of gradient, Jacobian and Hessian (per objective and constraint), pairs of wrong entries, a refused starting point, under every checker mode, index base, presentation, subset of checked columns, fixed-variable treatment, "
      "perturbation and tolerance. The report is read back and compared, entry by entry, with the table of wrong entries computed from the problem's own given and true derivatives; the reference point must be within bounds and radius; solve and evaluations after the check must be those of the same solve without checker. A state is a distinct (report, solution).",
      [{"name": "shapes", "build": deriv, "args": [], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 1]},
       {"name": "special", "build": deriv, "args": ["--mode", "special"], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 2]}],
      "4 families n<=3, m<=2, one non-default bound or constraint kind, plus 10 special problems; 6 gradient, 5 Jacobian, 3-5 Hessian errors per entry; one further deviation (option, presentation, second wrong entry; two on special problems, thorough)",
      ["entries whose comparison is within the discretization error of the tolerance may be reported or not", "a wrong entry in a first derivative may make second derivatives differ, too, as far as difference quotients of the given first derivatives do"])

findiff = solve("h_findiff")
check("C16", "model_checking",
      "Every enumerated problem is solved with objective gradient, Jacobian or both approximated by finite differences, from every start at, inside and outside of its bounds, with every fixed-variable treatment, presentation and option. At each evaluation the point must be within the bounds; at each iteration of the regular phase objective, constraints, every entry of the gradient and of both Jacobians used by the algorithm are "
      "compared with the exact ones at the current iterate (values bitwise, derivatives within discretization error); the result is compared with the solve with exact derivatives and judged by the KKT oracle. Boxes about as narrow as the perturbation are enumerated separately. A state is a distinct (status, rounded solution).",
      [{"name": "shapes", "build": findiff, "args": ["--mode", "shapes"], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 1]},
       {"name": "special", "build": findiff, "args": ["--mode", "special"], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 2]},
       {"name": "narrow", "build": findiff, "args": ["--mode", "narrow"], "quick_args": ["--maxdev", 0], "thorough_args": ["--maxdev", 1]}],
      "4 families, all bound kinds x constraint kinds with n<=2 (thorough 3), m<=2; 3 approximations; one of 20 options, 4 presentations or 4 starts; 7 box widths x 3 places x 4 starts",
      ["the dependency detector and the derivative checker use the user's derivatives", "too small or large perturbations, nonconvex problems with extra options and too few degrees of freedom need not converge", "multipliers of fixed variables are computed from the user's gradient"])


quasi = solve("h_quasi")
check("C17", "model_checking",
      "Every enumerated problem is solved with a limited-memory approximation in every combination of update type, history length, initialization, safeguards, skipping limit and space. At each iteration of the regular phase the matrix used is read back column by column and compared with the one which the documented update (BFGS or SR1, recomputed from the observed secant pairs, "
      "including skipping, undoing and resetting) prescribes; symmetry and, for BFGS, positive semidefiniteness are checked, entries of linear variables are zero, no second derivative is requested, results are judged by the KKT oracle and against the solve with exact derivatives, and a second solve repeats the first. A state is a distinct (status, rounded solution).",
      [{"name": "shapes", "build": quasi, "args": ["--mode", "shapes"], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 1]},
       {"name": "linear", "build": quasi, "args": ["--mode", "linear"], "quick_args": ["--maxdev", 0], "thorough_args": ["--maxdev", 1]},
       {"name": "special", "build": quasi, "args": ["--mode", "special"], "quick_args": ["--maxdev", 1], "thorough_args": ["--maxdev", 2]}],
      "4 families, all bound kinds x constraint kinds with n<=2 (thorough 3), m<=2, plus 1-2 variables that occur linearly at 3 places; BFGS/SR1 x 5 history lengths x one further deviation (thorough: for all shapes; two on special problems)",
      ["the matrix of the restoration phase is not compared", "decisions at their threshold and secant pairs lost in rounding end the comparison of that solve (counted as undecidable)", "SR1, no history, unsafe safeguards, relaxed fixed variables and problems without degrees of freedom need not converge"])
