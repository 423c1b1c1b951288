#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that edits are reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "An optimality verdict is backed by a feasible, optimal point",
 "Whenever a solve of a conic program reports optimality, the returned x, s, y, z satisfy the equality and cone constraints, dual stationarity and cone memberships of the problem as the user passed it, and primal and dual objective agree, each to within the tolerances of that verdict (normal tolerances for a full verdict, the relaxed ones for a 'close to optimal' verdict). "
 "This holds for every mix of linear, second-order and exponential cones, for badly scaled or degenerate data, and for any tolerances the user configured.",
 ["inputs", "configurations", "histories"],
 "every problem (cone mix, dimensions, sparsity, scaling, conditioning), every tolerance setting, every lifecycle position (first solve, re-solve, after an update, after an iteration limit or interrupt)",
 "The tests check the exit flag (and sometimes one objective value) of about 40 fixed problems; they never recompute residuals, cone membership or the duality gap of the returned point.",
 ["src/ecos.c", "src/cone.c", "src/kkt.c", "src/equil.c", "src/expcone.c"],
 [("termination test", "src/ecos.c:checkExitConditions"), ("residual and statistics computation", "src/ecos.c:computeResiduals, updateStatistics"), ("back-scaling", "src/ecos.c:backscale")],
 ["return value of ECOS_solve", "w->x, w->y, w->z, w->s, w->info"])

prop("C02", "An infeasible or unbounded verdict carries a valid certificate",
 "Whenever a solve reports primal infeasibility, the returned y, z (normalised) form a Farkas certificate for the user's data: z in the dual cone, A'y+G'z close to zero and b'y+h'z strictly negative; whenever it reports unboundedness, the returned x, s form an improving ray: s in the cone, Ax and Gx+s close to zero and c'x strictly negative. "
 "In particular a well-scaled problem known to have a strictly feasible point is never declared infeasible, and a well-scaled problem known to have a strictly feasible dual is never declared unbounded.",
 ["inputs", "configurations", "histories"],
 "every problem, cone mix and configuration; feasible, infeasible, unbounded, weakly infeasible and pathological instances",
 "Tests contain a handful of infeasible/unbounded instances and check the flag only, never the certificate, and never look for a wrong claim over families of problems with known status.",
 ["src/ecos.c", "src/cone.c", "src/expcone.c", "src/kkt.c"],
 [("infeasibility tests", "src/ecos.c:checkExitConditions, updateStatistics"), ("back-scaling", "src/ecos.c:backscale")],
 ["return value of ECOS_solve", "w->x, w->y, w->z, w->s"])

prop("C03", "Well-posed problems are solved and clear-cut ones are recognised",
 "A well-scaled problem with strictly feasible primal and dual points is solved to optimality (not given up on), with an objective equal to the true optimum; a problem with a robust infeasibility certificate is reported primal infeasible, and a feasible problem with a robust improving ray is reported unbounded. "
 "This holds for every mix of linear, second-order and exponential cones, any order of cones and sizes (including cones of dimension one), with or without equalities, and the number of iterations stays far below the default limit.",
 ["inputs", "configurations"],
 "every problem generated with a planted strictly complementary primal-dual optimum, planted Farkas certificate or planted ray, over dimensions, sparsity patterns and cone mixes",
 "The tests solve a fixed set of instances; a defect in a cone mix, size or sparsity pattern that is not among them (or that only costs accuracy/iterations) goes unseen.",
 ["src/ecos.c", "src/cone.c", "src/kkt.c", "src/preproc.c", "src/expcone.c", "src/equil.c", "src/spla.c", "src/splamm.c", "external/amd", "external/ldl"],
 [("predictor-corrector loop", "src/ecos.c:ECOS_solve"), ("KKT assembly", "src/preproc.c:createKKT_U"), ("scalings", "src/cone.c:updateScalings")],
 ["return value of ECOS_solve", "w->info->pcost", "w->info->iter", "w->x"])

prop("C04", "Reported statistics describe the returned point",
 "Whatever the exit (optimal, certificate, reduced accuracy, iteration limit, numerical trouble, interrupt), the reported primal cost, dual cost, gap, relative gap, primal and dual residuals and infeasibility residuals are those of the point that is actually returned, and the infeasible/unbounded flags agree with the verdict. "
 "The iteration count never exceeds the limit, and the times are finite, non-negative and what the clock showed.",
 ["inputs", "configurations", "histories"],
 "every problem and every way a solve can end, in particular exits that fall back to an earlier best iterate",
 "No test compares the statistics with the returned vectors; exits through the best-iterate fallback are hardly reached by the tests at all.",
 ["src/ecos.c"],
 [("statistics", "src/ecos.c:updateStatistics"), ("best iterate", "src/ecos.c:saveIterateAsBest, restoreBestIterate, compareStatistics"), ("flags", "src/ecos.c:checkExitConditions")],
 ["w->info after ECOS_solve", "w->x, w->y, w->z, w->s, w->tau, w->kap"])

prop("C05", "The user's problem data survive setup, solves and cleanup",
 "After cleanup (and, for the cost vector, already after each solve) the user's numerical arrays hold the values the user passed, up to rounding, whatever the exit status of the solves; index arrays and cone dimensions are never written. "
 "A setup call that is rejected leaves the data as they were, and the vectors the user asked to keep at cleanup stay readable with their solution values.",
 ["inputs", "histories"],
 "every problem and every sequence of setup, solve, re-solve, update, interrupt and cleanup, including failing solves and rejected setups",
 "Equilibration scales the caller's arrays in place; tests never look at their data again after cleanup.",
 ["src/equil.c", "src/preproc.c", "src/ecos.c", "ecos_bb/ecos_bb_preproc.c"],
 [("equilibrate / restore", "src/equil.c:set_equilibration, unset_equilibration"), ("cost scaling", "src/ecos.c:ECOS_solve, backscale"), ("cleanup", "src/preproc.c:ECOS_cleanup")],
 ["user arrays Gpr, Apr, c, h, b, Gjc, Gir, Ajc, Air, q before setup and after solve/cleanup"])

prop("C06", "A solve does not depend on what was solved before",
 "Solving the same problem again in the same workspace - after a successful, failed, iteration-limited or interrupted solve, or after temporary changes of settings or data that were reverted - gives the same verdict, objective and solution as the first solve in a fresh workspace. "
 "Workspaces are independent: creating, solving, updating and destroying other problems in between changes nothing.",
 ["histories", "inputs"],
 "every interleaving of solves, setting changes, entry updates and lifecycles of several workspaces",
 "Only one test solves twice; no test interleaves workspaces or re-solves after a truncated solve.",
 ["src/ecos.c", "src/kkt.c", "src/cone.c", "src/preproc.c"],
 [("initialisation", "src/ecos.c:init, src/kkt.c:kkt_init"), ("cost back-scaling", "src/ecos.c:backscale")],
 ["ECOS_solve results over call sequences"])

prop("C07", "Updating data in place is equivalent to setting up afresh",
 "After replacing the numerical data of a workspace (all of it, or single entries of h or c), a solve gives the same verdict, objective and solution as a fresh workspace set up with the new data. "
 "This holds for any sequence of updates, with new arrays or the same arrays rewritten in place, with or without equality constraints, and with new data scaled very differently from the old; the arrays of replaced data get their original values back.",
 ["inputs", "histories"],
 "every problem pair with equal structure and every sequence of full and entry updates and solves",
 "One test performs one update of one problem; entry updates are only exercised indirectly by two branch-and-bound examples.",
 ["src/ecos.c", "src/equil.c", "src/preproc.c"],
 [("full update", "src/ecos.c:ECOS_updateData"), ("entry updates", "src/ecos.c:ecos_updateDataEntry_h, ecos_updateDataEntry_c"), ("entry-to-KKT maps", "src/preproc.c:ECOS_setup (AtoK, GtoK, PK)")],
 ["ECOS_solve after ECOS_updateData / ecos_updateDataEntry_*"])

prop("C08", "No API sequence on valid data corrupts memory, leaks or is undefined",
 "For every valid problem and every documented sequence of setup, solve, update and cleanup calls - for continuous and mixed-integer problems, including extreme shapes (no variables in a block, empty matrices or columns, one-dimensional cones, single variables), failing solves, rejected setups and tiny node or iteration limits - no call reads or writes memory it does not own, frees twice, leaks, or executes undefined behaviour.",
 ["inputs", "histories", "configurations"],
 "every problem shape and sparsity pattern, every lifecycle, every branch-and-bound setting",
 "Tests run without sanitizers on ordinary shapes; an out-of-bounds access or leak that does not crash goes unseen.",
 ["src", "ecos_bb", "external/amd", "external/ldl"],
 [("allocation", "src/preproc.c:ECOS_setup"), ("release", "src/preproc.c:ECOS_cleanup"), ("B&B allocation", "ecos_bb/ecos_bb_preproc.c:ECOS_BB_setup, ECOS_BB_cleanup")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer reports"])

prop("C09", "Results never depend on uninitialised memory",
 "No branch, address or reported result (verdict, solution vectors, statistics) of a continuous or mixed-integer solve depends on memory that was never written. "
 "Equivalently, running the same call sequence with different contents in fresh heap memory gives the same observable results.",
 ["inputs", "histories", "configurations"],
 "every problem shape, including empty matrices and exits before a first solution is found",
 "Fresh heap memory is usually zero in short test programs, which hides reads of uninitialised data.",
 ["src", "ecos_bb", "external/amd", "external/ldl"],
 [("workspace allocation without clearing", "src/preproc.c:ECOS_setup"), ("result transfer", "ecos_bb/ecos_bb.c:load_solution")],
 ["MemorySanitizer reports on branches and on every reported field", "results under different heap fill patterns"])

prop("C10", "An interrupt stops a solve cleanly at any moment",
 "If SIGINT arrives, once or repeatedly, at any point of a solve, the call returns within about one iteration, with a verdict that is true of the returned point (interrupted, or optimal / certificate if the relaxed tolerances are met), and with user data and workspace intact so that a new solve succeeds. "
 "The caller's SIGINT disposition is in force again after every return, and an interrupt of an earlier solve does not stop a later one; an interrupted mixed-integer solve never claims a false optimum or infeasibility.",
 ["crash_points", "schedules", "inputs"],
 "every iteration (and asynchronous instant) of every solve as the delivery point, every kind of exit, repeated solves",
 "No test sends a signal.",
 ["src/ctrlc.c", "src/ecos.c", "ecos_bb/ecos_bb.c"],
 [("handler installation/removal", "src/ctrlc.c:init_ctrlc, remove_ctrlc"), ("polling", "src/ecos.c:ECOS_solve")],
 ["return value and time of ECOS_solve", "sigaction(SIGINT) before and after"],
 "iteration callback to deliver the signal at a chosen iteration (guarded define ECOS_VERIF_HOOKS)")

prop("C11", "Iteration limits, tolerances and verbosity settings are honoured; solves end",
 "Every solve on any finite data returns, within the configured number of iterations, with one of the documented exit codes; a full verdict meets the configured tolerances and the iteration-limit verdict appears only when the limit was really used up, so raising the limit can only help and a limit at least as large as the number of iterations needed does not change the result. "
 "When the limit is hit, the point returned is the best one seen by the solver's own measures (gap, residuals) rather than an arbitrary one. With verbosity off nothing is printed; with verbosity on one progress line per iteration is printed.",
 ["configurations", "inputs"],
 "every setting of iteration limit, tolerances, refinement steps, step scaling and verbosity, on every problem including pathological ones",
 "Tests run with default settings (apart from verbosity) and solvable problems.",
 ["src/ecos.c", "include/ecos.h"],
 [("loop limit and exits", "src/ecos.c:ECOS_solve"), ("best iterate", "src/ecos.c:compareStatistics"), ("printing", "src/ecos.c:printProgress")],
 ["return value, w->info->iter, stdout of ECOS_solve"])

prop("C12", "Equivalent formulations get equivalent answers",
 "Reordering variables, equality rows, inequality rows within the linear block, the second-order cones, tail entries of a cone, the exponential cones, or the entries within a matrix column; storing explicit zeros; positively rescaling rows, cones, variables or the cost; shifting the variables; or stating equalities as pairs of inequalities or linear constraints as one-dimensional cones leaves the verdict unchanged and maps the optimal value correspondingly.",
 ["inputs"],
 "every problem and every such transformation or composition of transformations",
 "Tests solve each problem in one formulation only.",
 ["src/preproc.c", "src/splamm.c", "src/equil.c", "src/cone.c", "src/ecos.c", "external/amd", "external/ldl"],
 [("sparse transposition and permutation", "src/splamm.c"), ("KKT assembly", "src/preproc.c:createKKT_U"), ("equilibration", "src/equil.c")],
 ["ECOS_solve results on transformed problems"])

prop("C13", "A mixed-integer optimum equals exhaustive enumeration",
 "When the mixed-integer solver reports an optimal solution, its objective equals, within the configured gap tolerances, the best objective over all integer assignments of the marked variables, whatever continuous variables and cone constraints accompany them and in whatever order or position the boolean and general integer variables are declared. "
 "When it reports infeasibility, no integer assignment is feasible.",
 ["inputs", "configurations"],
 "every mixed-integer problem small enough to enumerate: any set and order of boolean and integer indices, any bounds, linear / second-order / exponential constraints, every branching and node-selection setting",
 "The tests contain a dozen tiny mixed-integer problems, most with variables in natural order, and default settings.",
 ["ecos_bb/ecos_bb.c", "ecos_bb/ecos_bb_preproc.c"],
 [("bound rows", "ecos_bb/ecos_bb_preproc.c:socp_to_ecos_bb"), ("branching and bounding", "ecos_bb/ecos_bb.c:branch, get_bounds, get_next_node"), ("termination", "ecos_bb/ecos_bb.c:should_continue")],
 ["return value of ECOS_BB_solve", "prob->x, prob->info->pcost"])

prop("C14", "Mixed-integer verdicts and returned points are sound",
 "Whenever the mixed-integer solver reports a solution (optimal, or feasible at the node limit), the returned x satisfies all constraints of the user's problem, the marked variables are integral to the integer tolerance and booleans lie in {0,1}, and the reported cost is the cost of x; 'no solution' is reported only if none was found, and unboundedness only if the relaxation is unbounded. "
 "The node limit is respected, and the incumbent and bound reported satisfy lower bound <= true optimum <= incumbent.",
 ["inputs", "configurations"],
 "every mixed-integer problem (too large to enumerate included), node limit, tolerance and strategy",
 "Tests compare a few components of x on a dozen instances and never hit the node limit.",
 ["ecos_bb/ecos_bb.c", "ecos_bb/ecos_bb_preproc.c"],
 [("incumbent", "ecos_bb/ecos_bb.c:store_solution, load_solution"), ("verdict", "ecos_bb/ecos_bb.c:get_ret_code")],
 ["return value of ECOS_BB_solve", "prob->x, y, z, s, info, global_L, global_U"])

prop("C15", "Branching strategy and node selection never change the answer",
 "Every combination of branching strategy, node selection method and reliability threshold, and every state of the random number generator, yields the same verdict and, within the gap tolerances, the same optimal value for the same mixed-integer problem. "
 "Declaring the integer variables in another order, or permuting all variables, does not change the answer either, and no strategy needs out of proportion more nodes than another to reach it.",
 ["configurations", "inputs", "schedules"],
 "every problem, every strategy combination, every random seed",
 "The tests use two or three strategies on one instance each.",
 ["ecos_bb/ecos_bb.c"],
 [("branching rules", "ecos_bb/ecos_bb.c:get_branch_var_*"), ("node selection", "ecos_bb/ecos_bb.c:get_next_node"), ("pseudocosts", "ecos_bb/ecos_bb.c:get_bounds, set_pseudocost_psi")],
 ["ECOS_BB_solve results across settings"])

prop("C16", "A mixed-integer workspace can be re-solved and updated",
 "Solving a mixed-integer workspace again gives the same verdict and value; after changing entries of the cost or of the user's right-hand side h through the update calls (indices counted in the user's own numbering) a solve gives the answer a freshly set up problem would give. "
 "The user's arrays hold their values again after cleanup, and settings changed between solves take effect.",
 ["histories", "inputs"],
 "every sequence of solves and entry updates, with boolean and general integer variables",
 "Two tests update one problem with boolean variables; none has general integer variables.",
 ["ecos_bb/ecos_bb.c", "ecos_bb/ecos_bb_preproc.c"],
 [("entry updates", "ecos_bb/ecos_bb.c:updateDataEntry_h, updateDataEntry_c"), ("root initialisation", "ecos_bb/ecos_bb.c:initialize_root")],
 ["ECOS_BB_solve after updates"])

prop("C17", "The fill-reducing ordering is a permutation that respects its contract",
 "For every valid square sparsity pattern (upper, lower or full, sorted or not, with duplicates, with dense or empty rows) the ordering routine returns a permutation of all indices without modifying its input, signals malformed input as invalid, and its documented statistics bound the fill of the factorisation; patterns that can be eliminated without fill (diagonal, tridiagonal, arrow, trees) are ordered with no fill.",
 ["inputs", "configurations"],
 "every sparsity pattern and control setting, both index widths",
 "The ordering is only exercised through the KKT matrices of the test problems; a wrong ordering quality or a broken corner case stays invisible.",
 ["external/amd/src"],
 [("ordering", "external/amd/src/amd_order.c, amd_1.c, amd_2.c"), ("input validation", "external/amd/src/amd_valid.c, amd_preprocess.c"), ("post-ordering", "external/amd/src/amd_postorder.c")],
 ["AMD_order result, permutation, Info array"])

prop("C18", "Independent problems can be solved concurrently",
 "Threads that each set up, solve, update and clean up their own problems (continuous or mixed-integer) with their own data obtain the same results as when run one after another, without data races on hidden shared state.",
 ["schedules", "inputs"],
 "every schedule of threads working on disjoint workspaces",
 "All tests are single-threaded.",
 ["src", "ecos_bb", "external/amd", "external/ldl", "src/ctrlc.c"],
 [("state kept in the workspace only", "include/ecos.h:pwork"), ("process-wide interrupt flag", "src/ctrlc.c")],
 ["ThreadSanitizer reports, per-thread results"])

prop("C19", "Build options change neither verdicts nor values",
 "Building with 32-bit or 64-bit indices, with or without interrupt support, printing and timing, with dense or sparsely expanded second-order cones, with either method of equilibration or none, and with different compilers or optimisation levels yields the same verdicts and, within tolerances, the same objectives and solutions for the same problems.",
 ["configurations", "inputs"],
 "every supported build option combination, every problem",
 "The test suite is built in one configuration.",
 ["include/glblopts.h", "external/SuiteSparse_config/SuiteSparse_config.h", "external/ldl/include", "external/amd/include", "include/ctrlc.h", "include/cone.h"],
 [("index type selection", "include/glblopts.h, external/ldl/include/ldl.h, external/amd/include/amd_internal.h"), ("interrupt support", "include/ctrlc.h")],
 ["results of the same problem file in differently built libraries"])

prop("C20", "Sparse kernels and factorisation solve the systems they are given",
 "For every sparse quasi-definite system the symbolic and numeric factorisation with forward/backward solves reproduce the solution of the dense reference, and applying the factors reproduces the (permuted, regularised) matrix; regularisation only perturbs pivots that are too small or have the wrong sign. "
 "Sparse transposition, symmetric permutation, matrix-vector products and norms agree with dense references for every pattern, including empty rows, columns and matrices.",
 ["inputs"],
 "every sparsity pattern, permutation and sign vector",
 "No unit test of these kernels exists; end-to-end solves mask errors through iterative refinement and robustness of the method.",
 ["external/ldl/src/ldl.c", "src/splamm.c", "src/spla.c", "src/kkt.c"],
 [("factorisation", "external/ldl/src/ldl.c:LDL_symbolic2, LDL_numeric2"), ("solves", "external/ldl/src/ldl.c:LDL_lsolve2, LDL_dsolve, LDL_ltsolve"), ("sparse kernels", "src/splamm.c, src/spla.c")],
 ["outputs of the kernels compared with dense long double references"])

prop("C21", "Iterates stay strictly inside their cones; search directions are accurate",
 "In every solve, every iterate from which another step is taken has its primal and dual cone variables strictly inside the primal and dual cones and positive homogenising variables; a step away from such an iterate ends inside as well, short of the boundary by the step-length scaling - and, with exponential cones, inside the prescribed neighbourhood of the central path -, unless numerical accuracy is exhausted, in which case the solver stops. Along a solve the complementarity measure of the iterates does not blow up. "
 "The linear systems behind the search directions are solved to small residual whenever the iterate is well conditioned, so that the residuals of the homogeneous model shrink by the factor the step length promises.",
 ["inputs", "configurations"],
 "every iteration of every solve",
 "Iterates are invisible at the API; tests see only the end of a solve.",
 ["src/ecos.c", "src/cone.c", "src/expcone.c", "src/kkt.c"],
 [("line search", "src/ecos.c:lineSearch, expConeLineSearch"), ("initial point", "src/cone.c:bring2cone, unitInitialization"), ("KKT solve with refinement", "src/kkt.c:kkt_solve")],
 ["iteration callback"],
 "iteration callback with the workspace (guarded define ECOS_VERIF_HOOKS)")

prop("C22", "Scaling points and cone algebra satisfy their defining identities",
 "For all strictly interior pairs (s, z) of linear and second-order cones the computed scaling maps z and the inverse-scaled s to the same vector, the scaling applied to the KKT system is its square, and the cone product and division are inverse to each other; points moved into the cone are strictly interior.",
 ["inputs"],
 "every interior pair for every cone dimension, including nearly-boundary points and cones of dimension one and two",
 "Not unit-tested; an inaccuracy only slows convergence on most problems.",
 ["src/cone.c", "src/kkt.c"],
 [("scaling", "src/cone.c:updateScalings, scale, scale2add, unscale"), ("KKT update", "src/kkt.c:kkt_update"), ("cone product/division", "src/cone.c:conicProduct, conicDivision")],
 ["outputs of the kernels compared with long double references"])

prop("C23", "Exponential-cone barrier computations are correct",
 "For all interior points of the exponential cone and of its dual, the barrier values, the gradient and Hessian used for scaling, the feasibility tests and the special function they rest on agree with high-precision references; in particular the Hessian is symmetric positive definite, is the derivative of the gradient, and satisfies the logarithmic-homogeneity identities.",
 ["inputs"],
 "every interior point, over many orders of magnitude",
 "Not unit-tested; tests solve a few exponential-cone problems end to end.",
 ["src/expcone.c", "src/wright_omega.c", "src/cone.c"],
 [("barrier", "src/expcone.c:evalHessian, evalGradient, evalBarrierValue"), ("membership", "src/expcone.c:evalExpPrimalFeas, evalExpDualFeas"), ("Wright omega", "src/wright_omega.c")],
 ["outputs of the functions compared with long double references"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties;", [p["id"] for p in P if len(p["title"]) > 80])
