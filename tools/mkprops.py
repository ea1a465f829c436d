#!/usr/bin/env python3
"""Source of properties.jsonl (one call P(...) per property); run it to regenerate the file."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
def P(id, title, statement, over, q, why, files, state, mech, obs, hook=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=obs, hook_needed=hook)))

# ---------------------------------------------------------------- foundations
P("A01", "Objects live exactly as long as somebody references them",
  "Every object created by the library (vector space, vector, bound set, operator, line search, optimizer) stays usable as long as the client or another live object holds a reference to it, its reported reference count always equals the number of these holders, and it is finalized and its memory freed exactly once, when the last holder lets go. "
  "An object keeps alive everything it was built from (a vector its space, a bound set its space and bound vectors, an optimizer its space, line search, bound set and work vectors) and nothing else. "
  "When the client has dropped all its references no memory allocated by the library remains.",
  ["histories"], "All histories of create / hold / drop over any object graph the API can build, in every order of release.",
  "The tests create one optimizer, run it and drop everything in one fixed order; they never look at counts, never drop a parent before its child and never check for leaks.",
  ["src/algebra.c", "src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c", "src/simple_vector.c", "src/driver.c"],
  [("references", "number of holders of an object", "struct opk_object_")],
  [("hold/drop/finalize", "opk_hold_object, opk_drop_object, opk_allocate_object, finalize_* callbacks")],
  ["opk_get_object_references", "finalize_space callback", "malloc/free interposition"])

P("A02", "Client memory wrapped in a vector is released exactly once",
  "For a vector wrapping caller-supplied memory, the release callback registered with it is called exactly once with the registered client datum: when the vector is destroyed or when the vector is re-wrapped with a different callback or a different client datum; it is never called while the vector still refers to that registration and never called twice. "
  "The vector always reads and writes the memory it currently wraps, re-wrapping reports success, and a wrapped vector behaves as any other vector of its space.",
  ["histories"], "All histories of wrap, re-wrap (same/different data, callback, client datum), hold, drop over several vectors, single and double precision.",
  "Only the Yorick plug-in wraps memory and it never observes release; no test counts the callbacks or re-wraps with every same/different combination.",
  ["src/simple_vector.c", "src/dblvector.c", "src/fltvector.c"],
  [("free_client_data, client_data, data", "the current registration", "struct of the simple vectors")],
  [("wrap/rewrap/finalize", "opk_wrap_simple_*, opk_rewrap_simple_*, finalize_vector")],
  ["release callback", "opk_get_simple_*_vector_data/client_data/free_client_data"])

P("A03", "Vector operations compute their elementwise definition, aliased or not",
  "Each vector operation (fill, zero, copy, swap, scale, product, alpha*x+beta*y, alpha*x+beta*y+gamma*z, dot products, norms, peek, poke, import, export) yields exactly its elementwise mathematical definition for every size, every value of the scalars including 0, 1 and -1, both precisions, and any aliasing between destination and sources. "
  "Only the destination is modified, and out-of-range indices, wrong lengths or unknown element types are rejected with the documented status without modifying anything.",
  ["inputs"], "All small vectors over a set of exactly representable values, all special scalar values, all aliasing patterns, float and double, all import/export element types.",
  "No test calls the vector algebra directly; optimizers exercise only a few scalar combinations and would mask an error by converging more slowly.",
  ["src/algebra.c", "src/simple_vector.c"],
  [("vector contents", "elements of a vector", "simple vector data")],
  [("special-cased scalars", "opk_vscale, opk_vaxpby, opk_vaxpbypcz and the space operations of simple_vector.c")],
  ["opk_vpeek / raw data after each call"])

P("A04", "Objects of different spaces are never mixed; errors reach the handler",
  "An operation given vectors of different spaces (or an operator or bound set of another space) never reads or writes element data: it is reported through the installed error handler or by the documented status code and leaves every operand unchanged. "
  "Installing an error handler returns the former one, installing none restores the default one, and every reported error goes to the handler installed at that time. "
  "Applying an operator checks the input and output spaces of the direct, adjoint and inverse operations and reports an unimplemented operation as such.",
  ["inputs", "histories"], "All operations with every combination of operand spaces, all handler install sequences, operators with every subset of operations between two spaces.",
  "No test passes an operand of the wrong space or installs a handler.",
  ["src/algebra.c", "src/vmlmb.c", "src/nlcg.c"],
  [("owner", "space owning a vector", "struct opk_vector_")],
  [("ownership tests", "OPK_ISA / owner comparisons in algebra.c, opk_apply_*, opk_iterate_*")],
  ["error handler calls", "returned status", "operand contents"])

P("A05", "A failed allocation yields a clean failure, not a crash or a leak",
  "When any memory allocation fails inside a constructor or an optimizer creation, the call returns NULL with errno set to ENOMEM, everything it had allocated or retained is released (reference counts of its arguments are unchanged), and the library remains usable so that a later identical call succeeds.",
  ["fault_sequences"], "Every constructor of the library, failing at each of its allocations in turn.",
  "Allocation never fails in the tests.",
  ["src/algebra.c", "src/simple_vector.c", "src/lnsrch.c", "src/vmlmb.c", "src/nlcg.c", "src/driver.c", "src/cobyla.c", "src/newuoa.c"],
  [("live allocations", "blocks obtained and not freed", "malloc interposition in the harness")],
  [("failure paths", "'return NULL' / 'goto failure' paths of the constructors")],
  ["returned pointer", "errno", "live allocation count", "reference counts"])

# ---------------------------------------------------------------- bound constraints
P("B01", "Projection yields the nearest feasible point for every kind of bounds",
  "Projecting variables onto a bound set returns, component by component, the closest value within the bounds: the result is feasible, unchanged where the input was feasible, and idempotent, for every combination of absent, scalar and per-variable lower and upper bounds, in both precisions, and also when the destination is the source. "
  "Neither the bounds nor the input (unless it is the destination) are modified.",
  ["inputs", "configurations"], "All nine bound kinds, all orderings of a component with respect to its bounds (below, at, between, above, equal bounds), sizes 1..n, both precisions, aliasing.",
  "The tests only use scalar or per-variable bounds on both sides through VMLMB and never compare with the definition.",
  ["src/simple_vector.c", "src/algebra.c"],
  [("bound set", "kind and value of each bound", "opk_boxset")],
  [("projvar/boxprojvar", "_opk_simple_projvar variants")],
  ["opk_project_variables"])

P("B02", "Projected directions and free variables agree with the bounds",
  "At a feasible point, projecting a direction (of either orientation) zeroes exactly the components along which an infinitesimal move would leave the feasible set and keeps the others unchanged, and the free-variable mask is 1 exactly where the variable may move along the direction and 0 elsewhere, for every combination of bound kinds and both precisions, also when the destination is the direction.",
  ["inputs", "configurations"], "All bound kinds, orientations, signs of the direction and positions of the variable with respect to its bounds.",
  "Tests never call these operations directly; a wrong sign at an active bound merely changes the path of VMLMB.",
  ["src/simple_vector.c", "src/algebra.c"],
  [("x, d, orientation", "point, direction, ascent or descent", "arguments")],
  [("projdir/freevar", "boxprojdir and boxfreevar variants of simple_vector.c")],
  ["opk_project_direction", "opk_get_free_variables"])

P("B03", "Step limits delimit exactly the steps at which bounds become active",
  "The step limits returned for a feasible point and a direction are the smallest step at which a bound is reached, the smallest strictly positive such step, and the smallest step beyond which the projected point no longer moves (infinite when unbounded): every smaller step keeps all variables strictly feasible and every larger one projects to the same point. "
  "This holds for both orientations, all bound kinds and both precisions, whichever of the three outputs are requested.",
  ["inputs", "configurations"], "All bound kinds, orientations, direction signs including zero, positions including at the bounds, and subsets of requested outputs.",
  "The limits are only used internally by VMLMB to cap the step; an error only costs iterations there.",
  ["src/simple_vector.c", "src/algebra.c"],
  [("smin1, smin2, smax", "the three limits", "outputs")],
  [("steplim", "boxsteplim variants of simple_vector.c")],
  ["opk_get_step_limits"])

P("B04", "Bound sets are built exactly as specified and capabilities are reported",
  "A bound set can be created for every combination of bound types (none, scalar single or double precision, library vector, static or volatile array) supported by the space and has exactly the bounds given, volatile bounds being copied at creation and vectors retained. "
  "Illegal bound types, missing addresses, bounds of another space, or a value given for an absent bound give NULL with the documented errno and no side effect, and the capability queries tell the truth about what the set can do.",
  ["inputs", "configurations"], "All pairs of bound types for float and double spaces, NULL and foreign bounds, later modification of the caller's arrays.",
  "The tests use one or two bound types, always valid.",
  ["src/simple_vector.c", "src/algebra.c", "src/driver.c"],
  [("bound types", "how the caller gives bounds", "opk_bound_type")],
  [("new_boxset", "opk_new_boxset, new_boxset of simple_vector.c")],
  ["opk_new_boxset result", "errno", "reference counts", "projection results"])

# ---------------------------------------------------------------- line searches
P("L01", "Line searches follow their protocol and keep the step within its bounds",
  "A line search is created only with parameters in their documented ranges. It starts only with 0 <= stpmin <= stp <= stpmax and a descent direction, reports the documented error otherwise, and must be started before and fed the very step it asked for at each iteration; otherwise it stops with the documented error. "
  "While searching, every step it asks for lies within [stpmin, stpmax]; it ends in exactly one of convergence, warning or error, its task, status, step and predicates always agree with one another, and it can be started again from any state with the same behaviour as a new one.",
  ["histories", "inputs"], "All sequences of start/iterate calls with valid and invalid arguments, for the three line searches, including restarts from every state.",
  "The tests only run searches through optimizers on valid data.",
  ["src/lnsrch.c"],
  [("task, status, stp, stpmin, stpmax", "state of a line search", "struct opk_lnsrch_")],
  [("opk_lnsrch_start / opk_lnsrch_iterate", "src/lnsrch.c")],
  ["opk_lnsrch_get_task/status/step", "predicates"])

P("L02", "A line search converges exactly when its stopping conditions hold",
  "A line search reports convergence at a step if and only if its documented conditions hold there: Armijo's sufficient decrease for the backtracking one; sufficient decrease with respect to the largest of the last m function values at successive starts for the non-monotone one; sufficient decrease and the strong curvature condition for the Moré-Thuente one. "
  "A step reaching the largest (smallest) allowed value without meeting the conditions is reported as the corresponding warning, never as convergence.",
  ["inputs", "histories"], "All sequences of function values and slopes, all settings of the tolerances and of m, sequences of several searches.",
  "Tests only see the final convergence of an optimizer, which tolerates bad steps.",
  ["src/lnsrch.c"],
  [("finit, ginit, fsav[], ftol, gtol", "reference values and tolerances", "line search structures")],
  [("convergence tests", "backtrack_iterate, nonmonotone_iterate, csrch_iterate")],
  ["opk_lnsrch_iterate result vs the conditions"])

P("L03", "Trial steps follow the documented safeguarded rules",
  "The backtracking searches always shrink the step, by half or to the safeguarded interpolated minimum, and the Moré-Thuente search picks trial steps by its cubic/quadratic interpolation rules while keeping an interval of uncertainty whose best endpoint has the least function value and whose length keeps decreasing, so that for any (even adversarial) sequence of finite function values every search ends after a finite number of steps. "
  "The standalone step-update routine exposed by the library follows the same rules and rejects invalid input with the documented status.",
  ["inputs", "histories"], "All finite responses (function value, slope) chosen by an adversary at each trial, for the three line searches.",
  "Tests exercise a handful of smooth functions for which the first trial step is almost always accepted.",
  ["src/lnsrch.c"],
  [("stx, sty, brackt, width", "interval of uncertainty", "csrch structure")],
  [("opk_cstep", "src/lnsrch.c")],
  ["sequence of steps", "opk_cstep outputs"])

# ---------------------------------------------------------------- large scale optimizers
P("N01", "NLCG keeps its reverse-communication contract and counters",
  "The nonlinear conjugate gradient optimizer asks the caller either to compute the function and gradient at the variables it left in x or announces a new or a final iterate, in which case x, the last function value and gradient belong together; its counters count exactly the evaluations, the accepted iterates and the restarts, and calls out of turn or before the start do not alter the state. "
  "A final iterate is announced if and only if the norm of the gradient at an iterate is at most max(0, gatol, grtol times its initial norm), and every accepted iterate satisfies the stopping conditions of its line search; the line search options given are those in use.",
  ["histories", "inputs"], "All interleavings of start/iterate calls, problems, update rules, line searches and tolerances, restarted at any point.",
  "NLCG is not exercised by any test that builds (its own test program does not compile).",
  ["src/nlcg.c", "src/lnsrch.c"],
  [("task, status, evaluations, iterations, restarts", "state of the optimizer", "struct opk_nlcg_")],
  [("opk_start_nlcg / opk_iterate_nlcg", "src/nlcg.c")],
  ["opk_get_nlcg_* after each call"])

P("N02", "NLCG search directions follow the chosen update rule",
  "From an iterate with gradient g, the search direction is the steepest descent one at the first iteration, after a restart, or whenever the update would not be a descent direction, and otherwise g plus beta times the previous direction, with beta given by the formula of the chosen update rule, clamped below at zero when the Powell safeguard is on; the first step follows the chosen initial-step rule. "
  "Each trial point is the iterate at which the search started minus the current step times the direction, along which the function initially decreases.",
  ["inputs", "configurations"], "All update rules, Powell flag, initial-step rules, problems and iterates of every run.",
  "No running test uses NLCG; convergence alone cannot tell one update rule from another.",
  ["src/nlcg.c"],
  [("beta, d, g0, x0", "direction and its ingredients", "struct opk_nlcg_")],
  [("update_Hestenes_Stiefel ... update_Perry_Shanno", "src/nlcg.c")],
  ["opk_get_nlcg_beta", "trial points and steps"])

P("V01", "VMLMB keeps its reverse-communication contract and counters",
  "The limited-memory variable metric optimizer asks for the function and gradient at the variables it left in x or announces a new or a final iterate, its counters count exactly the evaluations, accepted iterates and restarts, and calls out of turn do not alter the state. "
  "A final iterate is announced if and only if the norm of the (projected) gradient is at most max(0, gatol, grtol times its initial value); every accepted iterate satisfies the sufficient decrease condition of the line search in use, so that function values of accepted iterates never increase with a monotone search.",
  ["histories", "inputs"], "All interleavings of start/iterate calls, problems, bounds, memory sizes and tolerances, restarted at any point.",
  "The Yorick tests only print the final values of a few unconstrained or box problems and check that the printed numbers are finite.",
  ["src/vmlmb.c", "src/lnsrch.c"],
  [("task, status, evaluations, iterations, restarts", "state of the optimizer", "struct opk_vmlmb_")],
  [("opk_start_vmlmb / opk_iterate_vmlmb", "src/vmlmb.c")],
  ["opk_get_vmlmb_* after each call"])

P("V02", "VMLMB never asks to evaluate an infeasible point",
  "With a bound set, the starting point is projected, and every vector of variables left in x by the optimizer, whether a trial point to evaluate or an accepted iterate, satisfies every bound exactly, in single and double precision, for any sequence of function values and gradients. "
  "A bounded run does not fail merely because the step that reaches the bounds is the one accepted.",
  ["inputs", "histories"], "All bound kinds, starting points inside or outside, problems and user-supplied gradients (also non-smooth or inconsistent ones), both precisions.",
  "Tests print only final values and never check the trial points against the bounds.",
  ["src/vmlmb.c", "src/lnsrch.c", "src/simple_vector.c"],
  [("x, box, bsmin, bsmax", "trial point and step limits", "struct opk_vmlmb_")],
  [("projection of trial points", "opk_start_vmlmb, opk_iterate_vmlmb")],
  ["x at every return"])

P("V03", "VMLMB's memory holds the last correction pairs and builds its directions",
  "The stored pairs are, most recent first, the differences of variables and (projected) gradients between successive accepted iterates since the last restart, never more than the memory size or number of variables; pairs exist only as announced. "
  "Each search direction is the one given by the limited-memory BFGS recursion on these pairs with the scaling of the initial inverse Hessian in use (projected for bounded variants), or the (projected) steepest descent direction when there are no usable pairs or the recursion does not give a descent direction, the latter being counted as a restart.",
  ["inputs", "histories"], "All problems, memory sizes 1..n+, VMLMB/L-BFGS/BLMVM variants, with and without memory saving.",
  "No test inspects the pairs or directions; a corrupted recursion still converges like steepest descent.",
  ["src/vmlmb.c"],
  [("s[], y[], rho[], gamma, mp, m", "limited memory", "struct opk_vmlmb_")],
  [("update, apply", "src/vmlmb.c")],
  ["opk_get_vmlmb_s/y/mp", "trial points and steps"])

P("O01", "Invalid option sets are refused, valid ones are honoured",
  "Default options are valid and documented; an option set is refused with the invalid-argument status by the checking function, and by the creation functions, exactly when one of its fields is out of its documented range (not finite, of wrong sign, out of (0,1), wrong order), and creation with NULL options equals creation with default options. "
  "The name and description of an optimizer reflect the options actually in use and never overflow the caller's buffer, of any size.",
  ["inputs"], "Each option field over a set of boundary values (0, 1, negative, NaN, infinities, ties), all flag combinations, buffer sizes 0..n.",
  "Tests run with default or sane options only.",
  ["src/nlcg.c", "src/vmlmb.c", "src/driver.c"],
  [("opk_nlcg_options, opk_vmlmb_options", "option sets", "optimpack.h")],
  [("opk_check_*_options, opk_new_*", "src/nlcg.c, src/vmlmb.c")],
  ["returned status, pointer, errno, text buffers"])

P("O02", "The simple driver behaves exactly as the optimizer it wraps",
  "An optimizer created by the simplified driver for float or double arrays performs exactly the same steps on the caller's arrays as the low-level optimizer with the same options, bounds and starting point, reports the same task, status, counters, step and gradient norm, and writes to nothing but the variables array. "
  "Illegal algorithms, types, sizes, bounds or NULL arrays are rejected with the documented errno or status and never crash; destroying the driver releases everything.",
  ["inputs", "configurations", "histories"], "All algorithms, element types, bound kinds, option sets, with valid and invalid arguments, and calls out of turn.",
  "The Yorick tests use the low-level interface; the driver is only used by a test program that does not build.",
  ["src/driver.c", "src/vmlmb.c", "src/nlcg.c"],
  [("opk_optimizer", "wrapped optimizer and vectors", "src/driver.c")],
  [("opk_new_optimizer, opk_start, opk_iterate", "src/driver.c")],
  ["arrays and getters after each call"])

P("U01", "Utility functions are total and never write past the caller's buffer",
  "Copying or describing text into a buffer never writes past the announced size, always terminates the string when there is room for at least one byte, and returns the size needed for the full text, for every source and buffer size including none. "
  "Every status has a distinct constant name and a message, unknown names or codes are rejected as documented, and the system error guess maps errno-like codes as documented.",
  ["inputs"], "All source lengths and buffer sizes up to a bound, all status codes and integer constants, NULL arguments.",
  "No test calls these functions with small buffers or unknown values.",
  ["src/utils.c", "src/nlcg.c", "src/vmlmb.c", "src/driver.c"],
  [("buffer, size", "caller's buffer", "arguments")],
  [("opk_copy_string, opk_get_reason, opk_get_integer_constant, opk_guess_status", "src/utils.c")],
  ["returned size, buffer contents and guard bytes"])

# ---------------------------------------------------------------- small scale & linear algebra
P("C01", "Linear conjugate gradients follow their protocol and stay in the trust region",
  "The reverse-communication linear conjugate gradient routines (plain, preconditioned, trust region; float and double) request matrix products and preconditioning in the documented order, keep the residuals equal to b - A x, take the step that minimizes the quadratic along conjugate directions, and end only in the documented states: finished on a null residual, non-convex on a direction of non-positive curvature. "
  "The trust-region version never lets the norm of x exceed delta, and a truncated step ends on the boundary along the current direction; an oversized starting point is scaled back to the boundary.",
  ["inputs", "histories"], "All symmetric matrices (definite or not), right-hand sides, starting points, preconditioners and radii, restarted at any point.",
  "No test calls these routines.",
  ["src/lcg.c"],
  [("state, rho[]", "stage of the algorithm and its scalars", "caller's variables")],
  [("OPK_PLCG, OPK_TRCG", "src/lcg.c")],
  ["state, x, r, p, rho after each call"])

P("G01", "The trust-region subproblem solver returns a solution of what it was given",
  "For any symmetric matrix A, vector b and radius delta, the More-Sorensen solver ends within the iteration limit, reporting as value that of the quadratic at the x it returns. When it reports success, the norm of x is at most (1+rtol) delta, the quadratic at x is within the documented tolerances of its minimum over the ball (including singular matrices, the hard case and b = 0), and the multiplier is non-negative, makes A + par I positive semi-definite and is complementary to the constraint up to these tolerances. "
  "The strict upper triangle and diagonal of A are restored on return and b is never modified.",
  ["inputs"], "Definite, indefinite, singular and hard-case matrices, all sizes up to a bound, float and double, tolerances and iteration limits.",
  "No test calls this solver.",
  ["src/gqtpar.c", "src/linalg.c"],
  [("par, parl, paru, pars", "Lagrange multiplier and its bounds", "src/gqtpar.c")],
  [("OPK_GQT, OPK_ESTSV", "src/gqtpar.c")],
  ["x, f, par, info, iter, a on return"])

P("M01", "Linear algebra kernels follow the reference semantics on strided storage",
  "Each dense linear algebra kernel of the library (opk_[sd]amax, asum, axpy, copy, dot, nrm2, scal, sum, swap, zero, opk_i[sd]amax, opk_[sd]gemv, trmv, trsv, gemm, syrk, potf2) computes its reference definition for every size, stride (positive or, for the kernels of two vectors and of a matrix and vectors, negative), leading dimension, transposition, triangle and unit-diagonal flag. It writes only the elements of its output, uses neither the unreferenced triangle (nor the diagonal of a unit triangular matrix) nor the previous contents of the output when beta is zero (gemv, gemm), does not overflow in a norm which is representable, and when an argument is invalid returns its position (negated for potf2) without changing anything. The Cholesky factorization returns 0 if and only if all leading minors are positive, otherwise the order of the first one which is not.",
  ["inputs"], "All small sizes, strides, flags and scalars in {0, 1, -1, other}, float and double.",
  "No test calls these kernels.",
  ["src/linalg.c"],
  [("n, incx, lda, flags", "storage description", "arguments")],
  [("OPK_* kernels", "src/linalg.c")],
  ["output arrays including guard elements"])

P("F01", "One-dimensional minimization brackets and returns the best point seen",
  "The one-dimensional minimizer (golden section; the smooth option is not covered) only evaluates the function strictly inside the bounds which it was told not to reach, and, when both ends of the interval are such bounds or the function has a value inside which is not larger than at the ends, nowhere outside the interval; once the first three points are available it stops as soon as the number of evaluations reaches the given limit. "
  "It returns the best of all the points it evaluated with its function value, and a bracket which strictly contains that point with the function values at its ends; the status tells exactly whether it converged to the requested precision, made too many evaluations, or found no bracket, and invalid arguments are refused with nothing changed. It always ends. "
  "On unimodal functions the minimum is inside the returned bracket, and the point is within the requested precision of it. The three versions (plain, with context, reverse communication) make the same evaluations and return the same results; the context refuses calls out of turn.",
  ["inputs", "histories"], "All functions (also non-unimodal, flat, adversarial), intervals (either order), flags, precisions and evaluation limits.",
  "No test calls it.",
  ["src/fmin.c"],
  [("u, v, w, x and their values", "bracket and best points", "src/fmin.c"), ("struct opk_fmin_context", "state saved between calls", "src/fmin.c")],
  [("opk_fmin, opk_fmin_with_context, opk_fmin_next", "src/fmin.c")],
  ["points evaluated and output array"])

# ---------------------------------------------------------------- derivative free optimizers
P("D01", "Direct, reverse-communication and restarted DFO runs are the same run",
  "COBYLA and NEWUOA driven by a callback and driven by reverse communication evaluate exactly the same sequence of points and end with the same status, number of evaluations and solution; a reverse-communication workspace that is restarted behaves as a new one, whatever it was used for before, and several workspaces never influence one another. "
  "The status tells exactly whether an evaluation is requested, and calls out of turn are refused with the documented error.",
  ["histories", "inputs"], "All problems, dimensions, settings; restarts at any evaluation; interleaved workspaces; misuse.",
  "The tests run the direct COBYLA and NEWUOA and one reverse-communication COBYLA on fixed problems and never compare the two; NEWUOA's reverse communication is not tested.",
  ["src/cobyla.c", "src/newuoa.c"],
  [("context structures", "state saved between calls", "struct cobyla_context_, struct newuoa_context_")],
  [("SAVE/RESTORE of local variables", "cobyla.c, newuoa.c")],
  ["points to evaluate, status, nevals"])

P("D02", "Derivative-free optimizers respect the evaluation budget and count exactly",
  "COBYLA, NEWUOA and BOBYQA never call the objective function more than the maximum allowed and report the number of calls exactly where they report it; they return the too-many-evaluations status exactly when the budget stopped them, and nothing is printed when no printing is requested. They always return, also when the objective function takes infinite, huge or undefined values.",
  ["inputs", "histories"], "All budgets from 1 up, including budgets exhausted while building the initial model, all problems and dimensions.",
  "Tests run with ample budgets only.",
  ["src/cobyla.c", "src/newuoa.c", "src/bobyqa.c"],
  [("nf/nfvals, maxfun", "evaluation counter and limit", "local variables of the main routines")],
  [("budget tests", "before each evaluation in the three algorithms")],
  ["calls of the objective", "returned status and counts", "stdout/stderr"])

P("D03", "Derivative-free optimizers return a point they evaluated and its value",
  "The variables returned by NEWUOA and BOBYQA are a point at which the objective was evaluated with the best value of all evaluated points, whatever the way they ended, and on success the reported function value is its value; COBYLA's reported function value and constraint violation are those of the point it returns. "
  "COBYLA returns a point it evaluated; when every evaluated point is feasible (or there are no constraints) it is the best evaluated point, except that on normal success it may be the last trial point.",
  ["inputs", "histories"], "All problems and all ways of ending (success, budget at every stage, rounding errors), minimize or maximize, scaled or not.",
  "Tests print the result but never compare it with the evaluations made.",
  ["src/cobyla.c", "src/newuoa.c", "src/bobyqa.c"],
  [("xopt/fopt, kopt, simplex", "best point so far", "main routines")],
  [("return blocks", "end of the three main routines")],
  ["x and work[0] on return vs the log of evaluations"])

P("D04", "BOBYQA never evaluates or returns a point outside the bounds",
  "Every point at which BOBYQA evaluates the objective and the point it returns satisfy the bounds exactly, whatever the starting point, the objective, the scaling factors and the way it ends; starting points closer than the initial radius to a bound are moved as documented.",
  ["inputs", "histories"], "All bounds, starting points (inside, on, near, outside), objectives including adversarial ones, scaling factors.",
  "The test program never checks the evaluated points; no scaled run exists.",
  ["src/bobyqa.c"],
  [("xl, xu, sl, su", "bounds and shifted bounds", "bobyqb")],
  [("clamping of trial points", "bobyqb, prelim, rescue")],
  ["arguments of every objective call, x on return"])

P("D05", "Trust-region radii only shrink from rhobeg to rhoend by the documented rule",
  "The trust-region radius of COBYLA, NEWUOA and BOBYQA starts at rhobeg, never increases, follows the documented reduction rule and ends exactly at rhoend; convergence is reported only when it has reached rhoend. "
  "The first evaluations explore the starting point and points at distance rhobeg of it along the coordinate axes (then along pairs of axes for the larger interpolation sets of NEWUOA and BOBYQA), and the later evaluations of COBYLA are at a distance of the best vertex ruled by the current radius (between rho/2 and rho).",
  ["histories", "inputs"], "All runs: problems, radii ratios from 1 to 1e8, all ways of ending.",
  "Tests print radii at most.",
  ["src/cobyla.c", "src/newuoa.c", "src/bobyqa.c"],
  [("rho, rhobeg, rhoend", "trust-region radius", "main routines")],
  [("radius reduction", "L_550 of cobyla.c, L490 of newuoa.c, L680 of bobyqa.c")],
  ["cobyla_get_rho, newuoa_get_rho after each call, messages of bobyqa"])

P("D06", "Maximizing and scaling are exact changes of variables and sign",
  "Maximizing f evaluates exactly the same points as minimizing -f and returns the same solution with the opposite value; optimizing with scaling factors evaluates exactly the scaled points of the run on the correspondingly rescaled problem with unit factors, for COBYLA, NEWUOA and BOBYQA, and invalid factors are refused. "
  "On return the variables are in the caller's units whatever the outcome.",
  ["inputs", "configurations"], "All problems with power-of-two scaling factors (exact arithmetic), maximize or minimize, every outcome.",
  "No test uses maximization or scaling.",
  ["src/cobyla.c", "src/newuoa.c", "src/bobyqa.c"],
  [("scl, maximize", "scaling factors and direction", "arguments")],
  [("scale(), sign of f", "three main routines")],
  ["points evaluated, x, value, status"])

P("D07", "Invalid derivative-free problems are refused before any evaluation",
  "Invalid dimensions, interpolation set sizes, radii, scaling factors, budgets or bounds are refused with the documented status (or NULL and errno for the workspaces) before the objective is ever called and without altering the starting point (radii which are not numbers are invalid; a maximum number of evaluations less than one is refused by the creation of a workspace); valid limit cases are accepted. "
  "Queries on a missing workspace answer as documented, and each status has its own message.",
  ["inputs"], "Grid of boundary values for every argument of the three algorithms and both interfaces.",
  "Tests only use valid arguments.",
  ["src/cobyla.c", "src/newuoa.c", "src/bobyqa.c"],
  [("arguments", "as given", "entry points")],
  [("argument checks", "entry points of the three algorithms")],
  ["status, errno, number of objective calls, x"])

P("D08", "Success of a derivative-free optimizer means the problem is solved",
  "On convex problems with a known solution (linear programs and convex quadratics, constrained or bounded, well scaled), a successful return of COBYLA, NEWUOA or BOBYQA is within a small multiple of the final radius of the solution and, for COBYLA, the constraints are violated by no more than a small multiple of it; such problems do end successfully within an ample budget. If the objective is constant, COBYLA successfully ends at a point which satisfies (linear, strictly feasible) constraints as well.",
  ["inputs"], "Random families of such problems, dimensions, interpolation set sizes, starting points and radii.",
  "The tests print errors but do not judge them.",
  ["src/cobyla.c", "src/newuoa.c", "src/bobyqa.c"],
  [("x, status", "solution and outcome", "returned values")],
  [("trstlp, trsapp/biglag/bigden/update, trsbox/altmov/rescue/update", "step computations")],
  ["x and status on return"])

P("D09", "The derivative-free optimizers are economical with evaluations",
  "An evaluation of the objective is what costs in a derivative-free optimization, and Powell's methods are chosen for the few they need: on families of ordinary problems (quadratic with or without active constraints or bounds, linear programs, curved and narrow valleys, piecewise linear, waves, steps, unbounded ones) the mean number of evaluations of COBYLA, NEWUOA and BOBYQA, the mean (logarithm of the) distance left to the solution in units of the final radius -- or, on unbounded problems, the way covered with a given budget -- and the share of runs which give up (budget exhausted, rounding errors, failed step) are not worse than those of the methods as published, within 4 % of the evaluations, 0.08 in the logarithm, 1 % of the runs, or five standard deviations of the sampling.",
  ["inputs"], "Families of random problems in 2 to 5 variables, all sizes of the interpolation set, radii and starting points.",
  "A model that is wrongly updated, a rescue procedure that spoils it or a step that is not the intended one still leads to the solution: a test that looks at the final result sees nothing, only slower convergence.",
  ["src/cobyla.c", "src/newuoa.c", "src/bobyqa.c"],
  [("quadratic or linear models", "bmat, zmat, xpt, hq, pq, gq; sim, simi, datmat", "work arrays")],
  [("update of the models, geometry steps, rescue", "newuob, trsapp, biglag, bigden, update; bobyqb, trsbox, altmov, rescue, update; cobylb, trstlp")],
  ["number of evaluations, x and status on return"])

P("D10", "COBYLA moves its simplex by Powell's rules",
  "COBYLA works on a simplex of n + 1 points whose pole is the best vertex for the merit function f + mu max violation (least violation on ties without penalty), with the linear models interpolating objective and constraints at the vertices. "
  "Every evaluation is at: the starting point and its neighbours at rhobeg along the axes (the pole moving to strictly better ones); or, when the simplex is not acceptable (a vertex farther than 2.1 rho from the pole or nearer than rho/4 to the face of the others) and the last step was not already for this, the point at rho/2 from the face opposite the farthest (else the flattest) vertex on the side of the least predicted merit, which replaces this vertex; or the trust region step: the point within rho of the pole which minimizes the greatest predicted violation, then the predicted objective without increasing it, unless it is shorter than rho/2. "
  "The penalty mu is raised to twice what makes the step an improvement when it is below 3/2 of it (the pole being then chosen again). A trust region point replaces the vertex chosen by the rules of Powell's paper (largest relative volume, else the farthest beyond 1.1 rho), and the iteration goes on from there if a vertex was replaced and the merit decreased by at least a tenth of the prediction; otherwise the geometry is restored, or rho is halved (down to rhoend at once from 1.5 rhoend) and mu reduced by the ranges of the constraints and objective over the simplex, or the run succeeds at rhoend, returning the last point if it is a full step, else the pole. Rounding errors are reported only when the simplex is degenerate.",
  ["inputs", "histories"], "All answers of the objective and the constraints from small sets (exhaustively, up to the length of the model) and random problems of all sorts up to 4 variables and 4 constraints.",
  "Tests look at the end of a few runs: a wrong step, vertex, penalty or radius still leads there, more slowly or not as surely.",
  ["src/cobyla.c"],
  [("simplex, values, penalty, radius", "sim, simi, datmat, parmu, rho", "cobyla_context")],
  [("main loop", "cobylb"), ("trust region step", "trstlp")],
  ["x submitted for evaluation, rho, status, x returned"])

P("D11", "NEWUOA chooses its points by Powell's rules",
  "NEWUOA keeps npt points and a quadratic model which interpolates the objective there: at first the interpolant whose second derivatives have the least Frobenius norm, then, when a point is replaced, the model is changed by the multiple of the Lagrange function of the new point which restores the interpolation (least change in Frobenius norm). "
  "Every evaluation is at: a point of the initial design (the starting point, its neighbours at +rhobeg then -rhobeg along the axes, then the pairs of axes on the best sides); or a trust region step, within delta of the best point, which reduces the model as much as truncated conjugate gradients continued along the boundary do, unless it is shorter than rho/2; or a model step, when a point is farther than 2 delta from the best one: the farthest is replaced by a point at max(min(distance/10, delta/2), rho) of the best one which makes its Lagrange function (or, if this would cancel too much of it, the denominator of the updating formula) large; or the last short step. "
  "After a trust region step delta is changed by the ratio of actual to predicted reduction (0.1, 0.7, snapped to rho under 1.5 rho), the point dropped is the one of the largest denominator weighted by the sixth power of its distance beyond max(delta/10, rho) (never the best one unless it is improved upon), and after three useless steps with a gradient ten times that of the least Frobenius interpolant, this one becomes the model. "
  "After a good step or a model step another step is tried; otherwise a distant point is replaced, or rho is reduced (to rhoend under 16 rhoend, by a geometric mean under 250, else by ten) when steps do not improve or are short while the last three errors of the model are small compared with its least curvature; at rhoend the run succeeds and returns the best point. All three interfaces (newuoa, newuoa_optimize, reverse communication) do the same.",
  ["inputs", "histories"], "All answers of the objective from small sets (exhaustively, up to the length of the model) and random smooth and nonsmooth objectives up to 4 variables, every number of points.",
  "Tests look at the end of a few runs: a wrong model, step, point or radius still leads there, more slowly or not as surely.",
  ["src/newuoa.c"],
  [("points, values, quadratic model, factors of the inverse, radii", "xpt, fval, gq, hq, pq, bmat, zmat, rho, delta", "newuoa_context")],
  [("main loop", "newuob"), ("trust region step", "trsapp"), ("model step", "biglag, bigden"), ("replacement of a point", "update")],
  ["x submitted for evaluation, rho, status, x returned"])

P("D12", "BOBYQA chooses its points by Powell's rules",
  "BOBYQA keeps npt points within the bounds and a quadratic model which interpolates the objective there: at first the interpolant whose second derivatives have the least Frobenius norm, then, when a point is replaced, the model is changed by the multiple of the Lagrange function of the new point which restores the interpolation (least change in Frobenius norm). "
  "The starting point is moved to a bound, or to rhobeg from it, when it is nearer; the initial design is this point, its neighbours along the axes at +rhobeg (-rhobeg at an upper bound), then at -rhobeg (or up to 2 rhobeg on the other side of a bound), then the pairs of axes on the best sides. "
  "Every other evaluation is at: a trust region step, within delta of the best point and the bounds, which reduces the model as much as truncated conjugate gradients restarted at each bound met and continued along the boundary do, unless it is shorter than rho/2; or an alternative step, when a point is farther than max(2 delta, 10 rho) from the best one (10 rho after a short step): the farthest is replaced by a point within max(min(distance/10, delta), rho) of the best one where the denominator of the updating formula is at least what it is at the best point of a line through two points of the set, or at the end of the constrained Cauchy step of its Lagrange function if this promises more; or the last short step. "
  "After a trust region step delta is changed by the ratio of actual to predicted reduction (0.1, 0.7, snapped to rho under 1.5 rho), the point dropped is the one of the largest denominator weighted by the fourth power of its distance beyond delta (never the best one unless it is improved upon), and after three steps where the gradient the bounds leave free is, squared, ten times that of the least Frobenius interpolant, this one becomes the model. "
  "After a good step or an alternative step another step is tried; otherwise a distant point is replaced, or rho is reduced (to rhoend under 16 rhoend, by a geometric mean under 250, else by ten) when steps do not improve, or are short while the last three errors of the model are small compared with its least curvature and its slopes at the bounds; at rhoend the run succeeds and returns the best point. Minimizing and maximizing the opposite do the same.",
  ["inputs", "histories"], "All answers of the objective from small sets (exhaustively, up to the length of the model, with the starting point at bounds or not) and random smooth and nonsmooth objectives up to 4 variables, every number of points, bounds everywhere.",
  "Tests look at the end of a few runs: a wrong model, step, point or radius still leads there, more slowly or not as surely.",
  ["src/bobyqa.c"],
  [("points, values, quadratic model, factors of the inverse, radii", "xpt, fval, gopt, hq, pq, bmat, zmat, rho, delta", "bobyqb")],
  [("main loop", "bobyqb"), ("trust region step", "trsbox"), ("alternative step", "altmov"), ("initial design", "prelim"), ("replacement of a point", "update")],
  ["x submitted for evaluation, status, x returned"])

P("I01", "Sessions do not interfere, runs are repeatable and restarts are fresh",
  "What a client sees of a session with the library -- a line search, an NLCG or VMLMB optimizer, the simple driver, a one-dimensional minimization, a conjugate gradient or trust region solver, a COBYLA or NEWUOA workspace, a run of COBYLA, NEWUOA or BOBYQA, operations on vectors -- depends only on the settings, the starting point and the answers of this session: it is bit for bit the same when the session runs alone in its process, after or interleaved with any other sessions of any kind, at the same time in other threads (without data race), or again. "
  "Starting a minimization again with an existing optimizer or workspace, at any moment and from any point, gives what a new one gives.",
  ["histories", "schedules"], "All interleavings of creations, steps, restarts and ends of several sessions of all kinds, in one or several threads.",
  "Tests run one thing at a time, once per process.",
  ["src/lnsrch.c", "src/nlcg.c", "src/vmlmb.c", "src/driver.c", "src/fmin.c", "src/lcg.c", "src/gqtpar.c", "src/cobyla.c", "src/newuoa.c", "src/bobyqa.c", "src/algebra.c", "src/simple_vector.c", "src/linalg.c", "src/utils.c"],
  [("objects, contexts, work arrays", "the whole state of a session is there", "structures of the objects"), ("memory of the nonmonotone search", "function values of the last steps", "nonmonotone_lnsrch.fsav, mp")],
  [("starting a run", "opk_start_nlcg, opk_start_vmlmb, opk_start, opk_fmin_start, cobyla_restart, newuoa_restart, opk__reset_lnsrch")],
  ["everything returned at each step: x, tasks, statuses, counters, steps, rho, descriptions, correction pairs"])

P("S01", "The gradient-based optimizers solve strongly convex problems",
  "Run to completion by its documented loop, the simple driver (VMLMB with any of its line searches -- the one of More and Thuente only without bounds -- and NLCG with every update rule and its default line search; single and double precision; every memory size, storage option and kind of bounds) solves any moderately conditioned strongly convex problem: it ends by itself with the task FINAL_X and the status success within a modest number of evaluations; "
  "every point submitted is feasible, the values at accepted iterates never exceed the worst of the last ones allowed by the line search, the final projected gradient is below the configured threshold and the distance to the solution is the one this certifies; the iteration and evaluation counters tell what happened.",
  ["inputs", "histories", "configurations"], "All strongly convex problems of a family with known constrained solutions, all options.",
  "Tests run a few unconstrained problems and do not judge the solution found.",
  ["src/driver.c", "src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c", "src/algebra.c"],
  [("x, f, g, bounds", "the state of the optimization", "opk_optimizer")],
  [("opk_start, opk_iterate", "simple driver")],
  ["task, status, counters, x and f at each call"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
print(len(PROPS), "properties")
