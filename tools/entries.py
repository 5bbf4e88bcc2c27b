NOT_APPLICABLE = []
MAIN = 'sqpdfo/sqpdfo_main.py'
TOP = 'sqpdfo/sqpdfo.py'
PRE = 'sqpdfo/sqpdfo_prelim.py'
OPTI = ['returned x, multipliers and info of optimize()', 'every call of the user functions']

prop('C01', 'The returned point was evaluated and comes with its own values',
     'Whenever a run gets as far as evaluating the functions and returns with a status other than a rejected argument or problem, the returned x is exactly one of the points at which the user\'s functions were called. The reported objective value is the value the objective returned at that point, and the reported constraint vector equals (same length, same order) what the constraint function returned there; without constraints it is empty. Values beyond 1e25 in magnitude, which are too large for the models, may be replaced: an objective value by 1e25, a constraint value by a large one (at least 10) of the same sign, never by a small one.',
     ['inputs', 'configurations', 'histories'], 'all smooth problems with finite values (below 1e25 at the initial points), functions with enormous values in part of the space, all option combinations, every evaluation and iteration budget (so every place at which a run can be cut)',
     'The tests compare a handful of complete runs with stored numbers; which of the points is returned depends on where a budget, repair or failed step cuts the run, which tests never vary.',
     [MAIN, TOP, 'sqpdfo/sqpdfo_augmX_evalf.py', 'sqpdfo/sqpdfo_find_smallf.py'],
     [('bookkeeping of the current best point and its values', MAIN), ('assembly of the result', TOP)], OPTI,
     'reference monitor over the recorded evaluation log of real runs',
     'random problems x options x cut points; every run is judged against its own evaluation log')

prop('C02', 'Every well-formed call returns a usable result',
     'A call with consistent arguments, valid options and user functions that return finite values never raises an exception and always ends, whatever the shape of the functions (smooth, nonsmooth, constant, linear, noisy, unbounded, infeasible or redundant constraints), the verbosity or the budgets. It returns a documented status other than "bad argument" and "bad problem", an x of the right size with finite entries, finite multipliers with one entry per variable and constraint, and a finite objective value.',
     ['inputs', 'configurations'], 'all finite-valued problems with n >= 1, any bounds with lb < ub, any number of constraints, all documented option values, all verbosities 0..6',
     'The tests run a dozen well-behaved problems with fixed options; crashes sit in rarely combined branches (repair, hard case, restart, fallback steps, printing).',
     [MAIN, PRE, TOP, 'sqpdfo/sqpdfo_solve_TR_bc.py', 'sqpdfo/bcdfo_solve_TR_MS_bc.py', 'sqpdfo/bcdfo_repair_Y.py'],
     [('error and fallback branches of the main loop', MAIN), ('initialisation', PRE)], OPTI,
     'crash, hang and result-shape monitor over random hostile workloads',
     'random smooth and hostile problems x options; uncaught exceptions and runs without end are the oracle, plus shape/finite checks of the result; one recorded finding (some variables fixed)')

prop('C03', 'Evaluations are counted exactly and budgets bind',
     'The reported number of evaluations equals the number of times the objective was called; with constraints, objective and constraint function are called in pairs at the same point. Evaluation and iteration budgets bind: no new step starts once the evaluation budget is used up (a run may exceed it only to finish the initial set or one repair batch, at most the size of the interpolation set), at most one iteration more than allowed is counted, and the budget statuses are only reported when the budget was really reached. A smaller budget only cuts the run short: its evaluations are a prefix of those of the same run with a larger budget.',
     ['inputs', 'configurations', 'histories'], 'all problems, option combinations and budget pairs',
     'Tests use one or two fixed budgets and never compare two runs of the same problem.',
     [MAIN, PRE, 'sqpdfo/sqpdfo_augmX_evalf.py', 'sqpdfo/sqpdfo_finish.py'],
     [('evaluation counter', 'sqpdfo/sqpdfo_augmX_evalf.py'), ('budget tests', MAIN)], OPTI,
     'conservation and prefix monitors over recorded call logs',
     'every run is checked against its call log and, for budgets, against a longer run of the same problem')

prop('C04', 'Bounds hold for start, trial and returned points',
     'With lower bounds strictly below upper bounds, the points of the initial set (the first n+1 evaluations, after moving the start into the box), every trial point computed from a step and evaluated, and the returned point all lie inside the bounds up to a relative 1e-8. Only points generated to improve the geometry of the interpolation set are exempt.',
     ['inputs', 'configurations'], 'all problems with finite or one-sided bounds, starts inside or far outside the box, all options',
     'Tests use a few boxes with starts inside; the clipping branches need active bounds, narrow boxes, and constraints pushing outwards.',
     [PRE, 'sqpdfo/sqpdfo_solve_TR_bc.py', 'sqpdfo/bcdfo_solve_TR_MS_bc.py', 'sqpdfo/blls.py', MAIN],
     [('initial set kept in the box', PRE), ('bound handling of the steps', 'sqpdfo/sqpdfo_solve_TR_bc.py')],
     OPTI + ['result of the step computation (hooked)'],
     'run-time assertion monitor on evaluated points and hooked step computation',
     'every evaluated point of random bounded runs is classified and asserted', hook='wraps the step computation at run time, no change in /repo')

prop('C05', 'Status 0 certifies a feasible first-order point',
     'When the status says "solution found", x satisfies the bounds, the constraint violation max(|ce|, -ci) is at most 100 times the feasibility tolerance (10^2 is the documented slack after a repair), and with the default kind of model the gradient of the Lagrangian formed with the TRUE derivatives and the returned multipliers (grad f + lm_bounds + J^T lm_constraints) vanishes up to 100 times the gradient tolerance plus the accuracy of the models. Bound multipliers are zero at inactive bounds, not positive at an active lower bound and not negative at an active upper bound.',
     ['inputs', 'configurations'], 'all smooth problems (bounds, equalities, inequalities), all tolerances 1e-3..1e-6',
     'The tests compare the solution of known problems with stored numbers; they never evaluate the optimality of the returned point with independent derivatives.',
     [MAIN, 'sqpdfo/sqpdfo_optimality.py', 'sqpdfo/sqpdfo_compute_multiplier.py'],
     [('stopping test', MAIN), ('optimality measures', 'sqpdfo/sqpdfo_optimality.py'), ('least-squares multipliers', 'sqpdfo/sqpdfo_compute_multiplier.py')], OPTI,
     'offline certificate checker with independent derivatives over real runs',
     'finite-difference certificate for every status-0 result of random runs; signs of inequality multipliers excluded (recorded finding of C13)')

prop('C06', 'Accepted steps decrease the merit function; the best point is never lost',
     'A trial step is accepted only if the merit function (objective plus penalty times the norm of the constraint violation) at the newly evaluated point is below that of the current iterate by at least 1e-4 of the predicted decrease; merit values refer to points that were really evaluated, and actual, predicted reduction and their ratio are consistent. Without constraints the objective value of the current iterate never increases over the run, an accepted point is never lost, and the returned value is not worse than the first evaluation.',
     ['inputs', 'configurations', 'histories'], 'all problems and options, every step of every run',
     'Stored end results of a few runs cannot show that every one of the thousands of acceptance decisions was right.',
     [MAIN, 'sqpdfo/sqpdfo_find_smallf.py'],
     [('acceptance test and merit function', MAIN), ('move to better interpolation points', 'sqpdfo/sqpdfo_find_smallf.py')],
     OPTI + ['step lines of the level-5 trace'],
     'online checker of the step trace against the recorded evaluations',
     'each printed accept/reject decision is recomputed from the evaluation log')

prop('C07', 'A failing evaluation stops the run cleanly',
     'If the objective or constraint function raises an exception, returns NaN or something that is no number, the objective returns an infinity, or the number of constraint values changes, at any evaluation of the run, then optimize() does not raise, calls neither function at any further point, and returns the status for evaluation errors with the number of evaluations made including the failed one. The evaluations before the failure are the same as without it, and if the initial set was complete the result is a successfully evaluated point with its own values.',
     ['fault_sequences', 'inputs', 'configurations'], 'every evaluation index of every run, both functions, all failure kinds',
     'No test injects a failure into a run.',
     ['sqpdfo/sqpdfo_func.py', 'sqpdfo/sqpdfo_evalfgh.py', 'sqpdfo/sqpdfo_augmX_evalf.py', MAIN, PRE],
     [('exception capture around the user functions', 'sqpdfo/sqpdfo_func.py'), ('status propagation', 'sqpdfo/sqpdfo_augmX_evalf.py')], OPTI,
     'fault injection into user functions with log-based oracle',
     'faults of ten kinds injected at indices spread over the run', level='fault_enumeration')

prop('C08', 'Results depend only on the arguments',
     'Repeating a call with the same arguments gives bitwise the same evaluations, result, multipliers, status and counters, whatever other calls of optimize() were made before (other sizes, with inequality slacks, failed, rejected, interrupted by exceptions), whatever the state of the global random generator, and in another process.',
     ['histories', 'inputs'], 'all histories of sequential calls, all problems and options',
     'Each test runs its problem once in a fresh set-up; state leaking through module globals only shows with particular call histories.',
     ['sqpdfo/sqpdfo_global_variables.py', TOP, PRE],
     [('initialisation of the module-level state', TOP)], OPTI,
     'differential trace comparison after random call histories and across processes',
     'bitwise comparison of full run logs', state=[('module globals', 'slacks, function handles, iteration counter, seed', 'sqpdfo/sqpdfo_global_variables.py')])

prop('C09', "The caller's data are left untouched",
     'optimize() does not change any of its arguments (option object including its extra attributes, x0, lb, ub, li, ui), also when it normalises options or moves the start into the bounds, so that calling it again with the same objects repeats the run. User functions that overwrite the argument list they receive (at once or later), and constraint functions that return the same array at every call, do not change the run, and the arrays they return are not changed.',
     ['inputs', 'configurations'], 'all argument forms, options and problems',
     'No test looks at the arguments after a call.',
     [TOP, PRE, 'sqpdfo/sqpdfo_options.py', 'sqpdfo/sqpdfo_func.py'],
     [('private copies of the arguments', TOP)], ['arguments before/after the call'] + OPTI,
     'snapshot monitor of arguments before/after real calls; hostile callbacks',
     'deep byte comparison of all arguments')

prop('C10', 'Bad arguments are refused before any evaluation; equivalent calls agree',
     'An invalid option value (unknown Hessian/model/degree/descent name, non-positive or NaN budgets, radius or infinity threshold, negative or NaN tolerance, text or None for a number and vice versa), an objective or constraint function that is missing or cannot be called, a missing or NaN start, a wrong number of bounds or limits, a number of constraints that is no nonnegative integer, a lower bound above its upper bound or a problem with all variables fixed gives status 1 (bad argument) or 2 (bad problem structure) without raising and without evaluating anything; a constraint function that returns fewer values than there are inequalities gives status 2 after the initial set. Different ways of writing the same call (letter case and blanks in option names, omitted defaults or zero tolerances, functions, methods, partials or callable objects, row/column/list/nested list/1-D start, bounds and limits, whole numbers given as integers and vice versa, function values as list/tuple/row/column/number/integers, two-sided constraints, absent or empty bounds, infinite bounds or bounds beyond 1e20 or the infinity threshold, unknown extra attributes) give the same run.',
     ['inputs', 'configurations'], 'all option values and argument forms',
     'Tests exercise only valid options in one spelling.',
     ['sqpdfo/sqpdfo_options.py', PRE, TOP],
     [('option check and defaults', 'sqpdfo/sqpdfo_options.py'), ('bounds check', PRE)], OPTI,
     'differential monitor over argument scenarios (status, evaluation count, run equality)',
     'scenario generator with invalid values and equivalent spellings')

prop('C11', 'Printing is passive',
     'The verbosity level changes only what is printed: for every level 0..6 the evaluated points, result, multipliers, status and counters are bitwise the same.',
     ['configurations', 'inputs'], 'all verbosity levels, problems, options and failing evaluations',
     'Tests run mostly silent and never compare verbosity levels.',
     [MAIN, 'sqpdfo/sqpdfo_options.py', 'sqpdfo/sqpdfo_iter_printout.py', 'sqpdfo/sqpdfo_finish.py'],
     [('printing branches', MAIN)], OPTI,
     'differential trace comparison across verbosity levels',
     'bitwise comparison of full run logs')

prop('C12', 'History file and printed report are truthful',
     'With printing on, convhist.m is rewritten for every run as a complete matrix: rows in order of iteration and evaluation counts, each objective value one that was really evaluated up to then, each feasibility value that of such a point (never below the true violation when there are inequalities), and the last row agreeing with the returned objective, evaluation count and iteration count. The final report prints the returned status, objective value, number of evaluations and number of iterations.',
     ['inputs', 'configurations', 'histories'], 'all problems, budgets, options and verbosities 1..3 (4 for the file frame)',
     'No test reads the history file or the report.',
     [TOP, 'sqpdfo/sqpdfo_iter_printout.py', 'sqpdfo/sqpdfo_finish.py', MAIN],
     [('history rows', 'sqpdfo/sqpdfo_iter_printout.py'), ('final report', 'sqpdfo/sqpdfo_finish.py')], ['convhist.m', 'stdout'] + OPTI,
     'offline checker of the written history file and report against the evaluation log',
     'every row of every file is checked')

prop('C13', 'Strongly convex quadratic problems are solved',
     'On well-conditioned strongly convex quadratic programs with bounds and linear constraints whose exact solution is known, and no inequality functions, the default configuration reaches the solution (within 1e-2, budget 500) practically always and in the median within 120 evaluations, and every combination of model kind and Hessian approximation mostly does; with linear inequalities most runs (over 70 % overall) succeed. Whenever status 0 is reported the point is within 0.15 of the exact solution, feasible within 1e-3, and with the default model kind the multipliers agree with the exact ones where these are unique.',
     ['inputs', 'configurations'], 'strongly convex QPs, n <= 5, condition number <= 10, bounds / linear equalities / inequalities / mixtures, all model kinds',
     'Tests cover a dozen fixed problems; solving ability over a class is a statistical property of many runs.',
     [MAIN, PRE, 'sqpdfo/sqpdfo_solve_TR_bc.py', 'sqpdfo/sqpdfo_compute_multiplier.py'],
     [('the whole algorithm', MAIN)], OPTI,
     'reference-solution monitor (exact active-set QP solution) over random problems',
     'exact KKT enumeration as oracle, success rates per configuration; one recorded finding (wrong-signed inequality multiplier)')

prop('C14', 'Interpolation models are what their kind promises',
     'For any well-poised interpolation set the model built from the values at its points interpolates them (for regression with more points than coefficients: is the least-squares fit), coincides with the sub-basis, minimum-Hessian-Frobenius-norm, minimum-norm or regression model defined independently, and reproduces linear (sub-basis and minimum Frobenius norm) and, with a full set, quadratic functions exactly. The Lagrange polynomials are 1 at their own point and 0 at the others, their single evaluation routine agrees with them for any subset, and values times Lagrange polynomials give the model.',
     ['inputs', 'configurations'], 'all dimensions 1..6, all admissible set sizes, four kinds of model, centres up to 1e3 and diameters 1e-4..1e2',
     'The unit tests use two or three hand-made sets and compare with stored numbers.',
     ['sqpdfo/bcdfo_build_QR_of_Y.py', 'sqpdfo/bcdfo_computeP.py', 'sqpdfo/bcdfo_computeLj.py', 'sqpdfo/bcdfo_evalL.py'],
     [('factorisation of the interpolation system', 'sqpdfo/bcdfo_build_QR_of_Y.py'), ('model coefficients', 'sqpdfo/bcdfo_computeP.py')],
     ['models and Lagrange polynomials of the model routines'],
     'differential monitor of the model routines against an independent reference model',
     'independent direct solution of the defining systems, tolerance scaled by the condition number')

prop('C15', 'Gradients and Hessians are the derivatives of the models',
     'For every polynomial of any admissible length (linear up to full quadratic), shifted or not, and every point, the gradient and Hessian routines return the first and second derivatives (symmetric Hessian) of the polynomial that the evaluation routine evaluates, in the original variables. The projected gradient is the move from x to the projection of x minus the gradient onto the box and its reported norm is its largest entry; the table of basis functions at given points has the documented order.',
     ['inputs'], 'all dimensions 1..7, all polynomial lengths, shifts and scalings',
     'The unit tests use one polynomial each.',
     ['sqpdfo/bcdfo_evalP.py', 'sqpdfo/bcdfo_gradP.py', 'sqpdfo/bcdfo_hessP.py', 'sqpdfo/bcdfo_evalZ.py', 'sqpdfo/bcdfo_projgrad.py'],
     [('derivatives in the polynomial basis', 'sqpdfo/bcdfo_gradP.py')], ['results of the polynomial routines'],
     'differential monitor of polynomial routines against an independent evaluator',
     'random polynomials and points')

MS = 'sqpdfo/bcdfo_solve_TR_MS.py'
MSBC = 'sqpdfo/bcdfo_solve_TR_MS_bc.py'
BC = 'sqpdfo/sqpdfo_solve_TR_bc.py'

prop('C16', 'The trust-region solver returns the global minimiser in the ball',
     'For every quadratic model (convex, indefinite, singular, hard case, nearly hard case, diagonal, badly scaled) and every radius, the unconstrained trust-region solver returns a step inside the ball (up to its relative tolerance) whose model value is within that tolerance of the global minimum over the ball; the model value, step norm and model gradient it reports are those of the returned step, and its arguments are not modified.',
     ['inputs'], 'dimensions 1..8, all signatures of the Hessian, gradients from 1e-5 to 1e3 or zero, Hessians from 1e-3 to 1e3, radii from 1e-4 to 1e3, tolerances 1e-3 to 1e-8',
     'The unit tests solve a few fixed subproblems; the hard case and the safeguarded Newton iteration depend on the spectrum and on the direction of the gradient.',
     [MS], [('More-Sorensen iteration and hard case', MS)], ['step, multiplier, value, gradient and norm returned by the trust-region solver'],
     'differential run-time monitor of the solver against an eigenvalue-based global optimum',
     'random subproblems of eight kinds, each judged against the exact global minimum')

prop('C17', 'The bound-constrained trust-region step is feasible and decreases the model',
     'For every quadratic model, box containing the origin and radius, the bound-constrained trust-region solver returns a step inside the box and the ball with a truthful model value that is never above zero; when a decrease is possible it practically always achieves a decrease comparable to that of the projected steepest-descent (Cauchy) step, and for convex models practically always 90 percent (never less than half) of the best decrease in the box and the ball.',
     ['inputs'], 'dimensions 1..6, bounds finite, one-sided, infinite or with the origin on the boundary, all signatures of the Hessian, all scales',
     'The unit tests use a handful of subproblems; which variables hit which bound in which order is combinatorial.',
     [MSBC], [('active-set loop of the bound-constrained solver', MSBC)], ['step and model value returned by the solver'],
     'run-time assertion monitor and success-rate monitor against an independent Cauchy step',
     'per-run assertions for box, ball, value and descent; rates for sufficient decrease')

prop('C18', 'Bounded least squares is solved; least-squares multipliers are exact',
     'The bounded least-squares solver returns a point within its bounds with the residual norm it reports, without modifying its arguments, and when it reports success no point within the bounds has a smaller residual, also for rank-deficient and badly scaled systems. The least-squares multipliers computed from it are zero at inactive bounds, not positive at active lower and not negative at active upper bounds, and at a stationary point with independent gradients of the active constraints (slack variables included) they are the exact multipliers. The optimality measures used for stopping are the gradient of the Lagrangian at these multipliers and a measure of infeasibility that is never smaller than the true violation.',
     ['inputs'], 'n 1..5, any rank, any pattern of finite and infinite bounds, any set of active bounds, up to 3 equalities and 3 inequalities with zero or positive slacks',
     'The unit tests contain one or two systems; which variables enter and leave the active set is combinatorial.',
     ['sqpdfo/blls.py', 'sqpdfo/sqpdfo_compute_multiplier.py', 'sqpdfo/sqpdfo_optimality.py'],
     [('active-set iteration', 'sqpdfo/blls.py'), ('multiplier system and signs', 'sqpdfo/sqpdfo_compute_multiplier.py')],
     ['solution, residual and exit code of the least-squares solver', 'multipliers returned for a given gradient and Jacobian'],
     'differential run-time monitor against enumeration of all active sets and known multipliers',
     'every system is compared with the best of all active sets; multipliers with those the gradient was made of')

prop('C19', 'Hessian approximations stay symmetric, positive definite and secant',
     'The damped BFGS update of a positive definite matrix is symmetric and positive definite, satisfies the secant equation with the Powell-corrected difference (uncorrected when the curvature is sufficient), changes the matrix by at most rank two, rejects null steps without changing the matrix, and scales the first matrix by the observed curvature. The convexification of a symmetric matrix returns a symmetric matrix without negative eigenvalues that is the input itself when that is already positive definite.',
     ['inputs', 'histories'], 'n 1..6, chains of updates with positive, small and negative curvature, all scales of steps and differences',
     'The unit tests apply one update to one matrix.',
     ['sqpdfo/sqpdfo_bfgs_update.py', 'sqpdfo/sqpdfo_check_convex.py'],
     [('damped BFGS update', 'sqpdfo/sqpdfo_bfgs_update.py'), ('convexification', 'sqpdfo/sqpdfo_check_convex.py')],
     ['matrix, corrected difference and correction factor returned by the update'],
     'run-time invariant monitor over random chains of updates',
     'eigenvalues, symmetry, rank and secant equation of each update asserted')

prop('C20', 'Truncated conjugate gradients is truthful and beats the Cauchy point',
     'The truncated conjugate-gradient solver returns a step inside the ball; its exit code tells the truth (converged: small residual; boundary: norm equal to the radius; negative curvature: a direction of negative curvature exists and the step is on the boundary; iteration limit), its model value never exceeds that of the Cauchy step, and for positive definite systems with a large radius it solves the system.',
     ['inputs'], 'dimensions 1..8, symmetric matrices of all signatures and scales, all radii, with and without preconditioned starts',
     'The unit tests solve one or two systems.',
     ['sqpdfo/sqpdfo_truncated_cg.py'], [('conjugate-gradient iteration and boundary step', 'sqpdfo/sqpdfo_truncated_cg.py')],
     ['step and info returned by the solver'],
     'run-time assertion monitor of the solver result against an independent Cauchy step',
     'exit code, norm, residual and decrease of every solve asserted')

prop('C21', 'Edits of the interpolation set change exactly what they should',
     'Replacing, adding, swapping or including an interpolation point yields the old set with only that change; function and constraint values and point indices are permuted along in a swap; the arguments are not modified; and the returned factorisation, base point and scaling describe the new set (models built from them are those of the new set). Including a point replaces, among the allowed points whose Lagrange polynomial exceeds the threshold at the new point, one that maximises the requested criterion, and changes nothing when there is none; a complete quadratic set is not extended.',
     ['inputs'], 'n 1..5, all admissible set sizes, four kinds of model, all criteria, thresholds 1e-10..5, any choice set',
     'The unit tests make one edit of a fixed two-dimensional set each.',
     ['sqpdfo/bcdfo_replace_in_Y.py', 'sqpdfo/bcdfo_augment_Y.py', 'sqpdfo/sqpdfo_swap_in_Y.py', 'sqpdfo/bcdfo_include_in_Y.py', 'sqpdfo/bcdfo_evalL.py'],
     [('choice of the replaced point', 'sqpdfo/bcdfo_include_in_Y.py'), ('renewed factorisation', 'sqpdfo/bcdfo_build_QR_of_Y.py')],
     ['sets, values and factorisations returned by the edit routines'],
     'differential run-time monitor of set edits against an independent model of the set',
     'expected set computed independently, factorisation probed through models and compared with the reference model')

prop('C22', 'Geometry improvement leaves a well-poised set and reports it truthfully',
     'The proposed replacement of a point lies in the ball around the current iterate and (within the tolerance of the trust-region solver) maximises the absolute value of that point\'s Lagrange polynomial there, with a truthful value; the current iterate is never replaceable. The reported poisedness is the largest such value over all points, the reported radius the largest distance from the current iterate. Repairing a set keeps the current iterate and every point not reported as replaced, moves every far point and puts all replacements into the ball, returns a matching factorisation, truthful radius and poisedness, and practically always ends with a set whose poisedness is below the threshold. A set with coincident points, or contained in a hyperplane, is never reported as poised, and repairing it restores a non-degenerate set.',
     ['inputs'], 'n 1..4, all admissible set sizes, four kinds of model, radii from 1e-2 to 3 times the size of the set, far-point factors 1..10, thresholds 1.2..5',
     'The unit tests repair one fixed two-dimensional set.',
     ['sqpdfo/bcdfo_repair_Y.py', 'sqpdfo/bcdfo_find_new_yj.py', 'sqpdfo/bcdfo_poisedness_Y.py'],
     [('repair loop', 'sqpdfo/bcdfo_repair_Y.py'), ('maximisation of Lagrange polynomials', 'sqpdfo/bcdfo_find_new_yj.py')],
     ['set, replaced indices, radius and poisedness returned by the geometry routines'],
     'run-time monitor of the geometry routines against exact maxima of independent Lagrange polynomials',
     'every returned point, value, index and radius recomputed with the reference model and an exact trust-region solver')

prop('C23', 'The best interpolation point becomes the iterate, consistently',
     'Moving to the best interpolation point takes, among the evaluated points inside the bounds, one whose merit value (objective plus penalty times constraint violation with the given slacks) is smallest; the point set, function values, constraint values and indices are permuted consistently; the returned iterate, function value, index and info values are those of that point; nothing moves without a gain; inputs are not modified and the factorisation belongs to the permuted set.',
     ['inputs'], 'n 1..5, all admissible set sizes, equalities and inequalities, dummy points, bounds excluding points, any penalty',
     'The unit tests contain one call; which arrays have to be permuted depends on which constraint kinds are present.',
     ['sqpdfo/sqpdfo_find_smallf.py', 'sqpdfo/sqpdfo_swap_in_Y.py'],
     [('search of the best point', 'sqpdfo/sqpdfo_find_smallf.py'), ('swap of points with their values', 'sqpdfo/sqpdfo_swap_in_Y.py')],
     ['set, values, indices and info returned by the routine'],
     'differential run-time monitor against an independent search and permutation',
     'expected permutation computed independently for every call')

prop('C24', 'During a run the models agree with the recorded evaluations',
     'At every construction of the models in a run, each point of the interpolation set is a point at which the user functions were really evaluated and carries exactly the objective and constraint values recorded there (or the documented substitute for failed values), the set has at least n+1 points and grows to (never beyond) the number the option final_degree names (n+1, 2n+1 or (n+1)(n+2)/2; twice that for regression), and the models are of the kind the option whichmodel names and interpolate those values; the model of the Lagrangian used for the Hessian is the objective plus the multipliers times the constraints; with hess_approx bfgs the Hessian approximation is symmetric positive definite, maps the step to the change of the gradient of the Lagrangian (unless Powell-corrected) and is the identity after every bfgs_restart-th evaluation; and every trust-region step starts from the first point of the set with its own values, the gradient and Jacobian of the current models and a symmetric Hessian.',
     ['inputs', 'histories'], 'end-to-end runs over all problem families, n 1..6, all constraint kinds, failing evaluations, model and BFGS Hessians, with and without bounds',
     'Tests look at the final result only, which usually survives a wrong model because the step is then rejected.',
     [MAIN, 'sqpdfo/sqpdfo_augmX_evalf.py', 'sqpdfo/sqpdfo_computeHessian.py', 'sqpdfo/bcdfo_computeP.py', 'sqpdfo/bcdfo_augment_Y.py'],
     [('update of set, values and models in an iteration', MAIN), ('values of new points', 'sqpdfo/sqpdfo_augmX_evalf.py')],
     ['arguments and results of model construction, Hessian and step routines, observed by hooks during runs', 'evaluations recorded by the user functions'],
     'in-run monitor: hooks on model building, Hessian and step compared with the evaluation log',
     'every model construction and every step of each run is compared with the log of evaluations')

prop('C25', 'The composite step is feasible, truthful and makes progress',
     'The step computed from the models lies in the bounds and within twice the radius, keeps the slack variables nonnegative, never predicts an increase of the merit, never leaves the model above its value at the restored point (so it does not go uphill from a feasible point), and leaves its arguments alone. Without bounds and slack variables its predicted reduction is exactly that of the models, its restoration part minimises the linearised violation in its ball, its tangent part keeps the linearised constraints, achieves at least the Cauchy decrease and is stationary when inside the ball, and the boundary flags are truthful. With bounds and no slack variables the linearised violation falls at least as much as predicted; with slack variables and no bounds the prediction is exact unless the tangent step would make a slack variable negative; otherwise the step practically always does not increase the linearised violation and decreases the model.',
     ['inputs'], 'n 1..5, up to n constraints, dependent and inconsistent Jacobians, indefinite Hessians, zero gradients, any scale and radius, slack variables',
     'The unit tests contain one or two calls with fixed data; each branch of the step depends on radius, rank and active bounds.',
     [BC, 'sqpdfo/sqpdfo_truncated_cg.py', MS, MSBC],
     [('restoration and tangent steps', BC), ('tangent step by conjugate gradients', 'sqpdfo/sqpdfo_truncated_cg.py')],
     ['step, predicted reduction, boundary flags, multipliers and slacks returned by the routine'],
     'run-time assertion monitor of the composite step against independent optima; rates where the method is heuristic',
     'exact assertions without bounds and slacks, assertions plus success rates otherwise')

prop('C26', 'Convergence is declared only with an accurate model',
     'When status 0 is reported, the interpolation set of the last models is centred at the returned point, is not degenerate, and is accurate: its independently computed poisedness times its radius is at most 0.5 (nominal accuracy 1e-3, exceeded at most 100-fold by repaired sets) and mostly within twice the nominal accuracy; and the gradients of the models of that set satisfy the first-order conditions with the returned multipliers within 100 times the requested tolerance, for every kind of model.',
     ['inputs', 'histories'], 'end-to-end runs, n 1..6, all constraint kinds, all kinds of model and degrees, tolerances from 1e-1 to 1e-5',
     'With fine tolerances the set shrinks on its own; with the handful of tested runs the accuracy test before convergence never decides anything.',
     [MAIN, 'sqpdfo/bcdfo_poisedness_Y.py', 'sqpdfo/bcdfo_repair_Y.py'],
     [('convergence tests before and after improving the set', MAIN), ('poisedness of the set', 'sqpdfo/bcdfo_poisedness_Y.py'), ('repair', 'sqpdfo/bcdfo_repair_Y.py')],
     ['last model construction of the run, observed by a hook', 'returned point, multipliers and status'],
     'in-run monitor: the final interpolation set captured by a hook and judged by independent Lagrange polynomials and models',
     'poisedness, radius, degeneracy and model residual of the final set of every converged run')

prop('C27', 'The trust region follows the agreement of models and functions',
     'During a run every step is computed in a trust region of positive radius, initially at most 1 and never above 1e5 times that. An accepted step never reduces the radius, and enlarges it (at least nearly twofold, at most fivefold or to twice the step) when it reached the boundary; a rejected step never enlarges it and at least halves it while it is above 1e-5; after the interpolation set was rebuilt the radius is the one of the rebuilt set, which is not larger than the radius before (or 1e-5). Rejected steps do not repeat at one radius, and no point is evaluated over and over again, until the budget is used up. The radii printed in the report are those used, and status 15 (trust region too small) is reported only with a radius below 1e-10 or below the rounding level of the point.',
     ['inputs', 'histories'], 'end-to-end runs, n 1..6, all constraint kinds, all kinds of model and Hessian, smooth and hostile functions, tolerances down to 1e-12',
     'A wrong radius rule still converges on the tested problems, only slower or with luck; endless repetition shows only in rare degenerate states.',
     [MAIN, 'sqpdfo/bcdfo_include_in_Y.py', 'sqpdfo/bcdfo_repair_Y.py', 'sqpdfo/sqpdfo_iter_printout.py'],
     [('radius updates after accepted and rejected steps', MAIN), ('radius of an improved set', MAIN), ('printed radius', 'sqpdfo/sqpdfo_iter_printout.py')],
     ['radius argument of each step computation and each rebuild of the set, observed by hooks', 'printed trace', 'evaluations recorded by the user functions'],
     'in-run monitor: trace of radii, decisions and rebuilds checked against the transition rules',
     'every transition between two successive step computations of each run is checked')


prop('C28', 'Runs inside or beside other runs are independent',
     'A call of optimize() made from within a user function of another run (also several levels deep, also failing or refused ones), or in another thread at the same time, gives bitwise the same evaluations, result, multipliers, status and counters as the same call made alone, and so do the surrounding and the parallel runs. Only the history file in the working directory is shared.',
     ['schedules', 'inputs', 'histories'], 'all problems and options, nesting up to three levels from objective or constraint function, 2..4 threads, every interleaving at evaluations, at accesses to the module state and at calls of internal routines, and free-running threads',
     'Every test runs one optimisation at a time; bilevel problems and parallel multistarts are never tried.',
     ['sqpdfo/sqpdfo_global_variables.py', 'sqpdfo/sqpdfo_func.py', TOP],
     [('state of the current run', 'sqpdfo/sqpdfo_global_variables.py'), ('calls of the user functions', 'sqpdfo/sqpdfo_func.py')], OPTI,
     'differential trace comparison of nested runs and of threads under a controlled random scheduler with the runs alone',
     'bitwise comparison of full run logs; switches at user functions and hooked routines drawn by a scheduler, plus free threads',
     state=[('state of the current run', 'function handles, slacks, counters', 'sqpdfo/sqpdfo_global_variables.py')])

prop('C29', 'Reported multipliers and optimality measures belong to the returned point',
     'Whatever the reason for stopping (except bad arguments and failing evaluations), the result carries one multiplier per variable and constraint; the multiplier of a bound is zero unless the returned point lies on that bound (within 1e-5), not positive at a lower and not negative at an upper bound; among all such multipliers the returned ones leave (up to rounding) the smallest gradient of the Lagrangian (slack variables included); the reported gradient and Jacobian are those of the last models at the returned point; the reported gradient of the Lagrangian is the gradient plus the bound multipliers plus the transposed Jacobian times the constraint multipliers and its reported norm is its largest component; the reported infeasibility is that of the returned point (for inequalities c >= 0 at least the violation, with equality constraints exactly the largest residual); and the printed tables of variables, bounds, constraints and multipliers show the same numbers.',
     ['inputs', 'histories', 'configurations'], 'smooth, infeasible and hostile problems n 1..6, all constraint and bound kinds, all options, every stopping reason (small and large evaluation and iteration budgets, tight tolerances)',
     'Tests compare multipliers at a few converged solutions; stale or mismatched data only shows at other exits.',
     ['sqpdfo/sqpdfo_compute_multiplier.py', 'sqpdfo/sqpdfo_optimality.py', MAIN, TOP],
     [('multipliers', 'sqpdfo/sqpdfo_compute_multiplier.py'), ('optimality measures', 'sqpdfo/sqpdfo_optimality.py')],
     ['returned x, multipliers and info of optimize()', 'last models (hook)', 'slack variables at the end (hook)', 'printed report'],
     'end-of-run monitor: recomputation of multipliers (bounded least squares) and measures from the reported data',
     'every result of every run is recomputed independently')
