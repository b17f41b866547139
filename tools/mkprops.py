"""Generates /verif/properties.jsonl (the file is committed; this is its source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files,
                 state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                 mechanism=[dict(name=a, where=b) for a, b in mech],
                 observe_at=observe, hook_needed=None)))
S = "jaxopt/_src/"
p("C01", "Euclidean projections return the closest feasible point",
  "For every public Euclidean projection in jaxopt.projection and every valid input (value, set parameters, scalar, vector or pytree where documented), the result belongs to the set and no point of the set is closer to the input. It is unchanged when projected again, is unchanged for inputs already in the set, and for convex sets projecting never increases the distance between two inputs.",
  ["inputs"], "all vectors/matrices/pytrees, including ties, zeros, boundary points and points already feasible; all valid radii, weights, bounds, scalings, affine systems and polyhedra",
  "Tests project a few Gaussian vectors per set; ties, zeros, exactly-feasible points, degenerate bounds and non-default set parameters decide which branch of the sort/bisection is used and are not sampled.",
  [S+"projection.py", S+"bisection.py", S+"osqp.py", S+"eq_qp.py"],
  [("sort/threshold formulas for simplex and l1 sets", S+"projection.py"), ("bisection for box sections", S+"bisection.py"), ("QP solves for affine sets and polyhedra", S+"projection.py")],
  ["return value of jaxopt.projection.projection_*"])
p("C02", "Proximal operators are exact minimizers of their objective",
  "For every public proximal operator in jaxopt.prox, the result y minimizes 0.5*||y - x||^2 + scaling * g(y) for the documented g, for every input x, every valid hyperparameter (scalar, array, tuple or pytree as documented, or the documented default) and every scaling > 0.",
  ["inputs"], "all x (scalars, vectors, matrices, pytrees), including exact threshold/tie/zero points; all hyperparameters and scalings",
  "Tests compare a handful of fixed vectors with a generic minimizer, almost always with scaling 1 and a scalar hyperparameter; thresholds, group ties, prox-of-nonconvex parts and scaled forms are unsampled.",
  [S+"prox.py", S+"projection.py"],
  [("closed-form shrinkage formulas", S+"prox.py"), ("make_prox_from_projection", S+"prox.py")],
  ["return value of jaxopt.prox.prox_*"])
p("C03", "Loss and objective functions equal their definitions and are stable",
  "Every public loss and objective returns the value of its documented formula for every valid input, stays finite (neither NaN nor overflow) when the true value is representable, and has as gradient the derivative of that formula; for Fenchel-Young losses (logistic, sparsemax, multiclass and sparse counterparts) the gradient is the matching prediction minus the target and the loss is nonnegative and zero exactly at the target distribution. The per-column Lipschitz constants and linear-operator forms offered for coordinate solvers agree with the objective they describe.",
  ["inputs"], "all labels, logits of any magnitude (incl. +-1e4, ties), all class counts, all deltas, regularizations and intercept options",
  "Tests check a few random values; extreme logits, tied logits, boundary pieces of piecewise losses and the coordinate-solver subobjects are sampled once or never.",
  [S+"loss.py", S+"objective.py", S+"linear_operator.py", S+"projection.py"],
  [("numerically stable formulas", S+"loss.py"), ("CompositeLinearFunction subobjectives and Lipschitz constants", S+"objective.py"), ("DenseLinearOperator columns and updates", S+"linear_operator.py")],
  ["return values and jax.grad of jaxopt.loss.* and jaxopt.objective.*"])
p("C04", "Derivatives of projections, proxes, isotonic and losses are correct",
  "Forward- and reverse-mode derivatives of projections, proximal operators, isotonic regression and losses, with respect to the input and every differentiable hyperparameter, equal the true derivative wherever the map is differentiable, and forward and reverse mode are adjoint to each other. No NaN derivative is produced at points where the map is differentiable.",
  ["inputs"], "all points of differentiability, all tangent and cotangent directions, all differentiable hyperparameters",
  "Tests check Jacobians at single random points, mostly w.r.t. x and in one mode; hyperparameter derivatives, other modes and sparse supports are sampled once or not at all.",
  [S+"projection.py", S+"prox.py", S+"isotonic.py", S+"loss.py", S+"implicit_diff.py"],
  [("custom_jvp rules of the simplex and isotonic routines", S+"projection.py"), ("custom_vjp of the box section and QP based projections via implicit differentiation", S+"implicit_diff.py")],
  ["jax.jvp / jax.vjp / jax.jacobian of the public functions"])
p("C05", "Unconstrained solvers reach a stationary point and report it truthfully",
  "On smooth strongly convex problems every unconstrained solver (gradient descent, BFGS, L-BFGS, nonlinear CG, with every documented line search, stepsize, acceleration and method option) run with enough iterations returns the minimizer to the requested tolerance as long as its line searches succeed (a line search that can only shrink its last step gives no such guarantee). The reported error is the documented one - the gradient norm for BFGS, L-BFGS and nonlinear CG, the length of the last gradient step divided by its stepsize for gradient descent - never NaN while the iterate is fine, and the solver does not stop before maxiter with an error above tol unless its line search failed with stop_if_linesearch_fails set.",
  ["inputs", "configurations"], "all well conditioned convex objectives (quadratics, regularized logistic and other smooth losses), all starting points incl. the optimum, all option combinations",
  "Tests run each solver on one or two fixed datasets with default-ish options; most option combinations and starting points are never run.",
  [S+"gradient_descent.py", S+"proximal_gradient.py", S+"bfgs.py", S+"lbfgs.py", S+"nonlinear_cg.py", S+"base.py"],
  [("update rules", S+"lbfgs.py"), ("stopping criterion of the iterative driver", S+"base.py")],
  ["params and state of solver.run"])
p("C06", "Constrained and composite solvers return feasible, optimal points",
  "ProjectedGradient, ProximalGradient, MirrorDescent, BlockCoordinateDescent, BoxCDQP and LBFGSB return points satisfying their constraints (for projected, mirror and box methods at every iterate) and, after enough iterations on convex problems, satisfying the optimality conditions of the stated problem; all methods that can express the same problem agree on its solution. The reported error is the documented optimality measure of the returned point.",
  ["inputs", "configurations"], "all convex smooth objectives combined with every supported set/regularizer, all starting points incl. infeasible and optimal ones, infinite or coinciding bounds, all acceleration, stepsize and line-search options",
  "Tests use one synthetic dataset per solver and compare with sklearn; active-set patterns, degenerate bounds, zero features and option combinations are not enumerated.",
  [S+"projected_gradient.py", S+"proximal_gradient.py", S+"mirror_descent.py", S+"block_cd.py", S+"cd_qp.py", S+"lbfgsb.py"],
  [("prox/projection step and line search", S+"proximal_gradient.py"), ("mirror maps", S+"mirror_descent.py"), ("Cauchy point and subspace minimization", S+"lbfgsb.py"), ("coordinate updates", S+"cd_qp.py")],
  ["params, state.error and intermediate params of update"])
p("C07", "QP solvers return KKT points and truthful status",
  "For every feasible bounded convex QP, each QP solver (OSQP, BoxOSQP, EqualityConstrainedQP, CvxpyQP, BoxCDQP) whose input format can express it returns primal and dual variables satisfying the KKT conditions (with the documented dual signs) to its tolerance, whether the problem is given by matrices, matvecs, a quadratic function or pytrees, and reports it as solved; the solvers agree on the solution. A solver reports primal (dual) infeasibility only for problems that are primal infeasible (unbounded), and does report it for such problems when the check is enabled.",
  ["inputs", "configurations"], "all convex QPs incl. equality only, inequality only, both, one-sided/infinite/equal bounds, zero linear term or zero solution, warm starts at the solution, infeasible and unbounded problems; all solver options",
  "Tests solve a few random QPs from cold start with default options; warm starts, zero solutions, degenerate constraints and status truthfulness are not explored.",
  [S+"osqp.py", S+"eq_qp.py", S+"cvxpy_wrapper.py", S+"cd_qp.py"],
  [("ADMM iteration, residuals and infeasibility certificates", S+"osqp.py"), ("KKT linear solve with refinement", S+"eq_qp.py"), ("cvxpy translation", S+"cvxpy_wrapper.py")],
  ["KKTSolution and state.status/error"])
p("C08", "Implicit differentiation returns the true derivative of the solution",
  "Differentiating a solver's run (implicit_diff on), or a function wrapped in custom_root/custom_fixed_point, or calling root_jvp/root_vjp, gives the derivative of the true solution map with respect to every differentiable positional or keyword argument, in any pytree structure, for any linear solver option, with zero derivative for the initial guess and aux outputs. Forward and reverse mode agree, and implicit and unrolled derivatives agree at convergence.",
  ["inputs", "configurations"], "all well conditioned problems, all argument layouts (positional, keyword, nested, integer/non-differentiable), all solvers with implicit differentiation, all linear solvers",
  "Tests check the Jacobian of one ridge/SVM-type problem per solver with a single argument layout.",
  [S+"implicit_diff.py", S+"base.py", S+"linear_solve.py"],
  [("root_vjp/root_jvp and the custom_vjp wrappers", S+"implicit_diff.py"), ("optimality functions of the solvers", S+"base.py")],
  ["jax.grad/jacobian through run; root_vjp, root_jvp"])
p("C09", "Results do not depend on jit, unroll, vmap or the loop implementation",
  "For every iterative solver and for the loop/cond helpers, running with or without jit, with unrolled or rolled loops, or with verbose output gives the same parameters, error and iteration count up to rounding; running under vmap gives for every batch element what running it alone gives, even when elements need different numbers of iterations.",
  ["inputs", "configurations"], "all solvers, all problems, all batch compositions (elements converging at different iterations, already converged elements), all jit/unroll settings, all maxiter",
  "Tests compare modes for a few solvers on a single problem; heterogeneous batches and non-default combinations are not covered.",
  [S+"loop.py", S+"base.py", S+"cond.py"],
  [("while_loop implementations (scan, python, jitted)", S+"loop.py"), ("IterativeSolver._run", S+"base.py")],
  ["params/state of run under each mode"])
p("C10", "run equals init_state plus repeated update, and stops as documented",
  "For every iterative solver, run returns exactly what a manual loop of update from init_state returns, performs at least zero and at most maxiter iterations, stops at the first state whose error is at most tol, numbers iterations consecutively, never mutates its inputs, and gives the same answer when interrupted after any number of updates and resumed from the returned (params, state).",
  ["histories", "inputs", "configurations"], "all solvers, all maxiter including 0 and 1, all tolerances, all interruption points",
  "Tests check run-versus-update for a few solvers with one maxiter; interruption points, maxiter 0 and stop timing are not enumerated.",
  [S+"base.py", S+"loop.py", S+"gradient_descent.py", S+"proximal_gradient.py", S+"lbfgs.py", S+"osqp.py"],
  [("init_state/update/run protocol", S+"base.py")],
  ["OptStep returned by init_state/update/run"],
  [("iter_num, error", "progress and stopping measure", S+"base.py")])
p("C11", "Line searches accept only steps satisfying their condition",
  "Whenever a line search (backtracking with any condition, zoom, Hager-Zhang) finishes without reporting failure, the returned step is positive, within the maximum step allowed, and satisfies the documented sufficient-decrease and curvature conditions on the true function (the zoom line search, when stopped by the maximum step, only the decrease condition). The returned state is consistent: its params equal the start plus the step times the direction, and its value and gradient are those at these params; failure is reported only when no acceptable step was produced.",
  ["inputs", "configurations"], "all smooth one-dimensional profiles along descent directions (quadratic, quartic, logistic, nonconvex, exponentials), all initial steps, caps, constants and iteration budgets, pytrees",
  "Tests run a few functions from a few points; nonconvex profiles, caps, tiny budgets and large initial steps are sparsely sampled.",
  [S+"backtracking_linesearch.py", S+"zoom_linesearch.py", S+"hager_zhang_linesearch.py", S+"linesearch_util.py"],
  [("condition tests and bracketing", S+"zoom_linesearch.py"), ("backtracking conditions", S+"backtracking_linesearch.py"), ("secant/bisect bracketing", S+"hager_zhang_linesearch.py")],
  ["(stepsize, state) of run"])
p("C12", "Equivalent ways of passing a function give equivalent results",
  "Passing the objective plainly, with value_and_grad, with has_aux, or with arguments given positionally or by keyword leads to the same iterates, and the aux reported in the state is the aux of the user's function, at the returned params for the quasi-Newton methods and at an iterate of the last step for the others. Evaluation counters never under- or over-state: num_fun_eval, num_grad_eval and num_linesearch_iter equal the number of calls the configuration really makes (for a function given with its gradient, gradients counted never exceed the evaluations made) and never decrease.",
  ["inputs", "configurations"], "all solvers with these options, all aux structures (arrays, dicts, None-like), all argument layouts",
  "Tests check one aux structure on one problem for some of the solvers; counters are compared for two solvers on one problem.",
  [S+"base.py", S+"gradient_descent.py", S+"proximal_gradient.py", S+"bfgs.py", S+"lbfgs.py", S+"lbfgsb.py", S+"nonlinear_cg.py", S+"mirror_descent.py", S+"armijo_sgd.py", S+"polyak_sgd.py", S+"optax_wrapper.py", S+"zoom_linesearch.py"],
  [("function normalisation", S+"base.py"), ("counter updates", S+"linesearch_util.py")],
  ["params, state.aux, state.num_*"])
p("C13", "Linear solvers solve the system they are given",
  "Every linear solver (lu, cholesky, inv, cg, normal_cg, bicgstab, gmres and iterative refinement) returns the solution of A x = b, or (A + ridge*I) x = b / the ridge-regularized normal equations where documented, for every well-conditioned operator of the documented class, every right-hand side (scalar, vector, matrix or pytree as supported), every initial guess, any system size, and is differentiable with the correct derivative.",
  ["inputs", "configurations"], "all well conditioned (SPD / general / rectangular for normal equations) operators, shapes and pytrees, all ridge values and initial guesses",
  "Tests solve a few random systems; ridge, initial guess, multi-dimensional right-hand sides and pytrees are each tried once.",
  [S+"linear_solve.py", S+"iterative_refinement.py", S+"linear_operator.py"],
  [("matvec materialization and ridge handling", S+"linear_solve.py"), ("iterative refinement loop", S+"iterative_refinement.py")],
  ["return value and derivative of solve_*"])
p("C14", "Root finders and fixed-point solvers return roots and report truthfully",
  "Bisection, Broyden, FixedPointIteration, AndersonAcceleration, AndersonWrapper and ScipyRootFinding return a point whose residual is within tolerance for every problem in their documented class (bracketed continuous function, well-conditioned smooth system, contractive map), the reported error is the documented residual, and Bisection keeps its root inside the bracket and rejects invalid brackets when asked to.",
  ["inputs", "configurations"], "all increasing and decreasing bracketed functions (root anywhere, including at bracket ends), all contractive maps and pytrees, all history, mixing and line-search options",
  "Tests use one function per solver; roots at the boundary, decreasing functions, degenerate histories and options are not enumerated.",
  [S+"bisection.py", S+"broyden.py", S+"fixed_point_iteration.py", S+"anderson.py", S+"anderson_wrapper.py", S+"scipy_wrappers.py"],
  [("bracket update", S+"bisection.py"), ("Anderson extrapolation", S+"anderson.py"), ("low-rank inverse Jacobian", S+"broyden.py")],
  ["params and state of run"])
p("C15", "Nonlinear least squares solvers descend and find the minimizer",
  "GaussNewton and LevenbergMarquardt solve linear and mildly nonlinear least-squares problems to tolerance with every linear solver, materialization, damping and geodesic option, agreeing with a reference minimizer. Levenberg-Marquardt never increases the objective from one iterate to the next, its reported value, residual, gradient and error are those of the returned params, and its damping stays positive.",
  ["inputs", "configurations", "histories"], "all well-posed residual functions and starting points, all option combinations, every iterate of the history",
  "Tests run a few textbook functions from fixed starts; per-iteration monotonicity and the option product are unchecked.",
  [S+"gauss_newton.py", S+"levenberg_marquardt.py"],
  [("damping update and step acceptance", S+"levenberg_marquardt.py")],
  ["params and state after each update"])
p("C16", "Stochastic solvers follow their documented update rules on any data stream",
  "PolyakSGD, ArmijoSGD and OptaxSolver perform at every step exactly the documented update (Polyak step with its cap, Armijo step satisfying the decrease condition within its cap, the optax transformation), with momentum, pre_update hooks and aux handled as documented, for any sequence of batches. run_iterator equals the manual loop over the iterator, consumes no more batches than needed and stops at maxiter or exhaustion.",
  ["histories", "inputs", "configurations"], "all batch sequences, iterator lengths relative to maxiter, step caps, momentum values, pre_update functions and optax transformations",
  "Tests train on one dataset and look at the final loss; per-step formulas and iterator-length edge cases are not checked.",
  [S+"polyak_sgd.py", S+"armijo_sgd.py", S+"optax_wrapper.py", S+"base.py"],
  [("update rules", S+"armijo_sgd.py"), ("run_iterator", S+"base.py")],
  ["OptStep after each update; run_iterator result"])
p("C17", "Pytree structure is irrelevant to the result and is preserved",
  "Every tree utility satisfies the vector-space algebra of the flattened vector, and every solver or operator documented to support pytrees (not the least-squares residual trees nor the projections documented for arrays only) gives on a problem expressed over any pytree the same result as on the flattened vector problem. Outputs have the structure, shapes and dtypes of the inputs.",
  ["inputs", "programs"], "all nested pytrees (dicts, tuples, lists, scalars, matrices, single leaves), float32 and float64 leaves",
  "Tests use one or two fixed pytrees for some of the solvers.",
  [S+"tree_util.py", S+"base.py", S+"lbfgs.py", S+"bfgs.py", S+"anderson.py", S+"broyden.py", S+"projection.py", S+"prox.py"],
  [("tree arithmetic", S+"tree_util.py")],
  ["return values of tree_util functions and of run"])
p("C18", "Perturbed functions are the Monte-Carlo estimators they claim to be",
  "Perturbed argmax, max, scalar and general functions of arrays return exactly the average of the wrapped function over the documented noise samples for the given key, and their derivatives equal the documented score-function or Monte-Carlo Jacobian estimators for the same noise, with and without control variate, for every noise distribution and output shape. They are deterministic functions of the key and change with it, and the noise distributions' score functions match their densities.",
  ["inputs", "configurations"], "all inputs and shapes/pytrees, all keys, sample counts, sigmas, Gumbel and Normal noise, control variate on/off",
  "Tests check statistical closeness at loose tolerances for a few argmax functions; the exact estimator identity for a given key is not checked.",
  [S+"perturbations.py"],
  [("custom_jvp of the perturbed functions", S+"perturbations.py")],
  ["return values, jvp and vjp of the perturbed functions"])
p("C19", "Isotonic regression is the exact monotone least-squares fit",
  "isotonic_l2_pav returns the unique (increasing or decreasing, as requested) monotone sequence within the requested bounds that is closest to the input in the least-squares sense; the result is monotone, without bounds preserves the total of each pooled block, equals the input when it is already monotone and feasible, and does not depend on being jitted or batched.",
  ["inputs"], "all vectors, ties, constant runs, already sorted and reversed sequences, extreme magnitudes",
  "Tests compare with sklearn on a few Gaussian vectors; ties and long pools are not sampled.",
  [S+"isotonic.py", S+"projection.py"],
  [("PAV block merging", S+"isotonic.py")],
  ["return value of the isotonic functions"])
p("C20", "Transport and Birkhoff projections satisfy marginals and optimality",
  "projection_transport, projection_birkhoff, kl_projection_transport and kl_projection_birkhoff return nonnegative matrices whose marginals are the requested ones up to the tolerance of their inner solver and that are closest to the input in Euclidean, respectively Kullback-Leibler, sense among such matrices, for the semi-dual and dual formulations alike, with the correct derivatives with respect to the input and the marginals.",
  ["inputs", "configurations"], "all cost/similarity matrices and marginals (square and rectangular, uniform and skewed), both formulations",
  "Tests project one or two random matrices per function.",
  [S+"projection.py"],
  [("smoothed (semi-)dual maximization", S+"projection.py")],
  ["return value of the projections"])
p("C21", "SciPy and CVXPY wrappers are faithful",
  "ScipyMinimize, ScipyBoundedMinimize, ScipyLeastSquares, ScipyBoundedLeastSquares and ScipyRootFinding return what SciPy returns on the equivalent flat float64 problem, mapped back to the structure and dtype of the initial parameters, pass through tolerances, bounds, options, losses and status, respect the bounds, handle aux and arguments, leave user-supplied options untouched, and are differentiable with the true derivative of the solution.",
  ["inputs", "configurations"], "all methods and losses, pytrees and dtypes, bounds layouts, options and has_aux settings",
  "Tests run a couple of methods on one dataset; losses, aux and repeated use are not covered.",
  [S+"scipy_wrappers.py"],
  [("flattening and dtype conversion", S+"scipy_wrappers.py"), ("optimality functions", S+"scipy_wrappers.py")],
  ["OptStep and derivative of run"])
p("C22", "Quasi-Newton memories represent the documented approximation",
  "The direction L-BFGS computes from its memory equals minus the gradient times the BFGS inverse-Hessian approximation built from the most recent (at most history_size) accepted pairs and the documented initial scaling, whatever the number of iterations relative to the history size; with full memory it reproduces BFGS. The pairs stored correspond to actual successive parameter and gradient differences, and BFGS and Broyden approximations satisfy the secant equation for the latest accepted pair.",
  ["histories", "inputs", "configurations"], "all histories shorter than, equal to and longer than the memory, all objectives including ones with negative curvature pairs, all line searches and scalings",
  "Tests compare a single product with a dense formula and only final solutions otherwise; buffer wrap-around and skipped pairs are not explored.",
  [S+"lbfgs.py", S+"bfgs.py", S+"lbfgsb.py", S+"broyden.py"],
  [("two-loop recursion and circular history", S+"lbfgs.py"), ("dense inverse update", S+"bfgs.py")],
  ["iterates, state.stepsize, state histories after each update"])
p("C23", "Complex problems behave as the equivalent real problem",
  "For real-valued functions of complex parameters, the solvers and line searches documented to accept complex parameters (LBFGS, NonlinearCG, backtracking, zoom and Hager-Zhang line searches) make the same progress as on the equivalent problem in real and imaginary parts, and return its minimizer; tree utilities treat inner products and norms of complex vectors as those of the underlying real vector space.",
  ["inputs", "configurations"], "all complex quadratics and smooth functions, all starting points, all supporting solvers and line searches",
  "Tests run one complex problem for a few solvers.",
  [S+"tree_util.py", S+"lbfgs.py", S+"nonlinear_cg.py", S+"zoom_linesearch.py", S+"backtracking_linesearch.py", S+"hager_zhang_linesearch.py"],
  [("conjugation in inner products and gradients", S+"tree_util.py")],
  ["params and state of run"])
p("C24", "Optimality functions and l2 errors vanish exactly at solutions",
  "optimality_fun and l2_optimality_error of every solver that offers them are zero (to rounding) at the true solution of the problem they were given - for proximal, projected and dual methods the fixed-point, KKT or root residual of that problem, with the arguments passed the way run takes them - and clearly nonzero away from it. They do not depend on solver options that do not change the solution (stepsize, acceleration, line search).",
  ["inputs", "configurations"], "all problems of C05-C07 and C14-C15, all solutions incl. active constraints and zero multipliers, all perturbations of them, all pytrees",
  "Implicit differentiation and user-side certification rely on this map at every point; tests call l2_optimality_error only on solutions that the same solver produced.",
  [S+"base.py", S+"proximal_gradient.py", S+"projected_gradient.py", S+"block_cd.py", S+"cd_qp.py", S+"mirror_descent.py", S+"osqp.py", S+"eq_qp.py", S+"scipy_wrappers.py"],
  [("l2_optimality_error", S+"base.py"), ("make_kkt_optimality_fun", S+"implicit_diff.py"), ("fixed point residuals", S+"proximal_gradient.py")],
  ["return value of solver.optimality_fun and solver.l2_optimality_error"])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
  for d in P:
    f.write(json.dumps(d) + "\n")
    assert len(d["title"]) <= 80, d["title"]
