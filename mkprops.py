"""Generates properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "L1 and group-lasso proximal operators return the exact minimiser",
  "For every vector x, step size g >= 0 and weight alpha >= 0, the prox of the L1 penalty and of the group-L1 penalty returns the unique minimiser over u of penalty(u) + ||u - x||^2 / (2 g), where penalty is the value the same object reports when called. Coordinates outside every group are left alone, and the argument is not modified.",
  ["inputs", "configurations"], "every real vector, step, weight, and every partition of the coordinates into increasing contiguous groups (with gaps before, between and after)",
  "The tests sample 10 Gaussian vectors with alpha = step = 1 and a single full partition; ties, zeros, gaps, alpha != 1 and step != 1 are never reached.",
  ["copt/penalty.py"], [("soft threshold", "L1Norm.prox"), ("block soft threshold", "GroupL1.prox"), ("penalty value", "L1Norm.__call__, GroupL1.__call__")], ["return value of prox and __call__"])

p("P02", "1-D total-variation prox is the exact minimiser",
  "For every signal w and step g >= 0 the 1-D total-variation prox (also reached through the fused-lasso penalty, and applied column by column or row by row to a matrix) returns the unique minimiser of alpha*TV(u) + ||u - w||^2/(2 g), where alpha*TV is the value the penalty object reports. It preserves the sum of the signal and never modifies its argument.",
  ["inputs"], "every real signal (ties, plateaus, monotone and zig-zag), every step and weight, every matrix shape within the bound",
  "Tests draw 1000 Gaussian signals of length 10 and check one inequality; the string-pulling state machine has data-dependent nested loops whose branch combinations random data rarely reaches.",
  ["copt/tv_prox.py", "copt/penalty.py"], [("taut string sweep", "tv_prox._prox_tv1d"), ("row/column drivers", "tv_prox.prox_tv1d_rows, prox_tv1d_cols"), ("fused lasso", "penalty.FusedLasso")], ["return value of prox_tv1d, prox_tv1d_cols, prox_tv1d_rows, FusedLasso.prox, FusedLasso.__call__"])

p("P03", "2-D total variation: value, linear operator and prox agree",
  "For every image, the 2-D TV penalty value is alpha times the sum of absolute vertical and horizontal neighbour differences and equals alpha*||L x||_1 for the linear operator the library builds for that shape. Whenever the 2-D TV prox stops without the non-convergence warning, its result is the minimiser up to the requested tolerance; when the iteration budget runs out first it warns. The argument is not modified.",
  ["inputs", "configurations"], "every real image of every shape within the bound (non-square included), every step, weight, tolerance and iteration budget",
  "Tests use one 20x10 operator with one vector and 20 Gaussian 6x8 images at one step; convergence reporting and small or degenerate shapes are not tested.",
  ["copt/tv_prox.py", "copt/penalty.py"], [("alternating proximal Dykstra sweep", "tv_prox.c_prox_tv2d"), ("difference operator", "tv_prox.tv2d_linear_operator"), ("penalty", "penalty.TotalVariation2D")], ["return value, issued warning"])

p("P04", "Trace-norm penalty and trace-ball act exactly on singular values",
  "Given any exact singular value decomposition of the matrix, the trace-norm prox returns the minimiser of alpha*||U||_* + ||U - X||^2/(2 g), the trace-ball prox returns the nearest matrix of nuclear norm at most alpha, and the trace-ball linear oracle returns s - x with s in the ball maximising <u, s>. Penalty value and ball membership are computed from the sum of singular values, and results keep the raveled layout of the input.",
  ["inputs", "configurations"], "every matrix (every SVD satisfying the documented contract), every shape within the bound including non-square and rank-deficient, every weight/radius and step",
  "Tests use ten 4x4 Gaussian matrices with alpha = step = 1; rank deficiency, non-square shapes, interior points and other radii are not covered.",
  ["copt/penalty.py", "copt/constraint.py"], [("singular-value soft threshold", "penalty.TraceNorm.prox"), ("singular-value projection", "constraint.TraceBall.prox"), ("leading singular pair", "constraint.TraceBall.lmo")], ["return values of prox, lmo, __call__"])

p("P05", "Constraint-set prox is the exact Euclidean projection",
  "For every point x, the prox of the L-infinity, L2 and L1 balls and of the simplex returns the point of the set nearest to x; points already in the set are returned unchanged, the result lies in the set, and the argument is not modified. Where the object can be called, it returns 0 on members and infinity elsewhere.",
  ["inputs", "configurations"], "every real vector (ties, zeros, boundary and interior points), every positive radius",
  "No test calls the L-infinity, L2 or simplex projections; the L1 projection is only used as an oracle inside solver tests.",
  ["copt/constraint.py"], [("clip", "LinfBall.prox"), ("radial scaling", "L2Ball.prox"), ("sort-and-threshold", "euclidean_proj_simplex, euclidean_proj_l1ball"), ("indicator", "L1Ball.__call__")], ["return values"])

p("P06", "Linear minimisation oracles return optimal feasible vertices",
  "For every direction u and feasible x, the oracle of the L1 ball and of the simplex returns d = s - x where s lies in the set and maximises <u, s> over it, a representation identifying that s, and an admissible maximum step; the pairwise oracle returns d = s - v where v is a vertex of the active set minimising <u, v>, with maximum step equal to the weight of v. Moving by any step up to the maximum stays in the set, and u, x and the active set are not modified.",
  ["inputs", "histories"], "every direction (ties, zeros, all-negative), every feasible point, every active set with positive weights",
  "Tests only run whole solvers to a loose gradient-mapping tolerance on one random data set; the simplex oracle has no test at all.",
  ["copt/constraint.py"], [("largest coordinate", "L1Ball.lmo, SimplexConstraint.lmo"), ("away vertex selection", "L1Ball.lmo_pairwise")], ["returned tuple"])

p("P07", "Frank-Wolfe never leaves the constraint set",
  "Started from a feasible point, every iterate of the (vanilla or pairwise) Frank-Wolfe solver that a callback can see, and the returned point, lies in the constraint set for every step-size strategy, whatever finite values the objective and gradient take; step sizes are in [0, max_step].  A pairwise step larger than the away vertex allows is refused with an error rather than taken silently.",
  ["inputs", "histories", "configurations"], "every sequence of objective/gradient answers over the bounded number of iterations, every feasible start, all step strategies, all L1/simplex radii",
  "Tests check only finiteness and a loose stationarity bound at the final iterate on one random least-squares/logistic problem.",
  ["copt/frank_wolfe.py", "copt/constraint.py"], [("convex-combination update", "minimize_frank_wolfe"), ("line search clip", "backtracking_step_size"), ("active set bookkeeping", "update_active_set")], ["callback arguments, returned x"])

p("P08", "Pairwise Frank-Wolfe active set is an exact convex decomposition",
  "In the pairwise variant, after every iteration the active set holds exactly vertices with strictly positive weights that sum to one, and the weighted sum of those vertices equals the current iterate; a vertex whose weight reaches zero is removed. This holds for deterministic and stochastic Frank-Wolfe.",
  ["histories", "inputs"], "every active set and weights as pre-state, every gradient, every admissible step including the drop step, over a bounded number of iterations",
  "Tests never inspect the active set.",
  ["copt/frank_wolfe.py", "copt/randomized.py", "copt/constraint.py"], [("weight transfer and drop", "frank_wolfe.update_active_set"), ("away vertex", "constraint.L1Ball.lmo_pairwise")], ["result.active_set; callback locals"],
  [("active_set", "vertex representation -> weight", "minimize_frank_wolfe, minimize_sfw")])

p("P09", "Frank-Wolfe step-size rules guarantee decrease and honest certificates",
  "A backtracking step accepted without warning satisfies the documented sufficient-decrease inequality for the Lipschitz estimate it returns, and that estimate stays positive; the Demyanov-Rubinov step minimises the quadratic upper bound on [0, max_step] so the objective never increases when the supplied constant is valid; the oblivious step is 2/(t+2). When the solver stops before its budget without the callback asking, the returned certificate is the Frank-Wolfe gap of the returned point and does not exceed tol, hence bounds the suboptimality of a convex objective.",
  ["inputs", "histories"], "every objective/gradient answer sequence, every Lipschitz estimate, direction and maximum step, bounded line-search trials",
  "Tests run to convergence on one data set; a wrong acceptance test or stale certificate still converges there.",
  ["copt/frank_wolfe.py"], [("line search", "backtracking_step_size"), ("gap certificate and stopping", "minimize_frank_wolfe")], ["step_size, lipschitz_t, certificate in the result or callback"])

p("P10", "Loss values match their formulas and gradients are their derivatives",
  "For all data A, b, regularisation alpha and point x, the logistic, squared and Huber losses return the value of their documented formula (mean loss plus alpha/2 ||x||^2), the returned gradient is the exact derivative of that value (with an intercept enabled on the logistic loss, also with respect to that unpenalised last coordinate), calling the object, return_gradient=False and f_grad agree, and dense and sparse A, whatever its storage, give the same result. The logistic loss stays finite and accurate at margins of any magnitude.",
  ["inputs", "configurations"], "every real data matrix, target vector (in [0,1] for logistic), alpha, delta and point, margins on both sides of every numerical cut-off",
  "Tests check finite differences at a few random points with alpha = 0 and small margins; branch cut-offs at -33, -18, 37 and the value formulas are never exercised.",
  ["copt/loss.py", "copt/utils.py"], [("stable log-sigmoid", "LogLoss.logsig"), ("stable sigmoid - b", "LogLoss.expit_b"), ("Huber split", "HuberLoss.f_grad"), ("squared loss", "SquareLoss.f_grad")], ["return values of f_grad and __call__"])

p("P11", "Curvature information and per-sample derivatives match the loss",
  "For the logistic loss, the Hessian-vector product callable equals the directional derivative of the returned gradient, regularisation included. For logistic and squared losses the per-sample derivative callable satisfies grad(x) = (1/n) sum_i deriv(a_i.x, b_i) a_i + alpha x, and the reported Lipschitz constants bound the curvature of the full loss and of every sample.",
  ["inputs", "configurations"], "every data matrix, target, alpha, point and direction; dense and sparse A",
  "Only one Hessian row at alpha = 0 is tested; per-sample derivatives and Lipschitz constants are only used inside solver runs.",
  ["copt/loss.py", "copt/utils.py"], [("Hessian product", "LogLoss.hessian_mv, hessian_trace"), ("sample derivative", "LogLoss.partial_deriv, SquareLoss.partial_deriv"), ("constants", "lipschitz, max_lipschitz, utils.get_max_lipschitz")], ["return values"])

p("P12", "Block-wise prox factories agree with the full proximal operators",
  "The in-place block prox handed to the stochastic solvers by the L1, group-L1 and fused-lasso penalties, applied to the blocks touched by a sample with per-block scaling d, changes exactly the coordinates of those blocks and gives them the value of the full proximal operator with step d*step; the accompanying block matrix partitions the coordinates. The two fused-lasso factories together cover every neighbouring pair exactly once.",
  ["inputs", "configurations"], "every vector, step, weight and positive block scaling, every partition into contiguous groups with or without gaps, every support pattern, odd and even dimension",
  "Tests check two block matrices by value and otherwise only run solvers where every block is touched.",
  ["copt/penalty.py"], [("block prox", "L1Norm.prox_factory, GroupL1.prox_factory, FusedLasso.prox_1_factory, prox_2_factory"), ("block matrices", "same")], ["mutated vector, returned block matrix"])

p("P13", "Proximal gradient: accepted steps decrease the composite objective",
  "In the plain proximal-gradient solver every iterate is the prox of a gradient step from the previous one; with the built-in line search, unless it warns, each step satisfies the quadratic upper-bound test and the composite objective never increases, and a callable step is used exactly as returned. The reported certificate is the norm of the iterate change over the reported step size, success is reported exactly when it is below tol, and nit never exceeds max_iter.",
  ["inputs", "histories"], "every sequence of objective/gradient answers, every prox satisfying its optimality inequality, over a bounded number of iterations and line-search trials",
  "Tests only look at the final iterate on one random data set.",
  ["copt/proximal_gradient.py", "copt/utils.py"], [("backtracking", "minimize_proximal_gradient"), ("initial step", "utils.init_lipschitz")], ["callback arguments, result fields"])

p("P14", "Accelerated proximal gradient follows FISTA and certifies stationarity",
  "The accelerated solver evaluates gradients at the extrapolated point y = x_k + ((t_k - 1)/t_{k+1}) (x_k - x_{k-1}) with t_{k+1} = (1 + sqrt(1 + 4 t_k^2))/2, t_1 = 1, accepts a backtracked step only when the quadratic upper-bound test at y holds, and never increases the step. When it reports success, the gradient mapping at the returned point, for the step in use, has norm equal to the certificate and below tol.",
  ["inputs", "histories"], "every sequence of objective/gradient answers and prox answers over a bounded number of iterations, callable and backtracking steps",
  "Tests only look at the final iterate of runs that converge anyway.",
  ["copt/proximal_gradient.py"], [("momentum", "minimize_proximal_gradient (accelerated)"), ("certificate", "same")], ["points at which fun and prox are called; result fields"])

p("P15", "Three-operator splitting: success certifies an optimal point",
  "When three-operator splitting reports success, there are subgradients of the two proximal terms, exhibited by its own last prox calls, whose sum with the gradient has norm equal to the reported certificate and below tol, at points at distance certificate times step; the residual of the optimality condition is therefore bounded by the certificate. With line search, an accepted step satisfies the quadratic upper-bound test as long as the backtracking budget lasts, and the step never grows unless a Lipschitz constant for the non-smooth term was given; with one, a search is followed by an increase of at most 2% (of 2% if the constant is 0), covered by the slack of the accepted test.",
  ["inputs", "histories"], "every sequence of gradient and prox answers over a bounded number of iterations and line-search trials",
  "Tests compare final iterates on one data set.",
  ["copt/splitting.py"], [("Davis-Yin step", "minimize_three_split"), ("line search", "same")], ["prox and objective calls; result fields"])

p("P16", "Primal-dual splitting: fixed points are solutions, steps are stable",
  "The primal-dual solver performs the primal-dual hybrid gradient update for the supplied linear operator (a matrix, or an operator that may return views of its argument) and its adjoint, so an iteration that moves neither variable has reached a point satisfying the optimality conditions of f + g + h(L .). A line-search step is accepted only when tau*sigma*||L dx||^2 + 2*sigma*(linearisation error) <= delta*||dx||^2, which keeps the iteration stable for any scaling of L, and the dual step grows per iteration by at most the factor (1 + sqrt(1 + theta))/2; without line search the given steps are used unchanged, and success means the reported change is below tol.",
  ["inputs", "histories", "configurations"], "every linear operator, gradient and prox answer over a bounded number of iterations and trials",
  "Tests use operators of norm at most 2 where an incorrect acceptance rule happens to converge.",
  ["copt/splitting.py"], [("line search", "minimize_primal_dual"), ("conjugate prox by Moreau", "minimize_primal_dual.prox_2_conj")], ["prox, operator and objective calls; result fields"])

p("P17", "SAGA and SVRG take exact variance-reduced proximal steps",
  "For every data matrix and sampling order, each inner step of SAGA and SVRG moves the features of the blocks touched by the sample by step*( (f'_i(x) - f'_i(reference point)) a_i + D (average reference gradient + alpha x) ), D being n over the number of samples touching the block, applies the block prox with that same scaling, and leaves all other features alone; the reference derivative is the one from the sample's last visit (SAGA) or the epoch start (SVRG). Consequently the step is an unbiased proximal step on (1/n) sum f_i + alpha/2 ||x||^2 + g, and success is reported exactly when the absolute changes of x over one epoch sum to less than tol.",
  ["inputs", "schedules", "histories"], "every data (sparse patterns, empty rows or columns), every sampling order, every derivative function, step and alpha over a bounded number of epochs",
  "Tests only check the final gradient mapping to 1e-3/1e-6 on one random matrix; a biased estimate with the same fixed point passes.",
  ["copt/randomized.py"], [("memory and average", "minimize_saga._saga_epoch"), ("snapshot", "minimize_svrg._svrg_epoch, full_grad"), ("extended support", "_support_matrix")], ["points passed to f_deriv and prox; callback; returned x"])

p("P18", "Variance-reduced three-operator splitting follows its update rule",
  "For every data matrix, block structure and sampling order, each VRTOS inner step performs the documented sparse variance-reduced three-operator update on the touched blocks and nothing else: per-term reflected steps, block prox with the block's scaling, dual update, weighted averaging into z, and gradient memory kept equal to the average of the per-sample gradients last visited. Consequently a state that an epoch leaves unchanged satisfies the optimality conditions of the objective with both penalties, and the returned certificate is the disagreement of the copies (||x1 - z|| + ||x2 - z||).",
  ["inputs", "schedules", "histories"], "every data, block structure, sampling order, derivative function, step and alpha over a bounded number of epochs",
  "Tests check only final gradient mappings on one random matrix.",
  ["copt/randomized.py"], [("epoch", "_factory_sparse_vrtos"), ("driver", "minimize_vrtos")], ["points passed to f_deriv and prox_1/prox_2; callback; returned x"])

p("P19", "Stochastic Frank-Wolfe estimators are consistent and iterates feasible",
  "For every variant, batch size and sampling order, the gradient estimate handed to the linear oracle is the one the variant defines from the per-sample derivatives visited so far (SAG: average of stored gradients; SAGA: unbiased correction of it; MHK: averaged momentum; LF: substitute gradient at averaged predictions), with a full batch giving the full gradient for SAG and SAGA. The sublinear rules are the documented ones (2/(t+2) for SAG and SAGA; 2/(t+8) with averaging (2/(t+8))^(2/3) for MHK; 2(2m+t)/((t+1)(4m+t)) with averaging 2m/(2m+t+1), m = n_samples/batch_size, for LF), the Demyanov-Rubinov rule gives a step in [0, max_step], a callable step rule is honoured, iterates stay feasible and finite, a pairwise step larger than the away vertex allows is refused with an error, and the run ends, with success, exactly when the absolute differences between two successive iterates sum to less than tol.",
  ["inputs", "schedules", "histories", "configurations"], "every data, derivative function, sampling order, batch size, variant, step rule over a bounded number of steps; step-size rules for every iteration number",
  "Tests run the variants without asserting anything about the result.",
  ["copt/randomized.py", "copt/utils.py"], [("dual variables and aggregate", "minimize_sfw"), ("step rules", "step_size_sfw, step_size_DR")], ["arguments of lmo and f_deriv, callback, returned x"])

p("P20", "Sparse kernels equal their dense definitions",
  "For every sparse matrix, row selection (repeats allowed) and vector, the row-subset products equal the corresponding dense products, the support matrix lists for each sample exactly the blocks it touches, once each, the safe addition of any mix of dense and sparse operands equals the dense sum without broadcasting a vector to a matrix, the kernels give the same products for integer as for floating-point data, and mini-batch sampling returns the requested number of batches each consisting of distinct valid indices.",
  ["inputs", "configurations"], "every CSR structure (empty rows, repeated columns), values, index selections and operand layouts within the bound",
  "Tests check two products on one random matrix and none of the other kernels.",
  ["copt/utils.py", "copt/randomized.py"], [("row-subset products", "utils.fast_csr_mv, fast_csr_vm"), ("addition", "utils.safe_sparse_add"), ("sampling", "utils.sample_batches"), ("support", "randomized._support_matrix")], ["return values"])

p("P21", "Solvers never modify their inputs and accept any numeric start",
  "No solver modifies the starting point, data matrix or target it is given, and a starting point with integer entries (or any array-like the solver documents) gives the same iterates as the same point in floating point.",
  ["inputs", "configurations"], "every solver, every starting point, every oracle answer over a bounded number of iterations",
  "No test passes an integer start to anything but Frank-Wolfe, and none compares the inputs before and after.",
  ["copt/frank_wolfe.py", "copt/proximal_gradient.py", "copt/splitting.py", "copt/randomized.py"], [("copy of x0", "every minimize_* entry")], ["caller-visible arrays after the call; returned x"])

p("P22", "Callback, iteration budget and trace protocol",
  "For the deterministic solvers a callback returning False ends the run at once: no further objective or prox evaluation happens and the returned point is the one the callback saw; any other return value changes nothing, and it is called at every iteration. All solvers honour max_iter (at least 1), and the trace callback records every freq-th call a value (or an independent copy of the point) with the step size and the seconds since the trace was made, in the order of the calls.",
  ["histories", "inputs", "configurations"], "every sequence of callback answers over a bounded number of iterations, every freq and max_iter within the bound",
  "One test makes the first callback return False and checks nit < 2.",
  ["copt/frank_wolfe.py", "copt/proximal_gradient.py", "copt/splitting.py", "copt/randomized.py", "copt/utils.py"], [("callback exit", "every minimize_*"), ("trace", "utils.Trace")], ["calls observed by user functions, result"])

p("P23", "The gradient the solvers use is the one the caller asked for",
  "With a callable jac, solvers use fun's value and jac's gradient at the same point with the extra args; with jac=True they use the pair fun returns; with jac=False or jac=\"2-point\" they use a forward finite difference of fun with increment eps.",
  ["inputs", "configurations"], "every function value and gradient, point, extra arguments and jac option",
  "Tests always pass a function returning value and gradient together.",
  ["copt/utils.py"], [("dispatch", "utils.build_func_grad")], ["values the solver uses"])

p("P24", "Data set loading returns the requested split and recovers from interruptions",
  "Loading a data set returns exactly the stored train split, test split or their concatenation with rows and targets aligned (and, for the svmlight sources, the documented 0/1 labels), rejects unknown subset names, downloads only when local files are missing and only the requested data set, re-downloads after a checksum mismatch, writes only below the data directory whatever the archive members are called, and a run after an interrupted one recovers.",
  ["inputs", "fault_sequences", "crash_points"], "every local file-presence state, archive member name, subset argument and interruption point",
  "No test touches data set loading (it needs the network).",
  ["copt/datasets.py"], [("presence test, download, extraction", "datasets._load_dataset"), ("checksum and conversion", "datasets.load_url, load_kdd10, load_kdd12, load_criteo"), ("sample image", "datasets.load_img1")], ["files written, returned arrays"])

p("P25", "Initial step-size search returns a usable estimate",
  "The initial Lipschitz search returns a positive power-of-ten multiple of 1e-3 for which a gradient step of its inverse does not increase the objective unless its budget of 100 trials is exhausted, and tries estimates in increasing order so that no smaller tried estimate qualifies; it does not modify the start.",
  ["inputs", "histories"], "every sequence of objective answers within the trial bound",
  "Never tested directly.",
  ["copt/utils.py"], [("search loop", "utils.init_lipschitz")], ["return value, points evaluated"])

p("P26", "The PyTorch bridge returns the loss and gradient at the given point",
  "The function made from a PyTorch loss evaluates it at the given flat vector, reshaped as asked, on the asked device and in the asked type, and returns its value together with its gradient flattened to one entry per coordinate; without the gradient it returns the same value; the vector it is given is not modified and gradients of earlier calls do not accumulate.",
  ["inputs", "configurations"], "every vector, shape and differentiable loss",
  "PyTorch is no test dependency and nothing tests the module.",
  ["copt/utils_pytorch.py"], [("bridge", "utils_pytorch.make_func_and_grad")], ["return values, arguments of the loss"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
