from tools.props import prop, na

TRUST = "Decided by abstract interpretation of the current source: every path of every public entry at the stated precision. Trusts the library model in /verif/sa/lib.py."

prop("P01", "Inputs are never modified",
     "No public function, method or constructor changes any object the caller passed to it: arrays, Series, DataFrames, lists and dictionaries (including view dictionaries, solver options, constraint data and weights) have the same content after the call as before, also when the call raises. "
     "After an object has been built, using it never changes the data it was built from.",
     ["inputs"], "every public entry point, every combination of argument types it accepts (raw arrays, DataFrames, lists, dicts), every path including the failing ones",
     "Tests compare a handful of inputs before and after a few calls; whether an array is a copy or a view of the caller's data depends on type, dtype and shape, which the tests do not vary.",
     ["pyvallocation/views.py", "pyvallocation/portfolioapi.py", "pyvallocation/moments.py", "pyvallocation/stress.py", "pyvallocation/ensembles.py", "pyvallocation/utils/weights.py", "pyvallocation/discrete_allocation.py"],
     [("defensive copies before in-place arithmetic", "pyvallocation/views.py:_entropy_pooling_dual, BlackLittermanProcessor.__init__"), ("copying of probabilities and labels", "pyvallocation/portfolioapi.py:AssetsDistribution.__post_init__"), ("scaled copies of solver options", "pyvallocation/ensembles.py:_temporary_solver_options")],
     "alias and effect analysis by abstract interpretation over memory regions", TRUST)

prop("P02", "Same inputs and seed give the same results",
     "Every operation that takes a seed or random state produces all of its random numbers from that seed (0 included), and an operation that takes none uses no process-wide random state unless the caller supplied the generator. "
     "No result depends on the clock, the process, hash order or any other ambient state.",
     ["inputs", "histories"], "every public entry point and every seed value, whatever ran earlier in the process",
     "A test that calls twice with one seed passes when a single draw out of several ignores the seed, when seed 0 is treated as missing, or when hash order happens to agree within one process.",
     ["pyvallocation/utils/projection.py", "pyvallocation/utils/functions.py", "pyvallocation/portfolioapi.py", "pyvallocation/moments.py", "pyvallocation/views.py", "pyvallocation/bayesian.py", "pyvallocation/probabilities.py"],
     [("seeded generator construction", "pyvallocation/utils/projection.py"), ("scenario sampling from moments", "pyvallocation/portfolioapi.py:PortfolioWrapper._scenario_inputs"), ("posterior draws", "pyvallocation/views.py:FlexibleViewsProcessor.__init__")],
     "dependence analysis of random generators and ambient sources by abstract interpretation", TRUST)

prop("P03", "No numerical answer is used unless its solver reported success",
     "Every weight vector, probability vector, multiplier or allocation that a public call returns and that comes from a numerical solver was reported as successfully solved by that solver. "
     "When the solver stops without success the call raises or uses another answer that was itself successful; it never returns the unfinished iterate.",
     ["inputs", "fault_sequences"], "every solver call in the package, every termination status, every retry and fallback path",
     "Solvers fail only on badly conditioned or infeasible inputs; the tests exercise successful solves, so an unchecked status or a fallback that returns the first failed iterate stays invisible.",
     ["pyvallocation/optimization.py", "pyvallocation/views.py", "pyvallocation/discrete_allocation.py", "pyvallocation/ensembles.py", "pyvallocation/portfolioapi.py"],
     [("status check", "pyvallocation/optimization.py:_BaseOptimization._assert_optimal"), ("dual success check", "pyvallocation/views.py:entropy_pooling"), ("milp success check", "pyvallocation/discrete_allocation.py"), ("stacking solve", "pyvallocation/ensembles.py:exposure_stacking")],
     "typestate analysis of solver results by abstract interpretation", TRUST)

prop("P04", "Every stated constraint reaches every optimisation, in the right direction",
     "Whatever limits the user states (per-asset bounds as pair, mapping or sequence, relative bounds, group limits, additional inequalities and equalities, total weight, long-only, return target) apply to every portfolio every optimiser produces, for mean-variance, maximum Sharpe, CVaR, robust and relaxed risk parity problems, "
     "whichever route they were stated by. Lower limits act as lower limits and upper limits as upper limits; limits given to a call replace the wrapper's own limits; without any limits portfolios are long-only and fully invested.",
     ["inputs", "configurations"], "every optimisation method, every constructor and per-call override route, every constraint form and all values of the limits",
     "Tests check a few limits on a few optimisers; the product of constraint forms, routes, optimisers, cost settings and fall-back paths is far larger, and a limit that is not binding on the test data can be dropped unnoticed.",
     ["pyvallocation/utils/constraints.py", "pyvallocation/optimization.py", "pyvallocation/portfolioapi.py", "pyvallocation/ensembles.py"],
     [("constraint builder", "pyvallocation/utils/constraints.py:build_G_h_A_b"), ("per-call override", "pyvallocation/portfolioapi.py:PortfolioWrapper._resolve_constraints"), ("solver problems", "pyvallocation/optimization.py"), ("homogenised Sharpe problem", "pyvallocation/optimization.py:MeanVariance.max_sharpe")],
     "dependence and monotone-direction analysis from symbolic client constraints to solver arguments, by abstract interpretation", TRUST)

prop("P05", "Calls leave no lasting process-wide side effects",
     "A public call never leaves process-wide state changed: solver option tables, warning filters, NumPy error state, random state, pandas and plotting settings, logging set-up and the package's own module-level data are after the call, whether it returned or raised, what they were before. "
     "Temporary changes are undone exactly, including the removal of settings that were absent before.",
     ["inputs", "fault_sequences", "histories"], "every public entry point, every exit (return or exception raised by any library call or user callback inside it)",
     "Tests look at results, not at what a call leaves behind; the exits taken when a solver or callback raises half-way are not exercised.",
     ["pyvallocation/ensembles.py", "pyvallocation/optimization.py", "pyvallocation/plotting.py", "pyvallocation/views.py", "pyvallocation/moments.py"],
     [("solver options restored", "pyvallocation/ensembles.py:_temporary_solver_options"), ("scoped warnings", "pyvallocation/views.py")],
     "effect analysis with a snapshot/restore model of library-global state on all normal and exceptional exits", TRUST)

prop("P17", "Using an object or a returned callable never changes it",
     "Querying, selecting from, optimising with or plotting an existing object leaves that object unchanged, so the same call gives the same answer however often and in whatever order calls are made (the one exception is the documented single conjugate update of a Bayesian posterior). "
     "Selectors, factories and transforms that the package hands out keep no memory between invocations, and no result object is shared between callers.",
     ["histories"], "every public method and every callable returned or stored by a public call, in any sequence of uses",
     "Tests build a fresh object per case and call it once; state carried from one call into the next shows only in call sequences they do not run.",
     ["pyvallocation/ensembles.py", "pyvallocation/portfolioapi.py", "pyvallocation/optimization.py", "pyvallocation/views.py", "pyvallocation/bayesian.py", "pyvallocation/stress.py"],
     [("selector construction", "pyvallocation/ensembles.py:_build_selector"), ("frontier queries", "pyvallocation/portfolioapi.py:PortfolioFrontier"), ("optimiser methods", "pyvallocation/optimization.py")],
     "effect analysis of object state; returned closures are interpreted once more against their captured state", TRUST)

prop("P12", "Every argument takes effect on the result it is documented to control",
     "Every input a public function documents changes what it documents: each seed, confidence level, tail level, strength, delta, tau, horizon, cost, initial weight, probability vector, option or label reaches the result (and every component of it) that it controls, on every route that offers it, whatever its other arguments are.",
     ["inputs", "configurations"], "every public function, method and constructor, every documented argument, every return component",
     "Tests fix almost every argument at its default; an argument dropped on one of several routes, or replaced by another with the same default, gives the same value on the tested inputs.",
     ["pyvallocation/portfolioapi.py", "pyvallocation/optimization.py", "pyvallocation/moments.py", "pyvallocation/views.py", "pyvallocation/stress.py", "pyvallocation/ensembles.py", "pyvallocation/utils/functions.py", "pyvallocation/utils/performance.py", "pyvallocation/utils/projection.py", "pyvallocation/discrete_allocation.py", "pyvallocation/probabilities.py", "pyvallocation/bayesian.py"],
     [("risk measures", "pyvallocation/utils/functions.py"), ("wrapper routes", "pyvallocation/portfolioapi.py:PortfolioWrapper"), ("stress reports", "pyvallocation/stress.py"), ("ensembles", "pyvallocation/ensembles.py:make_portfolio_spec")],
     "information-flow analysis (data and control dependence) by abstract interpretation, compared with a reviewed dependence specification", TRUST + " The specification /verif/specs/args.json was generated once from the reviewed tree.")

prop("P06", "Labels are matched, never positions",
     "Wherever two inputs both carry asset, portfolio or scenario labels, values are combined by label: passing the same labelled data in another order gives the same result, and orders that cannot be matched are rejected. "
     "Results computed from labelled inputs carry the labels of the values they hold.",
     ["inputs"], "every public function and method that takes labelled inputs, every pair of labelled arguments, any order of the labels",
     "Tests build every input from one list of names, so all orders agree; pairing by position is right for those inputs and silently wrong for any others.",
     ["pyvallocation/portfolioapi.py", "pyvallocation/stress.py", "pyvallocation/views.py", "pyvallocation/bayesian.py", "pyvallocation/ensembles.py", "pyvallocation/moments.py", "pyvallocation/discrete_allocation.py", "pyvallocation/utils/performance.py", "pyvallocation/utils/functions.py", "pyvallocation/utils/weights.py", "pyvallocation/utils/projection.py"],
     [("label alignment of weights", "pyvallocation/stress.py:_align_weights"), ("label consistency of distributions", "pyvallocation/portfolioapi.py:AssetsDistribution.__post_init__"), ("prior alignment", "pyvallocation/views.py:BlackLittermanProcessor"), ("sample weights", "pyvallocation/utils/weights.py:normalize_weights"), ("discrete inputs", "pyvallocation/discrete_allocation.py:DiscreteAllocationInput.__post_init__")],
     "label-order (axis provenance) analysis by abstract interpretation of client programs with symbolic label orders", TRUST + " Inputs without labels follow the documented positional order.")

prop("P13", "Estimates, risk numbers and allocations do not depend on the units of the input",
     "Changing the unit of an input rescales results accordingly and changes nothing else: multiplying all returns by a constant multiplies estimated and shrunk means, VaR, CVaR and volatilities by it and covariances by its square and leaves probabilities and effective scenario counts unchanged; scaling positions scales their reported risk; projected means and covariances are proportional to the horizon; quoting money in another currency unit leaves share counts, achieved weights and tracking error unchanged. "
     "No estimator, shrinkage rule, report or allocation adds, compares or clips such a quantity at a fixed absolute level that matters (rounding tolerances aside).",
     ["inputs"], "all estimators, shrinkage rules, risk functions, performance and stress reports, projections, Bayesian updates, Black-Litterman posteriors and discrete allocation; every scale of returns, positions, horizon and money",
     "Tests use returns of one typical size and budgets of one typical amount; an absolute floor, threshold or tolerance has no effect at that size and distorts results at another.",
     ["pyvallocation/moments.py", "pyvallocation/utils/functions.py", "pyvallocation/utils/performance.py", "pyvallocation/utils/projection.py", "pyvallocation/stress.py", "pyvallocation/views.py", "pyvallocation/bayesian.py", "pyvallocation/discrete_allocation.py"],
     [("estimators and shrinkage", "pyvallocation/moments.py"), ("risk functions", "pyvallocation/utils/functions.py"), ("horizon scaling", "pyvallocation/utils/projection.py:project_mean_covariance"), ("posterior moments", "pyvallocation/bayesian.py:NIWPosterior"), ("allocation summary", "pyvallocation/discrete_allocation.py:_build_result")],
     "dimensional analysis (scaling powers of symbolic units) by abstract interpretation of client programs", TRUST + " Powers the analysis cannot establish (solver outputs, repriced scenarios) are counted as undecided.")

prop("P08", "Probabilities and sample weights act only through their proportions",
     "Wherever the package accepts scenario probabilities, stressed probabilities, prior probabilities or ensemble weights that need not sum to one (reports, stress tests, distributions, frontiers, projections, horizon and drawdown reports, entropy pooling, flexible views, ensemble specifications, averaging), multiplying the whole vector by a positive constant changes no result and is not rejected. "
     "Probability vectors that the package builds (decay, kernel, posterior) are normalised before they are used or returned.",
     ["inputs"], "every route by which a probability or weight vector enters, as array or labelled Series, and any total of its values",
     "Tests pass vectors that already sum to one on most routes, so a route that forgets to normalise, or accepts a total that is slightly off, gives the same numbers.",
     ["pyvallocation/probabilities.py", "pyvallocation/portfolioapi.py", "pyvallocation/stress.py", "pyvallocation/utils/performance.py", "pyvallocation/utils/projection.py", "pyvallocation/utils/weights.py", "pyvallocation/ensembles.py", "pyvallocation/views.py"],
     [("normalisation", "pyvallocation/probabilities.py:normalize_probability_vector"), ("distribution probabilities", "pyvallocation/portfolioapi.py:AssetsDistribution.__post_init__"), ("sample weights", "pyvallocation/utils/weights.py:normalize_weights"), ("posterior normalisation", "pyvallocation/views.py:entropy_pooling"), ("specification probabilities", "pyvallocation/ensembles.py:_build_distribution")],
     "scale analysis (power of a symbolic total) by abstract interpretation of client programs", TRUST)

prop("P07", "A frontier query returns the one column its criterion asks for",
     "Every query of an efficient frontier (minimum risk, maximum return, tangency, return under a risk limit, risk under a return floor, closest risk, risk percentile, and the selectors of ensemble specifications) returns weights, return and risk of the same column; the column is the one that is best for that criterion, in the documented direction, "
     "among all columns that meet the caller's limit (inclusive), judged by the requested risk measure (primary or alternate). "
     "Every frontier the package builds keeps weights, returns, risks, alternate risks and metadata aligned column by column, whatever it sorts by.",
     ["inputs"], "every query and selector, every risk label, every order of the columns (sorted or not), every frontier builder",
     "Test frontiers are sorted, with risk and return rising together, so positions counted among feasible columns, the primary risk used for an alternate one, or an overlay left in solver order pick the same column.",
     ["pyvallocation/portfolioapi.py", "pyvallocation/ensembles.py"],
     [("queries", "pyvallocation/portfolioapi.py:PortfolioFrontier"), ("sorting of frontiers", "pyvallocation/portfolioapi.py:PortfolioWrapper.cvar_frontier, robust_lambda_frontier"), ("selectors", "pyvallocation/ensembles.py:_build_selector")],
     "order and monotonicity analysis of column positions by abstract interpretation of client programs", TRUST + " Columns chosen by constructs other than argmin/argmax/sorting/masks are undecided.")

prop("P09", "Optimisers solve the documented problem and report its numbers",
     "For every combination of constraints, costs, targets and parameters, each optimiser hands its solver exactly the documented problem: Markowitz variance (plus quadratic market impact around the initial weights), Rockafellar-Uryasev CVaR with the scenario probabilities and tail level (plus proportional costs), the homogenised maximum-Sharpe problem, the robust cone problem with penalty, cap and the Cholesky factor of the uncertainty matrix, and relaxed risk parity with its risk budgets, regulator and return target; "
     "trading costs charge purchases and sales through w = w0 + u+ - u-. The frontier end point solves the documented largest-return problem. The weights, expected return, risk and auxiliary values in the result are those of that solution.",
     ["inputs", "configurations"], "every optimiser x with and without inequalities, equalities, costs, return target, penalty, risk budgets; all sizes and all values of the data",
     "Tests check feasibility and rough shape of a few solutions; a wrong coefficient, offset, transpose or missing block in one combination still gives a feasible portfolio that looks plausible.",
     ["pyvallocation/optimization.py"],
     [("quadratic problem", "pyvallocation/optimization.py:MeanVariance"), ("linear problem", "pyvallocation/optimization.py:MeanCVaR"), ("cone problem", "pyvallocation/optimization.py:RobustOptimizer._solve_socp"), ("relaxed risk parity", "pyvallocation/optimization.py:RelaxedRiskParity.solve"), ("trading costs", "pyvallocation/optimization.py:_linear_turnover_blocks, _quadratic_turnover")],
     "symbolic block normal forms of the solver arguments compared with the documented problem, by abstract interpretation of client programs", TRUST + " That the solver's answer is optimal is outside; P03 covers its status.")

prop("P10", "Every stated view holds in the posterior problem, as stated",
     "Every view a user states enters the posterior calculation exactly once, about the assets it names, with its own target and in the direction written. Entropy pooling receives the documented constraint for each mean, relative, ranking, volatility, variance, skewness, correlation, quantile and CVaR view (equality, at least, at most or between), in sequential and simultaneous mode, next to any other views; "
     "it solves the documented dual of exactly that problem (matching left- and right-hand sides, non-negative multipliers for inequalities, gradient of the objective) and recovers the posterior from its solution. Posterior means and covariances are those of the scenarios under the posterior probabilities. "
     "The Black-Litterman posterior is the documented formula of the prior, tau, the view matrix (+1/-1 rows), the targets and Omega, with each confidence attached to its own view.",
     ["inputs", "configurations"], "every kind of view x every written form x mode x prior x combination; every Omega and prior route of Black-Litterman",
     "Tests state one or two views on one prior and check a posterior moment with a tolerance; a sign, an index, a linearisation point or a dropped view on another combination is not exercised, and an optimiser hides small errors in the constraint.",
     ["pyvallocation/views.py"],
     [("constraint rows", "pyvallocation/views.py:FlexibleViewsProcessor._build_constraints"), ("pooling", "pyvallocation/views.py:entropy_pooling"), ("dual", "pyvallocation/views.py:_entropy_pooling_dual_objective"), ("tail views", "pyvallocation/views.py:FlexibleViewsProcessor._solve_cvar_view"), ("Black-Litterman", "pyvallocation/views.py:BlackLittermanProcessor")],
     "symbolic normal forms of value numbers (polynomials and matrix products) with information flow and monotonicity, by abstract interpretation of client programs", TRUST + " Numerical convergence of the optimiser is outside; it is covered by the status check of P03.")


prop("P11", "Moments, conversions and risk numbers follow their documented formulas",
     "For all inputs, these results equal their documented formula, entry by entry: conversion of moments and scenarios between log and simple returns (both directions, inverting each other), projection to a horizon, repricing (exponential, Taylor, full, and of instruments with different drivers), portfolio variance and volatility, VaR and CVaR of weighted scenarios (with or without demeaning, vector or matrix of portfolios), weighted sample moments, "
     "the performance report's mean, deviation and effective scenario number, uniform, exponential-decay and kernel probabilities, effective numbers of scenarios, Jorion and James-Stein shrinkage, the Black-Litterman equilibrium mean and posterior moments, the oracle-approximating (OAS) covariance, the exponentially weighted covariance, Silverman's bandwidth, the Normal-Inverse-Wishart posterior with its point estimates, uncertainty matrices and credibility radii, stress maps and tables, average exposures, and the leftover cash and tracking error a share allocation reports. Labelled and unlabelled inputs give the same numbers. "
     "The returns and risks a frontier reports are those of its weights under the wrapper's moments, restated in simple returns when the inputs are log returns.",
     ["inputs"], "all moments, scenarios, probabilities, horizons and confidence levels, labelled or not",
     "Tests compare a few small inputs, often diagonal, equally weighted or with horizon one, where a wrong exponent, transpose, broadcast axis or denominator gives the same number.",
     ["pyvallocation/utils/projection.py", "pyvallocation/utils/functions.py", "pyvallocation/utils/performance.py", "pyvallocation/bayesian.py", "pyvallocation/views.py", "pyvallocation/moments.py", "pyvallocation/probabilities.py", "pyvallocation/stress.py", "pyvallocation/ensembles.py", "pyvallocation/portfolioapi.py"],
     [("Black-Litterman", "pyvallocation/views.py:BlackLittermanProcessor._compute_posterior"), ("conversions", "pyvallocation/utils/projection.py"), ("risk numbers", "pyvallocation/utils/functions.py"), ("reports", "pyvallocation/utils/performance.py:performance_report"), ("Bayesian posterior", "pyvallocation/bayesian.py:NIWPosterior, RobustBayesPosterior"), ("sample moments", "pyvallocation/moments.py"), ("scenario probabilities", "pyvallocation/probabilities.py"), ("frontiers", "pyvallocation/portfolioapi.py:PortfolioWrapper")],
     "index-notation normal forms of value numbers (polynomials over entries, with bound sums) compared with the documented formula, by abstract interpretation of client programs", TRUST + " Identities are those of real arithmetic; rounding is outside. Spectral estimators (shrinkage by eigenvalues, iterative estimators) are outside.")


na("N01", "Optimal portfolios are optimal",
   "No feasible portfolio has a better objective than the one an optimiser returns, beyond the solver's tolerance.",
   ["inputs"], "all data and constraints", "Optimality on each input is a property of numbers the tests only sample.", ["pyvallocation/optimization.py"], [("solver calls", "pyvallocation/optimization.py")],
   "Depends on the convergence of cvxopt's iterations in floating point; statically only the problem handed over (P09), the status test (P03) and the reported functions (P09) can be decided.")
na("N02", "Posterior probabilities meet the views and stay closest to the prior",
   "After entropy pooling every stated view holds within tolerance and no other distribution meeting the views is closer to the prior in relative entropy.",
   ["inputs"], "all scenario sets and views", "Convergence for each input cannot be sampled.", ["pyvallocation/views.py"], [("dual solve", "pyvallocation/views.py:entropy_pooling")],
   "Depends on the convergence of a numerical minimiser; statically the constraints and the dual (P10) and the success test (P03) are decided.")
na("N03", "Covariance estimates are positive semidefinite",
   "Every covariance matrix the package returns is symmetric positive semidefinite, and shrinkage or repair never makes it worse conditioned.",
   ["inputs"], "all return histories, including degenerate ones", "Definiteness depends on the data.", ["pyvallocation/moments.py", "pyvallocation/utils/validation.py"], [("PSD repair", "pyvallocation/utils/validation.py")],
   "Definiteness is a spectral property of floating-point data (eigenvalue clipping, iterative estimators); no dataflow or type argument bounds eigenvalues.")
na("N04", "Share allocations never overspend and track the target best",
   "A whole-share allocation costs no more than the portfolio value and no other affordable allocation tracks the target weights better.",
   ["inputs"], "all prices, weights and budgets", "Rounding behaviour depends on the numbers.", ["pyvallocation/discrete_allocation.py"], [("greedy and MILP allocation", "pyvallocation/discrete_allocation.py")],
   "The greedy loop's spending and the MILP optimum are sums of runtime quantities; a relational numeric invariant over floating-point loops is outside the static domains used here.")
na("N05", "Tail-risk numbers are ordered and coherent",
   "CVaR is at least VaR, grows with the confidence level and is sub-additive for every distribution.",
   ["inputs"], "all scenarios and probabilities", "Ordering holds or fails per input.", ["pyvallocation/utils/functions.py", "pyvallocation/utils/performance.py"], [("tail functions", "pyvallocation/utils/functions.py")],
   "Inequalities between sorted, interpolated runtime data; only scale and direction (P08, P13) are statically decidable here.")
