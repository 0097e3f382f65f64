#!/usr/bin/env python3
"""Source of properties.jsonl: run it from /verif after editing."""
import json, sys
A = 'active_subspaces/'
U = A + 'utils/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(obs), hook_needed=None)))

p('C01', 'Gradient subspaces are the eigendecomposition of the gradient outer product',
  'For gradient samples df and weights w, the computed eigenvalues and eigenvectors are an eigendecomposition of C = sum_i w_i df_i df_i^T: nonnegative eigenvalues (m-by-1) in non-increasing order, an orthogonal m-by-m eigenvector matrix whose columns pair with the eigenvalues (C W = W diag(e)), and a first component of every eigenvector that is not negative. Default weights are 1/M. This holds whatever the number of samples, their dtype or memory layout, and for repeated or zero eigenvalues.',
  ['inputs'], 'All sample counts (fewer or more than the dimension), dimensions, gradient values incl. zero columns, repeated rows and ties, weights, dtypes, memory layouts.',
  'Tests compare one or two fixed data files with stored numbers (up to loose tolerances, few shapes); they do not quantify over shapes, ties, weights, dtypes.',
  [A + 'subspaces.py'], [('active_subspace forms C and sorted_eigh sorts and fixes signs', A + 'subspaces.py:active_subspace, sorted_eigh')],
  obs=['Subspaces.compute(df=...)', 'active_subspace', 'sorted_eigh'])
p('C02', 'Gradient-free subspaces come from the documented least-squares models',
  'OLS yields the eigenpairs of b b^T for b the (weighted) least-squares linear coefficients; QPHD those of b b^T + gamma H H^T for the gradient b and Hessian H of the least-squares quadratic, gamma = 1/3 when every input lies in [-1,1] and 1 otherwise; OPG those of the average outer product of the local linear gradients. So an affine f gives, under each of the three, exactly one nonzero eigenvalue |b|^2 with eigenvector b/|b| up to sign, and an exactly quadratic f gives under QPHD its exact b and H.',
  ['inputs'], 'All sample sets with enough points, all affine and quadratic functions and arbitrary outputs, uniform and nonuniform weights, inputs inside, on and outside the cube.',
  'Tests compare three stored results for one data set; the model is never re-derived for other data, weights, or input ranges.',
  [A + 'subspaces.py', A + 'gradients.py', U + 'response_surfaces.py'],
  [('ols_subspace, qphd_subspace, opg_subspace', A + 'subspaces.py'), ('local_linear_gradients', A + 'gradients.py')],
  obs=['Subspaces.compute(X, f, sstype=...)', 'ols_subspace', 'qphd_subspace', 'opg_subspace'])
p('C03', 'A Subspaces object is always consistent, over any history of calls',
  'After any sequence of compute and partition calls on any number of Subspaces objects, each object reflects only its own last successful calls: W1 and W2 are the first n and last m-n columns of the eigenvectors for the n last chosen, bootstrap ranges exist exactly when the last compute bootstrapped, and the dimension is the one chosen by the requested heuristic (EVG, RS or LI). A rejected call (missing data, unknown subspace or partition type, RS or LI without bootstrap, partition dimension not an int or outside 1..m) raises and changes nothing. Objects never share or alias state.',
  ['histories'], 'All interleavings of compute (four subspace types, three partition types, with or without bootstrap, valid or invalid) and partition calls on several objects.',
  'Each test makes one or two calls on a fresh object; no test looks at an object after a failed call or at sequences of calls.',
  [A + 'subspaces.py'], [('Subspaces.compute stores results only when all succeeded', A + 'subspaces.py:Subspaces.compute'), ('Subspaces.partition checks and slices', A + 'subspaces.py:Subspaces.partition')],
  [('eigenvals, eigenvecs, W1, W2, e_br, sub_br', 'last results', A + 'subspaces.py:Subspaces')], ['Subspaces attributes after every call'])
p('C04', 'Dimension heuristics return the optimum of their documented criterion',
  'The three heuristics return the dimension n, 1 <= n, that optimizes their criterion, together with the criterion values: EVG the largest gap |e_n - e_(n+1)|; RS the smallest of sqrt(e_1+..+e_n)*err_n + sqrt(e_(n+1)+..+e_m); LI the smallest of li_n + e_n / sum(e).',
  ['inputs'], 'All eigenvalue spectra (decaying, flat, with zeros) and subspace-error estimates, all dimensions m >= 2.',
  'One stored spectrum is tested per heuristic.', [A + 'subspaces.py'],
  [('eig_partition, errbnd_partition, ladle_partition', A + 'subspaces.py')], obs=['eig_partition', 'errbnd_partition', 'ladle_partition', 'Subspaces.W1.shape'])
p('C05', 'Bootstrap ranges are those of joint resamples of the samples',
  'Bootstrap ranges are the minimum/maximum eigenvalue and the minimum/mean/maximum subspace distance over nboot subspaces re-estimated from resamples of M samples drawn with replacement, where inputs, outputs, gradients and weights of a sample stay together. So eigenvalue ranges (m-by-2) and subspace-error ranges ((m-1)-by-3) are ordered, subspace errors lie in [0,1], and each reported value is attained by some resample.',
  ['inputs', 'schedules'], 'All data sets, all resampling outcomes, all nboot, all four subspace types.',
  'Tests fix a random seed and compare one run; the set of admissible resampling outcomes is never considered.',
  [A + 'subspaces.py'], [('_bootstrap_ranges and _bootstrap_replicate', A + 'subspaces.py')], obs=['Subspaces.e_br', 'Subspaces.sub_br'])
p('C06', 'Active and inactive coordinates: forward and inverse maps agree',
  'forward returns (X W1, X W2) row by row; inverse returns, for every active point and N, exactly N consecutive points whose active coordinates equal it, with an index column identifying which rows came from which active point. In the bounded case the returned points lie in [-1,1]^m for any active point of the domain; in the unbounded case the inactive coordinates are independent standard Gaussian draws. Maps follow the subspaces when they are re-partitioned or recomputed.',
  ['inputs', 'histories'], 'All subspaces (m, n), active points inside and on the boundary of the domain, N, and repartition histories; n = m excluded for bounded maps (no inactive variable to sample).',
  'Tests map a few stored points once and check shapes or a single round trip.', [A + 'domains.py'],
  [('ActiveVariableMap.forward/inverse, regularize_z, _rotate_x', A + 'domains.py')],
  obs=['ActiveVariableMap.forward', 'ActiveVariableMap.inverse'])
p('C07', 'Inactive-variable samplers return N feasible, varied samples',
  'For an active point y of the bounded domain every sampler (the default one, rejection, hit-and-run, random walk) returns an N-by-(m-n) array z with -1 <= W1 y + W2 z <= 1 for every row (up to 1e-6), except that rejection sampling may instead return None when too few points are accepted. When the slice is not a single point the samples vary and, over many samples, spread over the slice rather than part of it.',
  ['inputs', 'schedules'], 'All subspaces, active points from the center to the boundary, N, random draws.',
  'Tests check shapes for a few points under one seed; feasibility of every sample is not checked for other subspaces or seeds.',
  [A + 'domains.py', U + 'qp_solver.py'], [('sample_z, rejection_sampling_z, hit_and_run_z, random_walk_z', A + 'domains.py')],
  obs=['sample_z', 'rejection_sampling_z', 'hit_and_run_z', 'random_walk_z'])
p('C08', 'The domain boundary is the projection of the hypercube',
  'The boundary of a bounded active domain is the image of the cube [-1,1]^m: vertX holds corners (entries exactly +1 or -1), vertY = vertX W1, endpoints are -/+ the sum of |W1| in one dimension, and in higher dimensions the vertices include every vertex of the projected cube, so their convex hull, the hull stored and the linear constraints all describe exactly that zonotope. The expected vertex count is 2*sum_{i<n} C(m-1,i). Recomputing the boundary after the subspaces were repartitioned updates every attribute; an unbounded domain has none of them.',
  ['inputs', 'histories'], 'All subspaces with n = 1..3, incl. inputs of zero weight; repartition/recompute histories.',
  'Tests check vertex counts for a couple of random matrices; nothing checks that no vertex is missed or the constraints describe the same set.',
  [A + 'domains.py'], [('interval_endpoints, zonotope_vertices, nzv, compute_boundary', A + 'domains.py')],
  [('vertX, vertY, convhull, constraints, m, n', 'boundary attributes', A + 'domains.py:ActiveVariableDomain')], ['BoundedActiveVariableDomain attributes', 'nzv', 'interval_endpoints', 'zonotope_vertices'])
p('C09', 'Normalizers map to and from the standard space, and are inverse',
  'A bounded normalizer maps [lb,ub] linearly onto [-1,1] per coordinate and unnormalize is its exact inverse; an unbounded normalizer maps N(mu, C) samples to zero mean and identity covariance (normalize(x) = z with some L z = x - mu, L L^T = C) and unnormalize is its exact inverse. Both act row by row and do not depend on the other rows.',
  ['inputs'], 'All bounds (scalars of any sign or magnitude, row or column shaped), means, positive definite covariances, point sets.',
  'Tests use one set of bounds and one covariance.', [U + 'misc.py'], [('BoundedNormalizer, UnboundedNormalizer', U + 'misc.py')],
  obs=['normalize', 'unnormalize'])
p('C10', 'A simulation runs exactly once per input row, in order',
  'A simulation runner calls the user function exactly once for each row of the (possibly single-row or single-column) input, in row order, with a 1-by-m array equal to that row, and returns the M-by-1 outputs (M-by-m gradients for the gradient runner) with the i-th result in row i. An exception of the user function reaches the caller unchanged after which no further call is made, and runs share no state.',
  ['inputs', 'fault_sequences', 'histories'], 'All input matrices, user functions returning scalars, arrays or 1-by-1/1-by-m matrices, failing at any call; any sequence of runs.',
  'Tests run a two-function example once and compare outputs; call counts, order, arguments and failures are not observed.',
  [U + 'simrunners.py'], [('SimulationRunner.run, SimulationGradientRunner.run', U + 'simrunners.py')], obs=['calls seen by the user function', 'run() result'])
p('C11', 'Finite differences are forward differences of the simulation',
  'Finite-difference gradients equal (f(x + h e_j) - f(x)) / h for every row x and coordinate j and the requested step h (default 1e-6), computed from one simulation run per base or perturbed point, so exact for affine functions; the same result comes from a plain function and from a simulation runner wrapping it.',
  ['inputs'], 'All point sets, functions and step sizes.', 'Tests check one function and the default step with a loose tolerance.',
  [A + 'gradients.py'], [('finite_difference_gradients', A + 'gradients.py')], obs=['calls seen by the user function', 'returned gradients'])
p('C12', 'Local linear gradients are least-squares fits over nearest neighbors',
  'Each of the min(ceil(10 m ln m), M-1) returned rows is the gradient of the least-squares linear model over the p nearest other points of one of the given points (p = floor(1.7 m), at most M, by default; p from m+1 to M), so an affine function gives its exact gradient in every row, whatever the weights. Fewer than m+1 samples, a p that is not an int or outside m+1..M raise.',
  ['inputs', 'schedules'], 'All sample sets, values, p, weights and random choices of the center.',
  'Tests check shapes and one random data set.', [A + 'gradients.py'], [('local_linear_gradients', A + 'gradients.py')], obs=['local_linear_gradients'])
p('C13', 'Conditional expectations are per-group means and variances',
  'conditional_expectations returns, for each of the indices 0..n-1 in increasing order, the mean and the (population) variance of exactly the outputs carrying that index, as n-by-1 columns, whatever the order of the rows, the group sizes, or the numeric type of the index column.',
  ['inputs'], 'All outputs and all groupings (unequal groups, singletons, interleaved rows).', 'Tests use equal, consecutive groups of one size.',
  [U + 'misc.py'], [('conditional_expectations', U + 'misc.py')], obs=['conditional_expectations'])
p('C14', 'Gauss rules integrate polynomials exactly',
  'The one-dimensional Gauss-Hermite (standard Gaussian weight) and Gauss-Legendre (uniform probability weight on [-1,1]) rules with N points have N distinct real nodes (inside the support), positive weights summing to 1, and integrate every polynomial of degree up to 2N-1 exactly; multivariate rules are their full tensor products over all dimensions, each node with the product of its weights. Recurrence coefficients and Jacobi matrices are those of the orthogonal polynomials of the weight.',
  ['inputs'], 'All N, all dimensions and all per-dimension counts, also unequal ones; Jacobi parameters.', 'Tests compare a few N with stored numbers or loose moments.',
  [U + 'quadrature.py'], [('r_hermite, r_jacobi, jacobi_matrix, gl1d, gh1d, g1d, gauss_hermite, gauss_legendre', U + 'quadrature.py')], obs=['gl1d', 'gh1d', 'g1d', 'gauss_legendre', 'gauss_hermite', 'r_hermite', 'r_jacobi', 'jacobi_matrix'])
p('C15', 'Integration rules on active variables are consistent rules of the domain',
  'Rules on the active variables are consistent probability rules: N equal-width-bin midpoints of the interval with the bin probabilities for a bounded one-dimensional domain, simplex centroids inside the zonotope for higher dimensions, and a tensor Gauss-Hermite grid with floor(N^(1/n)) points per dimension when unbounded; weights are nonnegative and sum to one. The full rule repeats every active node NMC times with weight w/NMC at input points that map to it (inside the cube if bounded), with the index column telling which.',
  ['inputs', 'schedules'], 'All subspaces, N and NMC, random draws (a failure of the maximin optimizer may be reported as an exception).',
  'Tests check shapes only.', [A + 'integrals.py'], [('quadrature_rule, av_quadrature_rule, interval_quadrature_rule, zonotope_quadrature_rule', A + 'integrals.py')], obs=['quadrature_rule', 'av_quadrature_rule', 'interval_quadrature_rule', 'zonotope_quadrature_rule'])
p('C16', 'Integral estimates are the rule applied to the simulation',
  'integrate returns sum over active nodes of weight times the mean of the simulation over that node\'s points, with bounds mu -/+ 1.96 sqrt(sum w^2 V / NMC) for V the per-node variances; av_integrate returns the weighted sum of the function (or response surface) at the nodes. So constants integrate to themselves with lb = mu = ub, bounds bracket the estimate, functions of the active variables alone have zero variance, and each input point is simulated exactly once.',
  ['inputs', 'schedules'], 'All functions, subspaces, N, NMC, bounded and unbounded, random draws.', 'Tests check that a call returns or compare one seed.',
  [A + 'integrals.py', U + 'misc.py'], [('integrate, av_integrate', A + 'integrals.py')], obs=['integrate', 'av_integrate', 'calls seen by the user function'])
p('C17', 'Polynomial response surfaces are the least-squares fit',
  'A trained polynomial approximation of degree N is the least-squares fit over all monomials of total degree <= N: exact for polynomials of that degree, residual orthogonal to the basis otherwise; predict returns its value and, on request, its exact gradient (None otherwise), g and H are its linear coefficients and Hessian, and Rsqr is 1 minus the residual fraction. Too few points raise; a model is unaffected by later training of another one, and retraining replaces it wholly.',
  ['inputs', 'histories'], 'All point sets, outputs, degrees, dimensions, prediction points and train/predict histories.', 'Tests fit a quadratic in two or three dimensions once.',
  [U + 'response_surfaces.py'], [('PolynomialApproximation.train/predict', U + 'response_surfaces.py')], [('poly_weights, g, H, Rsqr', 'fitted model', U + 'response_surfaces.py')], ['predict', 'gradient', '__call__', 'g', 'H', 'Rsqr'])
p('C18', 'Monomial bases enumerate each multi-index once, with exact derivatives',
  'The index set of degree n in d variables has C(n+d,d) distinct multi-indices, all those with total degree at most n, in non-decreasing total degree, starting with 0 and then the d unit vectors in coordinate order; basis values are the products of powers and gradients their exact partial derivatives, also at zero coordinates.',
  ['inputs'], 'All degrees and dimensions (up to a bound), all points.', 'Tests compare two small cases.', [U + 'response_surfaces.py'],
  [('index_set, polynomial_bases, grad_polynomial_bases', U + 'response_surfaces.py')], obs=['index_set', 'polynomial_bases', 'grad_polynomial_bases'])
p('C19', 'Radial basis surfaces solve their interpolation system',
  'A trained radial basis approximation is s(x) = sum_i a_i exp(-sum_k (x_k - X_ik)^2 / ell_k) + polynomial of total degree <= N, where K (kernel matrix of the training points plus a diagonal of at least 1e-6, or the given noise) satisfies K a + B c = f and B^T a = 0; predict returns s and, on request, its exact gradient (None otherwise). Hence polynomials of degree <= N are reproduced, length scales are isotropic without eigenvalues and inversely proportional to the eigenvalues with them, and too few points raise.',
  ['inputs', 'histories'], 'All training sets, outputs, noise vectors, eigenvalues, degrees, prediction points, retraining.', 'Tests check a handful of shapes and one loose interpolation error.',
  [U + 'response_surfaces.py'], [('RadialBasisApproximation.train/predict, exponential_squared, grad_exponential_squared', U + 'response_surfaces.py')], [('radial_weights, poly_weights, K, ell, Rsqr', 'fitted model', U + 'response_surfaces.py')], ['predict', 'gradient', 'K', 'ell', 'radial_weights', 'poly_weights'])
p('C20', 'Active-subspace surfaces compose the forward map with the surrogate',
  'A response surface on active variables predicts surrogate(X W1) for every input and gradient W1 times the surrogate gradient, identically through predict, gradient, predict_av, gradient_av and calling it; train_with_data fits the surrogate to (X W1, f), train_with_interface to the conditional means (and, for the default surrogate, variances) of the simulation over a design on the active variables plus, when bounded, the domain\'s corners, running the simulation once per point.',
  ['inputs', 'histories'], 'All subspaces (bounded, unbounded), surrogates, training data, designs, histories of training and repartition.', 'Tests check shapes or one polynomial example.',
  [A + 'response_surfaces.py'], [('ActiveSubspaceResponseSurface', A + 'response_surfaces.py')], obs=['predict', 'gradient', 'predict_av', 'gradient_av', 'data seen by the surrogate'])
p('C21', 'Designs lie in their domain and have the documented layout',
  'interval designs are N equally spaced interior points; Gauss-Hermite designs are the full tensor grid of Gauss nodes; maximin designs are N points inside the polytope of the given vertices whose least distance to each other and the vertices is (locally) maximal, reproducible and independent of the random state; the active-variable design returns these for its domain together with NMC inputs per design point mapping to it. An optimizer failure is raised, never returned as a design.',
  ['inputs', 'schedules'], 'All intervals, counts, polytopes (also not symmetric about the origin), subspaces.', 'Tests check shapes for one polytope.',
  [U + 'designs.py', A + 'response_surfaces.py'], [('interval_design, maximin_design, gauss_hermite_design', U + 'designs.py'), ('av_design', A + 'response_surfaces.py')], obs=['interval_design', 'maximin_design', 'gauss_hermite_design', 'av_design'])
p('C22', 'Linear programs return a feasible optimum or raise',
  'linear_program_eq minimizes c^T x over A x = b, lb <= x <= ub and linear_program_ineq minimizes c^T x over A x >= b (x free in sign); each returns an n-by-1 feasible point attaining the optimal value, and raises when the program is infeasible or unbounded instead of returning a point.',
  ['inputs'], 'All small programs: feasible, degenerate, infeasible, unbounded, variables of either sign.', 'Tests solve one program per form.',
  [U + 'qp_solver.py'], [('QPSolver.linear_program_eq, linear_program_ineq', U + 'qp_solver.py')], obs=['returned point or exception'])
p('C23', 'Quadratic programs return the constrained minimizer',
  'quadratic_program_bnd minimizes c^T x + x^T Q x over lb <= x <= ub and quadratic_program_ineq over A x >= b for positive definite Q (symmetric or not), returning the n-by-1 (unique) minimizer to solver accuracy, whichever constraints are active.',
  ['inputs'], 'All small strictly convex programs with interior, boundary and vertex solutions and nonzero c.', 'Tests solve one program per form.',
  [U + 'qp_solver.py'], [('QPSolver.quadratic_program_bnd, quadratic_program_ineq', U + 'qp_solver.py')], obs=['returned point'])
p('C24', 'Solver backends are selected consistently and state the same programs',
  'A QPSolver uses SciPy when asked to or when Gurobi is absent, Gurobi when asked for (or by default) and importable, and falls back to SciPy for any other name; a solver set to an unknown name refuses to solve; the programs it hands to Gurobi have the same feasible set, bounds and objective as those solved with SciPy, and solutions come back as n-by-1 columns from both. Choosing a backend for one solver does not affect another.',
  ['configurations', 'inputs'], 'Both backends (Gurobi through a recording stand-in), the four program forms, sequences of solver creations.', 'Gurobi is not installed, so the tests never run that branch.',
  [U + 'qp_solver.py'], [('QPSolver.__init__ and the _gurobi_* functions', U + 'qp_solver.py')], obs=['model built through the gurobipy interface', 'QPSolver.solver'])
p('C25', 'Minimizers on active variables return a feasible point and its value',
  'av_minimize returns a 1-by-n point of the domain (in the interval, the zonotope, or anywhere if unbounded) and the function value at that very point, which for a smooth convex function is its minimum over the domain, or raises when its optimizer fails. It works with and without a gradient where one is optional, and leaves the random state as it was.',
  ['inputs'], 'All convex quadratics with minimizers inside, on the boundary and outside the domain; all subspaces, bounded or not, with and without gradients.', 'Tests minimize a single function per domain.',
  [A + 'optimizers.py'], [('av_minimize, interval_minimize, zonotope_minimize, unbounded_minimize', A + 'optimizers.py')], obs=['ystar', 'fstar'])
p('C26', 'Minimizing a response surface returns an input mapping to its minimizer',
  'minimize returns a 1-by-m point xstar and the minimum of the response surface over its domain, where xstar lies in the cube if bounded, its active coordinates are the minimizer on the active variables (so the surface predicts fstar there), and its inactive coordinates minimize the quadratic fitted to the given data over the first n+2 (n+1 when at most two are inactive) rotated coordinates plus a ridge of 0.005|z|^2, over the inactive slice (when that quadratic is convex). Asking that map for more than one point per active point raises.',
  ['inputs'], 'All subspaces with inactive variables, data sets, bounded and unbounded domains.', 'Tests check that the call returns.',
  [A + 'optimizers.py'], [('minimize, MinVariableMap, BoundedMinVariableMap, UnboundedMinVariableMap', A + 'optimizers.py')], obs=['minimize', 'BoundedMinVariableMap.inverse', 'UnboundedMinVariableMap.inverse'])
p('C27', 'Results depend on the random state only as documented',
  'Every operation gives the same result when repeated from the same random state, deterministic operations neither read nor advance the global random state (the internally seeded optimizers restore it, also when they fail), and sampling operations do use it (different states give different samples).',
  ['histories', 'schedules'], 'All public operations, any earlier history of calls, any seed.', 'Tests seed once per test; none looks at the state an operation leaves behind.',
  [A + 'subspaces.py', A + 'domains.py', A + 'optimizers.py', A + 'integrals.py', A + 'gradients.py', U + 'designs.py'],
  [('np.random.get_state/set_state around seeded optimization', U + 'designs.py, ' + A + 'optimizers.py')], obs=['global random state before and after each call', 'results'])
p('C28', 'Operations never modify their arguments or earlier results',
  'No public operation modifies an array given to it, and results handed out earlier (arrays returned, attributes read) do not change through later calls on the same or other objects. Repeating a deterministic operation on the same arguments gives the same result.',
  ['inputs', 'histories'], 'All public operations on writable arrays, and later calls on the same or other objects.', 'No test compares arguments before and after.',
  [A + 'subspaces.py', A + 'domains.py', A + 'gradients.py', U + 'misc.py', U + 'response_surfaces.py', U + 'simrunners.py', U + 'plotters.py'],
  [('operations work on copies', 'all modules')], obs=['arguments before and after each call'])
p('C29', 'Malformed arguments are rejected',
  'Inputs that are not two-dimensional arrays, outputs that are not an M-by-1 column with one row per input, counts or dimensions that are not integers, degrees and solver names out of range when used, objects of the wrong kind (subspaces, maps, functions), and subspaces not yet computed are rejected with an exception before any simulation is run; well-formed arguments at the limits of these rules are accepted.',
  ['inputs'], 'All documented argument rules of all public operations, on both sides of each rule.', 'Tests check a few of the rejections.',
  [U + 'misc.py', A + 'subspaces.py', A + 'domains.py', A + 'integrals.py', A + 'response_surfaces.py', U + 'simrunners.py', U + 'quadrature.py', U + 'qp_solver.py'],
  [('process_inputs, process_inputs_outputs and isinstance checks', U + 'misc.py and callers')], obs=['exception or result'])
p('C30', 'Plots show the given data, one figure or file per documented plot',
  'Each plotting function draws exactly the given data (eigenvalues, bootstrap ranges, subspace errors, eigenvector components, active variables against outputs, zonotope, design) on the documented axes, for every supported number of columns, and with saving on writes the documented files in figs/ (the directory is created when missing) with the requested type; unsupported shapes raise.',
  ['inputs', 'configurations'], 'All supported shapes, with and without bootstrap ranges, labels and options.', 'Tests call each function and look at nothing.',
  [U + 'plotters.py'], [('plotters', U + 'plotters.py')], obs=['artists on the figure axes', 'files written'])
p('C31', 'Tutorial models come with their exact gradients',
  'Each model of the tutorials (borehole, OTL circuit, piston, robot arm, wing weight) returns the value of its published formula for each row, and its gradient function one row of exact partial derivatives with respect to the normalized inputs (the wing model of tutorials/wing_functions.py: with respect to its physical inputs, the sweep in radians), independently of the other rows, of the array\'s type and layout, and without changing its argument.',
  ['inputs'], 'All points of the input space, any number of rows, 1-d or 2-d arrays.', 'No test runs the tutorial models.',
  ['tutorials/test_functions/borehole/borehole_functions.py', 'tutorials/test_functions/otl_circuit/otlcircuit_functions.py', 'tutorials/test_functions/piston/piston_functions.py', 'tutorials/test_functions/robot/robot_functions.py', 'tutorials/test_functions/wing_weight/wing_functions.py', 'tutorials/wing_functions.py'],
  [('hand-derived gradients', 'tutorials/test_functions')], obs=['model and gradient values'])
p('C32', 'The package\'s workflow recovers a ridge function end to end',
  'For a model whose output is a quadratic of one or two linear combinations of its normalized inputs, any sequence of sessions of the package\'s workflow (normalizing samples, running the model, computing the subspace from exact or differenced gradients or from samples only where these are exact, training a surface on data or on a maximin or quadrature design, predicting, integrating, minimizing) agrees with that model: the inactive subspace is orthogonal to its directions and its eigenvalues vanish, the surface and its gradient are the model\'s everywhere, the integral is its mean with no Monte Carlo error, and the minimum is its least value over the domain.',
  ['inputs', 'histories'], 'All ridge quadratics, domains and normalizers, samples, and orders of the workflow\'s steps, including repeated ones.', 'Tests exercise each step alone, and compare with stored values of a single data set.',
  [A + 'subspaces.py', A + 'domains.py', A + 'response_surfaces.py', A + 'integrals.py', A + 'optimizers.py', A + 'gradients.py', U + 'simrunners.py', U + 'misc.py'],
  [('the workflow of the tutorials', 'tutorials'), ('all core modules', 'active_subspaces')], obs=['eigenpairs', 'predictions', 'integrals', 'minimizers'])


with open(sys.argv[1] if len(sys.argv) > 1 else 'properties.jsonl', 'w') as f:
    for r in P:
        assert len(r['title']) <= 80, (r['id'], len(r['title']))
        f.write(json.dumps(r) + '\n')
print(len(P), 'properties')
