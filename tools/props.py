#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
	d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
		anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
	if observe:
		d['anchors']['observe_at'] = observe
	P.append(d)

DOM = ['psdr/domains/euclidean.py', 'psdr/domains/linquad.py', 'psdr/domains/linineq.py', 'psdr/domains/box.py', 'psdr/domains/convexhull.py', 'psdr/domains/tensor.py', 'psdr/domains/normal.py', 'psdr/domains/lognormal.py', 'psdr/domains/point.py', 'psdr/domains/unbounded.py']

p('D01', 'Membership tests honour every declared constraint, in the right direction',
  'For every kind of domain, the membership test accepts a point only if it satisfies, up to the tolerance, each lower and upper bound, each linear inequality and equality, each quadratic constraint and the convex hull the domain was declared with. A larger tolerance, a larger upper bound, right-hand side or radius, or a smaller lower bound never turns an accepted point into a rejected one. The domains of a product are each tested on their own slice of the coordinates.',
  ['inputs', 'configurations'], 'all constraint data, all points, all tolerances, all domain kinds and products of them',
  'The tests sample points of a few hand-made domains; a constraint dropped or reversed for one family, one domain kind or one branch (1-d, vectorised) is only seen if a sampled point happens to violate exactly that constraint.',
  DOM, [('isinside', 'EuclideanDomain.isinside, _isinside and _isinside_{bounds,ineq,eq,quad}; overrides in each domain class')])

p('D02', 'Domain optimisation imposes every constraint, answers in user coordinates',
  'Finding an extreme point, the closest point, a constrained least-squares solution or the largest inscribed ball over a domain solves a problem whose feasible set is the domain: every bound, linear inequality, equality, quadratic and hull constraint is imposed, in the right direction, consistently with the coordinates the problem is posed in. The objective is the documented one expressed in those same coordinates, and the returned point is expressed in the caller\'s coordinates.',
  ['inputs', 'configurations'], 'all constraint data and all queries, including domains whose centre is not the origin and whose axes have different lengths',
  'Tests compare a handful of queries, mostly on centred boxes where normalised and user coordinates coincide or the missing constraint is inactive at the optimum.',
  DOM, [('_build_constraints_norm/_build_constraints', 'psdr/domains/*.py'), ('closest_point, corner, constrained_least_squares', 'psdr/domains/euclidean.py'), ('chebyshev_center', 'psdr/domains/linineq.py')])

p('D03', 'Distance to the boundary never leaves the domain',
  'The step length reported from a point inside the domain along a direction is limited by every constraint of the domain: each bound, linear inequality, equality, quadratic and hull constraint can only shorten it, and a constraint that is already active and would be violated by moving gives zero. A constraint that moving can never violate does not shorten it.',
  ['inputs', 'configurations'], 'all constraint data, all inside points (interior or on the boundary) and all directions',
  'Hit-and-run and sweep tests start from interior points of small polytopes, where an omitted family or boundary case rarely binds.',
  DOM, [('extent/_extent and _extent_{bounds,ineq,quad}', 'psdr/domains/*.py')])

p('D04', 'Combining domains keeps every constraint of both operands',
  'Adding constraints to a domain, intersecting two domains, taking products, converting a hull to linear inequalities and normalising produce a domain whose membership implies all constraints of every operand and nothing else. Bounds are tightened (largest lower bound, smallest upper bound), never relaxed, and lists of constraints are concatenated with matching order of matrices, centres and radii.',
  ['inputs', 'configurations'], 'all pairs of domain kinds and all constraint families, including absent ones',
  'Tests intersect a few pairs; the product over (kind, kind, constraint family) is far larger and a dropped family is invisible unless a sampled point tells.',
  DOM, [('add_constraints, __and__, __mul__, to_linineq, normalized_domain', 'psdr/domains/*.py')])

p('D05', 'Normalised and user coordinates are exact inverses and agree on all data',
  'Normalising and un-normalising are inverse affine maps whose linear parts are the reported derivatives, with bounded domains mapped to [-1,1] per coordinate; they act on every point of an array alike. Every piece of constraint data of the normalised domain describes the same set: a point satisfies a constraint in user coordinates exactly when its image satisfies the normalised one.',
  ['inputs', 'configurations'], 'all bounds, means, offsets, all constraint data, all points and product domains',
  'Tests use boxes and centred examples; an error in the affine shift of one constraint family cancels there.',
  DOM, [('normalize, unnormalize, _center, _normalize_der, *_norm properties', 'psdr/domains/euclidean.py')])

p('G01', 'Library calls never modify the caller\'s arrays, option dictionaries or defaults',
  'No public function, constructor or method modifies an array, list or dictionary passed by the caller, or a shared default argument: after any call the caller\'s inputs are unchanged, and repeating a call with the same arguments and random seed gives the same answer. Objects keep their own copies where they later modify data in place.',
  ['inputs', 'histories'], 'all public calls, all inputs that are already arrays (so that conversion does not copy), and all sequences of calls',
  'Tests pass literals or freshly made arrays and never look at them again.',
  ['psdr/'], [('np.array/np.copy/merge at the public boundary', 'throughout')])

p('G02', 'All randomness comes from numpy\'s global generator',
  'Every random number used by the library is drawn from numpy\'s global generator at the time of the call, so that seeding that generator makes every result reproducible. The library never seeds, resets or replaces a generator, never draws at import time and never replays cached draws.',
  ['inputs', 'histories', 'programs'], 'all public operations and all sequences of them after one seed',
  'A test that seeds and compares two runs exercises one operation; an extra generator in any other operation stays unseen.',
  ['psdr/'], [('np.random.* calls', 'throughout'), ('scipy.stats.ortho_group.rvs', 'psdr/domains/euclidean.py')])

p('G03', 'Verbosity only prints',
  'Asking an operation for progress output changes only what is printed: the returned values, stored results, number of iterations, stopping decision and random numbers consumed are the same with and without it.',
  ['configurations', 'inputs'], 'all operations that take a verbosity option and all inputs',
  'Tests run each operation with one verbosity setting.',
  ['psdr/gn.py', 'psdr/seqlp.py', 'psdr/minimax.py', 'psdr/sample/', 'psdr/lipschitz.py', 'psdr/lipschitz_partial.py'], [('if verbose: blocks', 'throughout')])

p('G04', 'Every branch of the library refers only to things that exist',
  'On every path of every public operation, each name, module attribute, method and object attribute used exists, and each call within the library passes arguments its callee accepts and all those it requires. Methods redefined in a subclass accept every call the base-class operations make on them.',
  ['inputs', 'configurations', 'programs'], 'all branches, including options and domain kinds no test selects',
  'Python resolves names when the line runs; the branches no test enters are never resolved.',
  ['psdr/'], [('imports, attribute initialisation in constructors, signatures', 'throughout')])

p('G05', 'A failed solve is reported, never returned as an answer',
  'When the convex solver does not return an optimal solution, domain queries and model fits raise the documented error (empty domain, unbounded domain, solver error) and do not return numbers taken from the failed solve. An infeasible domain query reports an empty domain, an unbounded one an unbounded domain, and only optimal statuses produce a result.',
  ['inputs', 'fault_sequences'], 'all solver outcomes at every place a solve happens',
  'The tests never make the solver fail at most of the solve sites.',
  ['psdr/domains/euclidean.py', 'psdr/domains/linineq.py', 'psdr/lipschitz.py', 'psdr/poly.py', 'psdr/seqlp.py', 'psdr/minimax.py'], [('status checks after problem.solve', 'each solve site')])

p('F01', 'A function evaluates the same way in every calling mode',
  'Evaluating a wrapped function on a point, on an array of points, vectorised or not, with or without gradient, gives row i equal to the value at point i, with the documented shapes (values: points by outputs; gradients: points by outputs by parameters, with single outputs squeezed). Points are un-normalised exactly once and extra keyword arguments given at construction or at the call reach every underlying function and gradient, call-time ones taking precedence.',
  ['inputs', 'configurations'], 'all numbers of points, outputs and parameters; vectorised or not; separate, joint or finite-difference gradients; all keyword arguments',
  'Tests cover a few combinations with one output or one point, where transposed layouts coincide.',
  ['psdr/function.py'], [('eval, grad, __call__', 'psdr/function.py')])

p('F02', 'Gradients are taken with respect to the coordinates the function is called in',
  'The gradient of a function composed with a linear change of variables is the gradient in the outer coordinates: the inner gradient multiplied exactly once by the Jacobian of the change of variables. This holds for normalised functions in every gradient mode, for ridge functions (input projected, gradient lifted by the same matrix, Hessian by it on both sides) and for scaled polynomial bases (one scale factor per derivative). The gradient of a local linear model is the slope of the model fitted with the same weights on both sides.',
  ['inputs', 'configurations'], 'all domains, subspaces, degrees, points and gradient modes',
  'Tests use domains with nearly unit scaling or one mode; a factor missing in another mode or on a mixed derivative is not exercised.',
  ['psdr/function.py', 'psdr/polyridge.py', 'psdr/basis.py', 'psdr/poly.py'], [('grad/hessian, DV/DDV', 'files above')])

p('L01', 'A fitted Lipschitz matrix is constrained by every sample and gradient',
  'Fitting a Lipschitz matrix imposes, for every pair of samples, that the matrix-weighted distance is at least the difference of values minus the noise tolerance, and for every gradient that the squared matrix dominates its outer product; it minimises the size of the squared matrix. Scaling the outputs and the noise tolerance by a constant scales the fitted matrix by the same constant. The measure of nonlinearity holds what a linear part leaves of every difference, on both sides, to one smallest constant.',
  ['inputs', 'configurations'], 'all samples, gradients, tolerances, structures and solution methods',
  'Tests check the constraints on one random data set per method with zero or one tolerance.',
  ['psdr/lipschitz.py', 'psdr/lipschitz_partial.py', 'psdr/lipschitz_utils.py'], [('_build_lipschitz_matrix*, _fit, _bisection', 'psdr/lipschitz.py')])

p('L02', 'Lipschitz bounds enclose: lower below, upper above, tightest over samples',
  'The lower bound implied by a Lipschitz matrix at a point is the largest, over the samples, of value minus matrix-weighted distance, and the upper bound the smallest of value plus distance; each moves towards the sample value as the distance shrinks, and the bounds are exact at the samples. Extremal bounds over a domain are searched with the matching sense.',
  ['inputs'], 'all samples, matrices and query points',
  'Tests compare at a few points where min and max over samples coincide or are far from tight.',
  ['psdr/lipschitz.py', 'psdr/lipschitz_approx.py'], [('uncertainty, uncertainty_domain, bounds_domain, LowerBound, UpperBound', 'psdr/lipschitz.py')])

p('S01', 'Reported subspaces are orthonormal, ordered and never lose a direction',
  'The basis reported by every subspace-based reduction has orthonormal columns ordered by decreasing importance. Choosing the sign of a column flips it or leaves it and never zeroes it, whatever the data.',
  ['inputs'], 'all data sets, including those whose averaged slope along a direction is zero',
  'Tests use generic data for which the sign is never zero.',
  ['psdr/subspace.py', 'psdr/polyridge.py', 'psdr/lipschitz.py', 'psdr/coord.py'], [('_fix_subspace_signs*, svd/eigh', 'psdr/subspace.py')])

p('O01', 'Optimisers return the best point they accepted and stay within their limits',
  'The iterative optimisers (Gauss-Newton and its line search, sequential linear programming, minimax, the partial Lipschitz matrix) move to a new point only when it does not increase the objective and lies within the bounds given for the objective, so the result is never worse than the start; a clear improvement is taken. Every step minimises the linearised objective in the chosen norm subject to the domain, the linearised constraints and the constraints on the search direction. They make at most the requested number of iterations and trial steps, and convergence is reported only where the gradient at the returned point is small.',
  ['inputs', 'configurations', 'histories'], 'all objective functions, starting points and options',
  'Tests optimise a few smooth problems to convergence and check the final value only.',
  ['psdr/gn.py', 'psdr/seqlp.py', 'psdr/minimax.py', 'psdr/lipschitz_partial.py'], [('acceptance tests in the loops', 'files above')])

p('Q01', 'Random domains sample, measure and bound the same distribution',
  'For every random domain the density, the samples and the support agree: samples are an affine (or exponential of affine) image of standard draws with the declared mean, covariance, offset and scale, the density is the one of that image, is zero outside the support and is divided by the probability kept when truncated. Drawn samples always lie inside the domain.',
  ['inputs', 'configurations'], 'all means, covariances, offsets, scalings and truncations',
  'Tests use unit scaling, zero offset or unit covariance, for which wrong exponents coincide with right ones.',
  ['psdr/domains/normal.py', 'psdr/domains/lognormal.py', 'psdr/domains/uniform.py'], [('_pdf, _sample, lb, ub', 'files above')])

p('A01', 'Samplers return points of the domain, as many as asked',
  'Every sampling routine returns only points inside the domain it was given: each returned point is produced by an operation that keeps within the domain or has passed the membership test of that same domain. Designs of a requested size have that many rows and one column per coordinate, every move keeps to the boundary and equality constraints, the design returned is the best one measured, and quadrature weights belong to their own points.',
  ['inputs', 'configurations'], 'all domains (boxes, polytopes, hulls, quadratic), metrics and sizes',
  'Tests draw from a few domains, mostly boxes, where rounding and projections stay inside anyway.',
  ['psdr/sample/', 'psdr/geometry/', 'psdr/domains/euclidean.py'], [('domain.sample, isinside filters, convex combinations', 'files above')])

p('M01', 'Demonstration functions are paired with their own gradients and domains',
  'Each demonstration model evaluates the same formula for its value and its gradient: each gradient entry is the partial derivative of the value with respect to that input, and inputs are unpacked in the order of the model\'s domain. Values and gradients use the same constants.',
  ['inputs'], 'all inputs of all demonstration models',
  'The derivative tests sample points on some models, with tolerances, and some models have no gradient test.',
  ['psdr/demos/'], [('fun/grad pairs', 'psdr/demos/*.py')])

p('M02', 'External model runs are contained in their own scratch directory',
  'Everything an external simulation run writes or removes lies in the directory of that run, which is also what the external program is given as its own. A scratch directory the wrapper creates is removed however the call ends, unless the caller asked to keep it; a directory that already existed is left standing. A run that fails never yields made-up values: the call ends in an error and returns nothing. Every input and every option, of the call or of the constructor, reaches the external program in its place.',
  ['inputs', 'fault_sequences'], 'all inputs and all ways the external program fails',
  'The external programs and container images are not available to the tests.',
  ['psdr/demos/multif/', 'psdr/demos/multif.py', 'psdr/demos/naca0012.py', 'psdr/demos/oas.py'], [('tempfile.mkdtemp, cwd, rmtree', 'files above')])

p('R01', 'Every documented option selects the behaviour it names',
  'Each accepted value of an option that names a method, basis, norm, bound or structure reaches its own distinct behaviour, and any other value is rejected before results are produced. Opposite options (lower and upper bound) impose opposite inequalities everywhere they are handled.',
  ['configurations'], 'all accepted and unaccepted values of all mode-selecting options',
  'Tests run the common values of each option.',
  ['psdr/poly.py', 'psdr/polyridge.py', 'psdr/lipschitz.py', 'psdr/gp.py', 'psdr/sample/', 'psdr/domains/euclidean.py'], [('asserts on options and if-chains', 'files above')])

p('K01', 'A Gaussian process predicts with the kernel it fitted, by its own gradient',
  'For every kernel structure and trend degree, the length scales found by a fit are those at which the negative log marginal likelihood is evaluated, its gradient is the derivative of its value, value and gradient are handed to the minimiser as a pair, the kept kernel matrix and weights solve the kernel system with the polynomial trend, and prediction and reported covariance are those of that kernel and trend.',
  ['inputs'], 'all samples, values, nuggets, kernel structures (constant, scaled identity, diagonal, triangular) and trend degrees', 'A factor or sign error in one gradient entry, or a kernel built differently for fit and prediction, gives slightly worse but plausible predictions on every sampled input.',
  ['psdr/gp.py'], [('GaussianProcess._make_L, _log_marginal_likelihood, _obj, _grad, _fit_init, fit, eval', 'psdr/gp.py')])

p('P01', 'Plots and data files hold the data they are named for',
  'Whatever is added to a data file is read back under its name, in order and unrounded, and columns of different lengths are refused. Shadow plots put every value at the projection of its own sample; the response drawn or written beside it is the ridge function at the point of the subspace with those coordinates, over the range of the samples; uncertainty bands, scores, contours and estimated densities are drawn and written with the numbers they are named for, the same in the file as on the axis, with or without an axis.',
  ['inputs', 'configurations'], 'all samples, directions, dimensions, axes and file names',
  'Tests call the plots and look at nothing that is drawn or written; a swapped column or coordinate looks as plausible as the right one.',
  ['psdr/pgf.py', 'psdr/subspace.py', 'psdr/ridge.py', 'psdr/lipschitz.py', 'psdr/lipschitz_approx.py', 'psdr/coord.py', 'psdr/duu.py'], [('PGF, save_contour, shadow_plot, shadow_uncertainty, plot_score, duu', 'files above')])

p('N01', 'Computed optima, subspaces and surrogates are numerically accurate',
  'Optimal values, Lipschitz matrices, subspaces, quadrature weights and Gaussian-process likelihoods agree with their mathematical definition to the solver tolerance.',
  ['inputs'], 'all well-posed inputs', 'Accuracy depends on conditioning and solver tolerances for each input; tests sample a few.',
  ['psdr/'], [('numpy/scipy/cvxpy solvers', 'throughout')])

p('N02', 'Random samples are uniform and space-filling designs are near optimal',
  'Points drawn from a domain follow the uniform (or declared) distribution, and maximin, minimax and covering designs reach distances within the guarantees of their algorithms.',
  ['inputs', 'histories'], 'all domains and all draws', 'A statistical or optimality statement about run-time values; tests check single draws.',
  ['psdr/sample/', 'psdr/domains/euclidean.py'], [('hit and run, Lloyd, Voronoi sampling', 'psdr/sample/')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as fh:
	for d in P:
		fh.write(json.dumps(d) + '\n')
ids = [d['id'] for d in P]
assert len(set(ids)) == len(ids)
for d in P:
	assert len(d['title']) <= 80, d['title']
print(ids)
