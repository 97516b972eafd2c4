NA = {
	'N01': 'Quantifies over run-time numerical error (conditioning, solver tolerances) of iterative floating-point algorithms; no sound static bound is in reach. The structural parts (which constraints, objectives and derivatives are set up) are D02, L01, F02.',
	'N02': 'Uniformity and near-optimality are statements about the distribution of run-time values; nothing in the shape of the code decides them. The structural part (returned points are members, draws come from the global generator) is A01 and G02.',
}
CLAIMS = {
	'G02': ('call-resolution and value-flow lint over all functions (who-may-call, effect analysis)', 'Exact over resolved references in all modules of the package; trusts that the listed numpy/scipy functions use the global generator when no generator is passed.'),
	'D01': ('abstract interpretation of every membership test over a domain of value terms, linear normal forms, necessity and monotonicity analysis', 'Exact per constraint family and per branch for the domain kinds listed in psa/doms.py; an unrecognised form is recorded as undecided, not as a violation.'),
	'D02': ('abstract interpretation of the program builders over value terms, change-of-coordinates normal forms, necessity analysis', 'Feasible set and objective of each query compared with the declared constraints by normal form; assumes cvxpy solves what it is given.'),
	'D05': ('abstract interpretation of the coordinate maps over value terms, linear normal forms per case of the bounds', 'Identities over the reals, per region of finite/equal bounds, for every domain kind and a three-factor product; rounding is not modelled.'),
	'D04': ('abstract interpretation of the combining operations over value terms, row-by-row comparison of the resulting constraint data in linear normal form', 'Exact per kind of operand (pairs of domain kinds, three-factor products) over the reals; trusts ConvexHull to return outward facets; combinations the library refuses are recorded as undecided.'),
	'D03': ('abstract interpretation in a sign domain of the extracted step-length terms; normal-form comparison of the hull problem', 'Every combination of signs of slack and rate of two rows per family and one row of each family at once; assumes the start satisfies the constraints exactly (the property speaks of a point inside).'),
	'G04': ('scope resolution, definite-assignment dataflow with correlated branch conditions, attribute and call-signature resolution per receiver class', 'All functions and modules of the package; what third-party packages define comes from psa/api.json (generated by introspecting the installed packages); reads that are unassigned only when a loop runs zero times or an exception is swallowed are recorded as undecided.'),
	'G03': ('interprocedural information-flow (non-interference) analysis with labels on values and program points', 'All functions; the verbosity sources are parameters, attributes and dictionary entries named verbose/verbosity/disp/display; values handed to third-party code under its own verbosity keyword are taken not to change its answer; raising depending on verbosity is recorded as undecided.'),
	'G01': ('interprocedural may-alias and mutation-effect analysis with function summaries', 'All functions and modules of the package; numpy view-or-copy behaviour is modelled by a table of library functions; a parameter never used as an array is not assumed to be one, so augmented assignment to it is undecided; in-place changes made inside third-party code are those in the table.'),
	'G05': ('typestate analysis of every solve site over the outcomes a solver can report, with inlined helpers and exception flow', 'Every call of a CVXPY or CVXOPT solver in the package, for each failing outcome; a solver that reports optimal for a wrong point is outside it.'),
	'M01': ('abstract interpretation of the value and gradient functions to formulas in canonical form, exact differentiation and comparison', 'All demonstration models that declare gradients, every input; entries are compared as formulas over symbolic points (one point, one row, two rows), roots taken of positive quantities, printed constants to 1e-9.'),
	'F01': ('abstract interpretation of the wrapper over uninterpreted functions and coordinate maps in every calling mode, comparison with the documented arrays', 'All calling modes (plain/vectorised, one/several functions, scalar/column/vector outputs, value/gradient/both/asynchronous/finite difference, keyword arguments at both places) for 1-3 points of 1-3 inputs, with inner functions and coordinates uninterpreted; larger sizes follow the same code.'),
	'F02': ('abstract interpretation of bases, polynomials, ridge functions and fitting residuals to formulas, exact differentiation and comparison', 'Exact over the reals for every polynomial family, scaled and unscaled, up to the listed degrees and dimensions (the loops are the same for larger ones); fits are analysed with uninterpreted bases, so for every basis; the scale of a basis is treated as fixed while differentiating, as the code does.'),
	'L01': ('abstract interpretation of every fitting method over value terms, per cell of inputs, extraction of the semidefinite problem and comparison of its inequalities with the stated ones in affine normal form', 'Three methods, full, diagonal and low-rank structure, symbolic samples, outputs, gradients and tolerance in nine cells (which pairs are active, order of the outputs, which term sets the scale) for two inputs and three samples; trusts the solver for a problem it is given; a differing problem is refuted by a matrix that satisfies one set of inequalities and violates the other.'),
	'L02': ('abstract interpretation of the bounds, their search over a domain and the envelopes over value terms, per cell of inputs, comparison with the stated formulas and exact differentiation', 'Symbolic samples, values, matrix, tolerance and test points (three samples, two inputs) in four cells that differ in which sample gives each bound; the minimax search is taken as a black box that minimises the largest entry of the function it is given (L02 checks which function that is, O01 the search).'),
	'S01': ('abstract interpretation of every subspace fit over value terms, per cell of inputs, with representative orthonormal factors, and comparison of the reported columns with the directions factored', 'Gradients rising, falling, mixed, few, cancelling and zero; Lipschitz fits with none, some or all constraints active and with cancelling slopes; ridge fits of one and two dimensions with any sign or zero on the factor diagonal and cancelling profiles; steps along the space of subspaces with symbolic tangent and step length. Factorisations are represented by fixed rational orthonormal frames (the analysis trusts that eigh, svd and qr return orthonormal factors in their documented order).'),
	'R01': ('abstract interpretation of every option over value terms and comparison of the problem posed, basis built, matrix formed or rule used with the named one; other values are traced to a refusal', 'All norms and bounds of the polynomial, ridge, affine and sequential fits, all basis names, Gaussian process structures, quadrature methods and data modes, with symbolic data of small fixed sizes; other values are represented by one or two values outside the documented list per option.'),
	'O01': ('abstract interpretation of each optimiser over value terms with a scripted objective per scenario, comparison of the iterates, the trial steps and the problems posed with the stated acceptance rules', 'Ten scripts of objective values at the successive points (better, worse, equal, refused, up and down, outside bounds), five norms, solves that fail, iteration limits one to six; points, directions and derivatives are symbolic. That the true nonlinear constraints hold at every iterate is not claimed: the algorithm imposes their linearisation.'),
	'Q01': ('abstract interpretation of sampling, membership, density and normalisation over value terms with the standard draws as symbols, comparison with the affine or exponential image they are stated to be', 'Normal domains in one and two dimensions with three symbolic covariances, log-normal domains with five offsets and scalings, each truncated and not, uniform boxes up to three dimensions, products up to three factors; the library generators are taken to give independent standard draws and the library quantile to be right.'),
	'A01': ('abstract interpretation of every sampler over value terms with a stand-in domain whose answers are symbols, membership derived from convex combinations and passed membership tests', 'All samplers of psdr.sample, the Voronoi routines and the sampling, boundary, grid and quadrature methods of EuclideanDomain, for designs of up to ten points in up to three coordinates with no, square, flat and scaled metrics; every comparison follows a fixed cell of representative values; distances reached are decided only where a routine keeps the best of several designs.'),
	'K01': ('abstract interpretation of likelihood, fit and prediction over value terms with representative eigen-factors, comparison with exact derivatives and with the stated kernel system', 'Every kernel structure and trend degree of GaussianProcess, three or four symbolic samples in one and two inputs, spectra on both sides of the floor; the eigen-decompositions and solves are trusted and represented by symbols, the minimiser itself is scipy (N01).'),
	'P01': ('abstract interpretation of the plotting and file routines over value terms with stand-in axes and files, comparison of what is drawn and written with what is due', 'All plotting and file routines in one and two dimensions, own and given directions and samples, with and without an axis; matplotlib is represented by a recorder, files by the text written; shadow_envelope is in L02.'),
	'M02': ('abstract interpretation of each wrapper over a stand-in file system and process table, one scenario per way the program, the disk or the caller can behave', 'The MULTIF, NACA0012 and OpenAeroStruct wrappers and functions, with and without a kept or given directory, for runs that succeed, stop with an error code, die, leave no or unreadable results, or find the directory missing or occupied; what the external programs themselves write is outside it.'),
}
