"""R01: every documented option selects the behaviour it names."""
from fractions import Fraction as Fr
from ..loader import AnalysisBroken
from .. import arr
from ..arr import Interp, Fn, Obj, Arr, Cannot, Raised, CELL, symbols, to_arr, poly, num, dot, transpose, getitem, frame, summed, asked, solved
from ..formula import Poly, ZERO, ONE, diff, equal, div, TooBig, Undefined
from ..conv import Conv, matrices, compare_affine, witness, unknowns, value
from .l01 import trivial
from .f02 import Values

RULES = [
	('norm', 'the named norm of the misfit is what is minimised', 30),
	('bound', 'a lower bound keeps the fit below every sample, an upper bound above, and neither imposes nothing', 30),
	('basis', 'each basis name builds the basis of that name, of the degree asked for', 12),
	('rejected', 'any other value of the option is refused before there is a result', 16),
	('structure', 'each structure of a Gaussian process matrix has its own form and parameters', 8),
	('rule', 'each integration method builds its own points and weights', 4),
	('mode', 'each mode reaches the computation it names', 8),
]
FAIL = (Cannot, Undefined, TooBig, RecursionError, KeyError, IndexError, ValueError, TypeError, AttributeError, ZeroDivisionError, OverflowError)
INF = arr.math.inf
KIND = {'norm1': 1, 'sum abs': 1, 'norm2': 2, 'sumsquares': 2, 'norminf': INF, 'max abs': INF}


def tried(ck, rule, con, go):
	try:
		return go()
	except FAIL as e:
		ck.unknown(rule, con, 'not analysed: %s' % e)
	except Raised as e:
		ck.unknown(rule, con, 'raises %s' % e.name)
	finally:
		CELL[0] = None


class Solve(Conv):
	"""least squares is one more problem"""

	def hooks(self):
		h = Conv.hooks(self)

		def lstsq(I, args, kw):
			A, b = to_arr(args[0]), to_arr(args[1])
			if len(b.shape) != 1:
				raise Cannot('several right-hand sides')
			x = self.variable((A.shape[1],))
			self.problems.append({'objective': Obj('goal', {'sense': 'min', 'expr': Obj('atom', {'fn': 'norm2', 'arg': arr.elementwise(lambda p, q: poly(p) - poly(q), dot(A, x), b)})}), 'constraints': [], 'solved': True})
			return (solved(x), None, A.shape[1], None)
		for q in ('scipy.linalg.lstsq', 'numpy.linalg.lstsq'):
			h[q] = lstsq
		h['builtins.print'] = lambda I, a, k: None
		return h


def objective(prob):
	g = prob['objective']
	ex = g.attrs['expr'] if isinstance(g, Obj) and g.cls == 'goal' else None
	if not (isinstance(ex, Obj) and ex.cls == 'atom') or isinstance(ex.attrs['arg'], Obj):
		raise Cannot('objective not understood')
	fn = ex.attrs['fn']
	if fn not in KIND and fn != 'sum pos':
		raise Cannot('objective %s' % fn)
	return KIND.get(fn, 'hinge'), g.attrs['sense'], to_arr(ex.attrs['arg'])


def posed(ck, con, prob, residual, norm, bound, at):
	"""the problem that was solved against: minimise the norm of the residual (fit minus samples), with the bound"""
	r = [poly(x) for x in to_arr(residual).flat]
	try:
		kind, sense, arg = objective(prob)
		a = [poly(x) for x in arg.flat]
		same = [s for s in (1, -1) if len(a) == len(r) and all(equal(x, y * Poly.const(s)) for x, y in zip(a, r))]
		if kind != norm or sense != 'min':
			ck.bad('norm', con, 'the %s-norm is %simised instead of the %s-norm' % (kind, sense, norm))
		elif same and (norm != 'hinge' or 1 in same):
			ck.ok('norm', con, '%s-norm of the misfit' % (norm,))
		elif same:
			ck.bad('norm', con, 'the misfit is minimised with the wrong sign')
		else:
			scaled = proportional(a, r, at)
			ck.verdict('norm', con, None if scaled is None else False if not scaled else True, 'what is minimised is the misfit')
	except Cannot as e:
		ck.unknown('norm', con, str(e))
	exp = [('nonneg', [x * Poly.const(1 if bound == 'upper' else -1)], 1) for x in r] if bound else []
	constraints(ck, 'bound', con, prob, exp, at)


def constraints(ck, rule, con, prob, exp, at):
	try:
		act = [a for c in prob['constraints'] for a in matrices(c)]
	except Cannot as e:
		return ck.unknown(rule, con, str(e))
	act = [a for a in act if not trivial(a, at)]
	same = lambda a, e: len(a[1]) == len(e[1]) and a[0] == e[0] and (compare_affine(a[1], e[1], at) == ('same',) or a[0] == 'zero' and compare_affine([-poly(x) for x in a[1]], e[1], at) == ('same',))
	lost = [k for k, e in enumerate(exp) if not any(same(a, e) for a in act)]
	extra = [a for a in act if not any(same(a, e) for e in exp)]
	if not lost and not extra:
		return ck.ok(rule, con, '%d inequalities, all expected' % len(act))
	w = witness(act, exp, at) if act and exp else {}
	if not act:
		ck.bad(rule, con, 'nothing is imposed')
	elif not exp:
		ck.bad(rule, con, '%d inequalities where none is due' % len(act))
	elif 'weak' in w:
		ck.bad(rule, con, 'accepts what violates inequality %d' % w['weak'])
	elif 'strict' in w:
		ck.bad(rule, con, 'refuses what satisfies every inequality')
	elif lost and opposite(act, [exp[k] for k in lost], at):
		ck.bad(rule, con, 'an inequality is imposed the wrong way round')
	else:
		s = max([shifted(a, exp[k], at) for k in lost for a in extra] or [0], key=abs)
		if s:
			return ck.bad(rule, con, '%s by %.3g' % ('accepts what violates an inequality' if s > 0 else 'refuses what satisfies an inequality', abs(s)))
		ck.unknown(rule, con, 'inequalities not matched')


def shifted(a, e, at):
	"""the same inequality but for a constant: by how much it is looser (or, negative, tighter)"""
	if a[0] != 'nonneg' or e[0] != 'nonneg' or len(a[1]) != 1 or len(e[1]) != 1:
		return 0
	try:
		r = compare_affine(a[1], e[1], at)
		v = value(r[1][0], at) if r and r[0] == 'shift' else 0
	except (Cannot, Undefined, TooBig, KeyError, ValueError):
		return 0
	return v if abs(v) > 1e-8 else 0


def opposite(act, lost, at):
	return any(a[0] == e[0] == 'nonneg' and compare_affine([-poly(x) for x in a[1]], e[1], at) == ('same',) for e in lost for a in act)


def proportional(a, r, at):
	"""is a a constant multiple of r, for several values of the unknowns"""
	if len(a) != len(r):
		return False
	names = unknowns(a + r)
	ratios = []
	for t in range(4):
		c = dict(at)
		for i, v in enumerate(names):
			c[v] = .3 + .7 * ((i * 5 + t * 3) % 7) - .2 * t
		for x, y in zip(a, r):
			try:
				p, q = value(x, c), value(y, c)
			except (KeyError, ZeroDivisionError, ValueError):
				return None
			if abs(q) < 1e-9:
				continue
			ratios.append(p / q)
	return max(ratios) - min(ratios) < 1e-9 * max(abs(x) for x in ratios) if ratios else None


def last(cv):
	ps = [p for p in cv.problems if p['solved']]
	if not ps:
		raise Cannot('no problem solved')
	return ps[-1]


BOUNDS = (None, 'lower', 'upper')


def fits(ck, P):
	"""fits of coefficients"""
	f = P.func('psdr.poly.linear_fit')
	for norm in (1, 2, INF):
		for bound in BOUNDS:
			con = 'linear_fit, norm %s, bound %s' % (norm, bound)

			def go(norm=norm, bound=bound, con=con):
				cv = Solve()
				I = Interp(P, cv.hooks(), steps=300000)
				CELL[0] = Values()
				A, b = symbols('A', (3, 2)), symbols('b', (3,))
				x = asked(to_arr(I.call(Fn(f, f.node, None, None), [A, b], {'norm': norm, 'bound': bound})))
				r = arr.elementwise(lambda p, q: poly(p) - poly(q), dot(A, x), b)
				posed(ck, con, last(cv), r, norm, bound, CELL[0])
			tried(ck, 'norm', con, go)
	parts = {'one_norm_fit': (1, None), 'two_norm_fit': (2, None), 'inf_norm_fit': (INF, None)}
	for nm, (norm, bound) in sorted(parts.items()):
		if not any(x.short == 'polyridge.' + nm for x in P.all_functions()):
			continue
		g = P.func('psdr.polyridge.' + nm)

		def go(g=g, norm=norm, nm=nm):
			cv = Solve()
			I = Interp(P, cv.hooks(), steps=300000)
			CELL[0] = Values()
			A, b = symbols('A', (3, 2)), symbols('b', (3,))
			x = asked(to_arr(I.call(Fn(g, g.node, None, None), [A, b], {})))
			posed(ck, nm, last(cv), arr.elementwise(lambda p, q: poly(p) - poly(q), dot(A, x), b), norm, None, CELL[0])
		tried(ck, 'norm', nm, go)


BASES = {'arnoldi': 'ArnoldiPolynomialBasis', 'legendre': 'LegendreTensorBasis', 'monomial': 'MonomialTensorBasis', 'chebyshev': 'ChebyshevTensorBasis', 'laguerre': 'LaguerreTensorBasis', 'hermite': 'HermiteTensorBasis'}


def with_bases(P, h, built, N=2, n=1):
	for b in BASES.values():
		c = P.cls('psdr.' + b)
		if c is None:
			raise AnalysisBroken('%s is gone' % b)

		def make(I, cls, args, kw):
			d = dict(zip(['degree', 'X', 'dim'], args))
			d.update(kw)
			M = to_arr(d['X']).shape[0] if d.get('X') is not None else 3
			built.append((cls.node.name, d))
			V, DV = symbols('V', (M, N)), symbols('DV', (M, N, n))
			return Obj(cls, {'V': lambda Y=None: Arr(V.shape, V.flat), 'DV': lambda Y=None: Arr(DV.shape, DV.flat), '@len': N})
		h[c.qualname] = make


def surfaces(ck, P):
	"""polynomial and ridge fits through the public classes"""
	for norm in (1, 2, INF):
		for bound in BOUNDS:
			con = 'PolynomialApproximation, norm %s, bound %s' % (norm, bound)

			def go(norm=norm, bound=bound, con=con):
				cv, built = Solve(), []
				h = cv.hooks()
				with_bases(P, h, built)
				I = Interp(P, h, steps=300000)
				me = I.new(P.cls('psdr.PolynomialApproximation'), [2], {'norm': norm, 'bound': bound})
				CELL[0] = Values()
				X, f = symbols('x', (3, 1)), symbols('f', (3,))
				I.call(I.attr(me, 'fit'), [X, f], {})
				c = asked(to_arr(I.attr(me, 'coef')))
				posed(ck, con, last(cv), arr.elementwise(lambda p, q: poly(p) - poly(q), dot(symbols('V', (3, 2)), c), f), norm, bound, CELL[0])
			tried(ck, 'norm', con, go)
	for norm in (1, 2, 'inf', INF):
		for bound in BOUNDS:
			con = 'ridge coefficients, norm %r, bound %s' % (norm, bound)

			def go(norm=norm, bound=bound, con=con):
				cv, built = Solve(), []
				h = cv.hooks()
				with_bases(P, h, built)
				I = Interp(P, h, steps=300000)
				me = I.new(P.cls('psdr.PolynomialRidgeApproximation'), [2, 1], {'norm': norm, 'bound': bound, 'rotate': False})
				CELL[0] = Values()
				X, f = symbols('x', (3, 2)), symbols('f', (3,))
				I.call(I.attr(me, 'fit_fixed_subspace'), [X, f, getitem(frame(2), (slice(None), slice(0, 1)))], {})
				c = asked(to_arr(I.attr(me, 'coef')))
				posed(ck, con, last(cv), arr.elementwise(lambda p, q: poly(p) - poly(q), dot(symbols('V', (3, 2)), c), f), INF if norm == 'inf' else norm, bound, CELL[0])
			tried(ck, 'norm', con, go)
			con2 = 'affine ridge, norm %r, bound %s' % (norm, bound)

			def affine(norm=norm, bound=bound, con=con2):
				cv, built = Solve(), []
				h = cv.hooks()
				with_bases(P, h, built)
				h['scipy.special.comb'] = lambda I, a, k: -1000
				I = Interp(P, h, steps=300000)
				me = I.new(P.cls('psdr.PolynomialRidgeApproximation'), [1, 1], {'norm': norm, 'bound': bound})
				CELL[0] = Values()
				X, f = symbols('x', (4, 2)), symbols('f', (4,))
				I.call(I.attr(me, 'fit'), [X, f], {})
				prob = [p for p in cv.problems if p['solved']][0]
				at = CELL[0]
				kind, sense, r = objective(prob)
				r = [poly(x) for x in r.flat]
				# fit minus samples up to a positive scale and the offsets of the normalisation: the sign of the samples in it
				s = [value(diff(x, 'f[%d]' % i), at) for i, x in enumerate(r)]
				lo, hi = sorted(range(4), key=lambda i: value(poly(f.flat[i]), at))[::3]
				mid = [i for i in range(4) if i not in (lo, hi)]
				if len(r) != 4 or any(abs(s[i]) < 1e-12 for i in mid):
					raise Cannot('misfit not understood')
				if len({x > 0 for x in (s[i] for i in mid)}) > 1:
					raise Cannot('samples enter with several signs')
				if s[mid[0]] > 0:
					r = [-x for x in r]
				posed(ck, con, prob, Arr((4,), r), INF if norm == 'inf' else norm, bound, at)
			tried(ck, 'norm', con2, affine)


class Stand(Obj):
	"""an object of the analysis that can be called"""

	def __call__(self, *a, **k):
		return self.attrs['@call'](*a, **k)


def solver(ck, P):
	"""sequential linear programming: norm and bounds of the linearised problem"""
	f = P.func('psdr.seqlp.sequential_lp')
	confs = [(n, {}) for n in (1, 2, INF, 'hinge')]
	confs += [(n, b) for n in (1, 2, INF) for b in ({'obj_lb': 1}, {'obj_ub': 1}, {'obj_lb': 1, 'obj_ub': 1})]
	confs += [(2, {'con_lb': 1}), (2, {'con_ub': 1}), (1, {'con_lb': 1, 'con_ub': 1}), (INF, {'domain': 1}), (2, {'search': 1})]
	for norm, opts in confs:
		for round_ in ('first', 'trust region'):
			con = 'sequential_lp, norm %s%s, %s problem' % (norm, ''.join(', ' + k for k in sorted(opts)), round_)

			def go(norm=norm, opts=opts, con=con, round_=round_):
				cv = Solve('optimal' if round_ == 'first' else 'unbounded')
				h = cv.hooks()
				build = h['cvxpy.Problem']

				def problem(I, args, kw):
					o = build(I, args, kw)
					act = o.attrs['solve']

					def solve(*a, **k):
						act(*a, **k)
						if len(cv.problems) == (1 if round_ == 'first' else 2):
							raise Raised('@stop')
					o.attrs['solve'] = solve
					return o
				h['cvxpy.Problem'] = problem
				I = Interp(P, h, steps=300000)
				at = CELL[0] = Values()
				n, M = 2, 3
				x0, fx, J = symbols('x', (n,)), symbols('f', (M,)), symbols('J', (M, n))
				kw = {'norm': norm, 'maxiter': 2, 'bt_maxiter': 3}
				lo, hi, g, gg = symbols('lo', (M,)), symbols('hi', (M,)), Poly.var('g'), symbols('dg', (n,))
				seen = {}
				if 'obj_lb' in opts:
					kw['obj_lb'] = lo
				if 'obj_ub' in opts:
					kw['obj_ub'] = hi
				at['cl'], at['cu'] = -5., 7.
				for i in range(M):
					at['lo[%d]' % i], at['hi[%d]' % i] = -6. + .3 * i, 6. + .4 * i
				if 'con_lb' in opts or 'con_ub' in opts:
					kw['constraints'], kw['constraint_grads'] = [lambda x: g], [lambda x: Arr(gg.shape, gg.flat)]
					if 'con_lb' in opts:
						kw['constraints_lb'] = [Poly.var('cl')]
					if 'con_ub' in opts:
						kw['constraints_ub'] = [Poly.var('cu')]

				def dom(x):
					seen['x'] = to_arr(x)
					return [Obj('constraint', {'op': 'LtE', 'l': x, 'r': symbols('u', (n,))})]
				kw['domain'] = Obj('domain', {'_build_constraints': dom if 'domain' in opts else lambda x: []})
				if 'search' in opts:
					kw['search_constraints'] = lambda x, p: [Obj('constraint', {'op': 'LtE', 'l': p, 'r': symbols('s', (n,))})]
				try:
					I.call(Fn(f, f.node, None, None), [lambda x: Arr(fx.shape, fx.flat), x0, lambda x: Arr(J.shape, J.flat)], kw)
				except Raised as e:
					if e.name != '@stop':
						raise
				prob = last(cv)
				vs = sorted({v for v in unknowns([poly(x) for x in objective(prob)[2].flat])})
				if len(vs) != n:
					raise Cannot('search direction')
				p = Arr((n,), [Poly.var(v) for v in vs])
				lin = arr.elementwise(lambda a, b: poly(a) + poly(b), fx, dot(J, p))
				exp = []
				if 'obj_lb' in opts:
					exp += [('nonneg', [poly(a) - poly(b)], 1) for a, b in zip(lin.flat, lo.flat)]
				if 'obj_ub' in opts:
					exp += [('nonneg', [poly(b) - poly(a)], 1) for a, b in zip(lin.flat, hi.flat)]
				glin = g + poly(to_arr(dot(gg, p)).flat[0] if isinstance(dot(gg, p), Arr) else dot(gg, p))
				if 'con_lb' in opts:
					exp.append(('nonneg', [glin - Poly.var('cl')], 1))
				if 'con_ub' in opts:
					exp.append(('nonneg', [Poly.var('cu') - glin], 1))
				if 'domain' in opts:
					exp += [('nonneg', [poly(u) - poly(a) - poly(b)], 1) for a, b, u in zip(x0.flat, p.flat, symbols('u', (n,)).flat)]
				if 'search' in opts:
					exp += [('nonneg', [poly(u) - poly(b)], 1) for b, u in zip(p.flat, symbols('s', (n,)).flat)]
				cons = prob['constraints']
				if round_ != 'first':
					# the radius of the trust region is one more
					cons = [c for c in cons if not (isinstance(c, Obj) and isinstance(c.attrs.get('l'), Obj) and c.attrs['l'].attrs.get('fn') == 'norm2')]
				posed(ck, con, {'objective': prob['objective'], 'constraints': []}, lin, norm, None, at)
				constraints(ck, 'bound', con + ': inequalities', {'constraints': cons}, exp, at)
			tried(ck, 'norm', con, go)


def samples_bound(ck, P):
	"""the alternating ridge fit hands the solver the bound on the side it names"""
	from .f02 import Fit
	for norm in (1, 2, INF):
		for bound in BOUNDS:
			con = 'alternating ridge fit, norm %s, bound %s' % (norm, bound)

			def go(norm=norm, bound=bound, con=con):
				r = Fit(P, norm, bound, 'legendre', 1, 2, 3)
				d = r.captured
				if d.get('@solver') == 'gauss_newton':
					return ck.verdict('norm', con, norm == 2 and bound is None, 'Gauss-Newton minimises the 2-norm without a bound')
				if '@solver' not in d:
					raise Cannot('no solver reached')
				ck.verdict('norm', con, d.get('norm', 2) == norm, 'the solver is given the norm')
				U = symbols('u', (2, 1))
				x = Arr((2 + r.N,), list(U.flat) + [Poly.var('cc%d' % i) for i in range(r.N)])
				res = to_arr(r.I.call(d.get('f', d.get('residual')), [x], {}))
				sg = [diff(poly(v), 'f[%d]' % i) for i, v in enumerate(res.flat)]
				if len(sg) != 3 or not (all(equal(s_, ONE) for s_ in sg) or all(equal(s_, -ONE) for s_ in sg)):
					raise Cannot('misfit')
				flip = equal(sg[0], ONE)
				lo, hi = d.get('obj_lb'), d.get('obj_ub')
				if flip:
					lo, hi = hi, lo
				zero = lambda v: v is not None and all(equal(poly(z), ZERO) for z in to_arr(v).flat)
				want_lo, want_hi = bound == 'upper', bound == 'lower'
				good = (zero(lo) if want_lo else lo is None) and (zero(hi) if want_hi else hi is None)
				ck.verdict('bound', con, good, 'the misfit is kept on the side of the bound')
			tried(ck, 'bound', con, go)


def bases(ck, P):
	for name, cls in sorted(BASES.items()):
		for label in ('PolynomialApproximation', 'PolynomialRidgeApproximation'):
			for degree in (2, 3):
				con = '%s, %s, degree %d' % (label, name, degree)

				def go(name=name, cls=cls, label=label, degree=degree, con=con):
					cv, built = Solve(), []
					h = cv.hooks()
					with_bases(P, h, built)
					I = Interp(P, h, steps=300000)
					CELL[0] = Values()
					if label == 'PolynomialApproximation':
						me = I.new(P.cls('psdr.' + label), [degree], {'basis': name})
						I.call(I.attr(me, 'fit'), [symbols('x', (3, 1)), symbols('f', (3,))], {})
					else:
						me = I.new(P.cls('psdr.' + label), [degree, 1], {'basis': name, 'rotate': False})
						I.call(I.attr(me, 'fit_fixed_subspace'), [symbols('x', (3, 2)), symbols('f', (3,)), getitem(frame(2), (slice(None), slice(0, 1)))], {})
					if not built:
						raise Cannot('no basis built')
					got = built[-1]
					ck.verdict('basis', con, got[0] == cls and num(poly(got[1].get('degree', -1))) == degree, '%s of degree %s' % (got[0], got[1].get('degree')))
				tried(ck, 'basis', con, go)


def refuse(ck, con, go):
	try:
		v = go()
		ck.bad('rejected', con, 'a result (%s) is produced' % type(v).__name__)
	except Raised as e:
		ck.ok('rejected', con, 'raises %s' % e.name)
	except FAIL as e:
		ck.unknown('rejected', con, 'not analysed: %s' % e)
	finally:
		CELL[0] = None


def rejected(ck, P):
	def machine():
		cv, built = Solve(), []
		h = cv.hooks()
		with_bases(P, h, built)
		h['scipy.special.comb'] = lambda I, a, k: -1000
		for f in P.all_functions():
			if f.short in ('gn.gauss_newton', 'seqlp.sequential_lp'):
				h[f.short] = lambda I, fn, a, k: (a[1], {}) if fn.f.short.startswith('gn') else a[1]
		I = Interp(P, h, steps=300000)
		CELL[0] = Values()
		return I
	X, f = symbols('x', (3, 2)), symbols('f', (3,))
	lf = P.func('psdr.poly.linear_fit')
	for k, v in (('norm', 3), ('norm', 'one'), ('bound', 'both'), ('bound', True)):
		refuse(ck, 'linear_fit, %s %r' % (k, v), lambda: machine().call(Fn(lf, lf.node, None, None), [symbols('A', (3, 2)), f], {k: v}))

	def poly_fit(kw):
		I = machine()
		me = I.new(P.cls('psdr.PolynomialApproximation'), [2], kw)
		I.call(I.attr(me, 'fit'), [X, f], {})
		return I.attr(me, 'coef')

	def ridge_fit(kw, dim=1, degree=2):
		I = machine()
		me = I.new(P.cls('psdr.PolynomialRidgeApproximation'), [degree, dim], kw)
		if degree == 1:
			I.call(I.attr(me, 'fit'), [X, f], {})
		else:
			I.call(I.attr(me, 'fit_fixed_subspace'), [X, f, getitem(frame(2), (slice(None), slice(0, 1)))], {})
		return I.attr(me, 'coef')
	for k, v in (('basis', 'fourier'), ('norm', 3), ('bound', 'both')):
		refuse(ck, 'PolynomialApproximation, %s %r' % (k, v), lambda: poly_fit({k: v}))
		refuse(ck, 'PolynomialRidgeApproximation, %s %r' % (k, v), lambda: ridge_fit({k: v}))
		refuse(ck, 'PolynomialRidgeApproximation, affine, %s %r' % (k, v), lambda: ridge_fit({k: v}, degree=1))
	sl = P.func('psdr.seqlp.sequential_lp')

	def slp(norm):
		# through the first problem
		I = Interp(P, Solve().hooks(), steps=300000)
		CELL[0] = Values()
		fx, J = symbols('f', (3,)), symbols('J', (3, 2))
		return I.call(Fn(sl, sl.node, None, None), [lambda x: Arr(fx.shape, fx.flat), symbols('x', (2,)), lambda x: Arr(J.shape, J.flat)], {'norm': norm, 'maxiter': 1, 'bt_maxiter': 1, 'domain': Obj('domain', {'_build_constraints': lambda x: []})})
	for v in (3, 'two'):
		refuse(ck, 'sequential_lp, norm %r' % v, lambda: slp(v))

	def lip(cls, kw):
		I = machine()
		me = I.new(P.cls(cls), [], kw)
		for n in ('cvxpy', 'cvxopt', 'param'):
			if me.cls.lookup('_build_lipschitz_matrix_' + n):
				me.attrs['_build_lipschitz_matrix_' + n] = lambda *a, **k: symbols('h', (2, 2))
		I.call(I.attr(me, 'fit'), [X, f], {})
		return I.attr(me, 'L')
	for cls in ('psdr.LipschitzMatrix', 'psdr.DiagonalLipschitzMatrix'):
		refuse(ck, '%s, method %r' % (cls[5:], 'mosek'), lambda: lip(cls, {'method': 'mosek'}))

	def gp(kw):
		I = machine()
		I.hooks['scipy.optimize.minimize'] = lambda I, a, k: Obj('result', {'x': symbols('e', (1,))})
		me = I.new(P.cls('psdr.GaussianProcess'), [], kw)
		I.call(I.attr(me, 'fit'), [X, f], {})
		return I.attr(me, 'L')
	refuse(ck, 'GaussianProcess, structure %r' % 'triu', lambda: gp({'structure': 'triu'}))
	refuse(ck, 'GaussianProcess, scalar multiple of nothing', lambda: gp({'structure': 'scalar_mult'}))

	def quad():
		I = machine()
		return rule(I, P, 5, 'simpson')[0]
	refuse(ck, 'quadrature_rule, method %r' % 'simpson', quad)
	st = P.func('psdr.study.subspace_convergence')
	refuse(ck, 'subspace_convergence, data %r' % 'hessian', lambda: study(P, 'hessian'))
	refuse(ck, 'RidgeChanceConstraint, mode %r' % 'middle', lambda: chance(P, 'middle'))
	refuse(ck, 'Borehole, domain %r' % 'box', lambda: borehole(P, 'box'))
	sc = P.func('psdr.pgf.save_contour')

	def contour():
		I = machine()
		fh = Obj('file', {'write': lambda s_: None, '__exit__': lambda *a: None})
		fh.attrs['__enter__'] = lambda *a: fh
		I.hooks['builtins.open'] = lambda I, a, k: fh
		I.call(Fn(sc, sc.node, None, None), ['name', Obj('contours', {'collections': [], 'levels': []})], {'fmt': 'svg'})
		return 'file'
	refuse(ck, 'save_contour, format %r' % 'svg', contour)


def rule(I, P, N, method, dim=2):
	calls = []

	def gauss(I, fn, args, kw):
		d = dict(zip([a.arg for a in fn.node.args.args], args))
		d.update(kw)
		n = int(value(poly(d.get('N')), {}))
		k = len(calls)
		calls.append((n, d.get('a'), d.get('b')))
		return (symbols('node%d_' % k, (n,)), symbols('weight%d_' % k, (n,)))
	I.hooks[P.func('psdr.quadrature.gauss').short] = gauss
	b = P.cls('psdr.BoxDomain')
	for nm, v in (('sample', lambda n=1, *a, **k: symbols('draw', (int(value(poly(n), {})), dim))), ('isinside', lambda X, *a, **k: Arr((to_arr(X).shape[0],), [True] * to_arr(X).shape[0])), ('volume', lambda *a, **k: Poly.var('volume'))):
		if b.lookup(nm) is None:
			raise Cannot(nm)
	lo, hi = symbols('lb', (dim,)), symbols('ub', (dim,))
	for i in range(dim):
		CELL[0]['lb[%d]' % i], CELL[0]['ub[%d]' % i] = -1. - i, 2. + i
	me = I.new(b, [lo, hi], {})
	me.attrs['sample'] = lambda draw=1, *a, **k: symbols('draw', (int(value(poly(draw), {})), dim))
	me.attrs['isinside'] = lambda X, *a, **k: Arr((to_arr(X).shape[0],), [True] * to_arr(X).shape[0])
	me.attrs['volume'] = lambda *a, **k: Poly.var('volume')
	out = I.call(I.attr(me, 'quadrature_rule'), [N], {'method': method} if method else {})
	return out, calls, lo, hi


def quadrature(ck, P):
	for method, N, want in (('gauss', 5, 'gauss'), ('gauss', 9, 'gauss'), ('montecarlo', 5, 'montecarlo'), ('auto', 3, 'montecarlo'), ('auto', 6, 'gauss'), (None, 6, 'gauss')):
		con = 'quadrature, method %s, %d points' % (method, N)

		def go(method=method, N=N, want=want, con=con):
			I = Interp(P, {'builtins.print': lambda I, a, k: None}, steps=400000)
			CELL[0] = Values()
			out, calls, lo, hi = rule(I, P, N, method)
			if not isinstance(out, tuple) or len(out) != 2:
				return ck.bad('rule', con, 'no pair of points and weights')
			X, w = to_arr(out[0]), to_arr(out[1])
			if want == 'montecarlo':
				if calls:
					return ck.bad('rule', con, 'a Gauss rule is used')
				good = X.shape == (N, 2) and all(equal(poly(a), poly(b)) for a, b in zip(X.flat, symbols('draw', (N, 2)).flat)) and w.shape == (N,)
				same = good and all(equal(poly(v), Poly.var('volume') * Poly.const(Fr(1, N))) for v in w.flat)
				near = good and all(abs(value(poly(v), dict(CELL[0], volume=3.)) - 3. / N) < 1e-9 for v in w.flat)
				return ck.verdict('rule', con, same or near, 'draws with equal shares of the volume')
			if not calls:
				return ck.bad('rule', con, 'no Gauss rule is used')
			ends = all(equal(poly(c[1]), poly(lo.flat[i % 2])) and equal(poly(c[2]), poly(hi.flat[i % 2])) for i, c in enumerate(calls))
			q = 1
			while (q + 1) ** 2 <= N:
				q += 1
			if X.shape != (q * q, 2) or w.shape != (q * q,):
				return ck.bad('rule', con, '%r points for a tensor rule of %d by %d' % (X.shape, q, q))
			# which pair of nodes is each row
			seen = set()
			for r in range(q * q):
				p = None
				for k in range(0, len(calls), 2):
					for a in range(q):
						for b in range(q):
							if equal(poly(X.flat[2 * r]), Poly.var('node%d_[%d]' % (k, a))) and equal(poly(X.flat[2 * r + 1]), Poly.var('node%d_[%d]' % (k + 1, b))):
								p = (k, a, b)
				if p is None:
					return ck.bad('rule', con, 'point %d is not a pair of nodes, one per coordinate' % r)
				seen.add(p)
				if not equal(poly(w.flat[r]), Poly.var('weight%d_[%d]' % (p[0], p[1])) * Poly.var('weight%d_[%d]' % (p[0] + 1, p[2]))):
					return ck.bad('rule', con, 'the weight of point %d is not the product of the weights of its nodes' % r)
			ck.verdict('rule', con, ends and len(seen) == q * q, 'every pair of nodes over the bounds of the domain, once')
		tried(ck, 'rule', con, go)
	g = P.func('psdr.quadrature.gauss')

	def nodes():
		I = Interp(P, {}, steps=200000)
		CELL[0] = Values()
		a, b = Poly.var('a'), Poly.var('b')
		CELL[0].update(a=-1.5, b=2.)
		for n in (1, 2, 3):
			I.factors = []
			x, w = I.call(Fn(g, g.node, None, None), [n, a, b], {})
			e = [f for f in I.factors if f['kind'] == 'eigh']
			if not e:
				raise Cannot('no factorisation')
			J, V, ew = e[-1]['arg'], e[-1]['V'], e[-1]['w']
			con = 'gauss, %d nodes' % n
			want = [Poly.const(0) if abs(i - j) != 1 else power_(max(i, j)) for i in range(n) for j in range(n)]
			near = J.shape == (n, n) and all(abs(value(poly(p), {}) - q) < 1e-9 for p, q in zip(J.flat, [0. if abs(i - j) != 1 else max(i, j) / (4. * max(i, j) ** 2 - 1) ** .5 for i in range(n) for j in range(n)]))
			half = (b - a) * Poly.const(Fr(1, 2))
			at = dict(CELL[0])
			xs = all(abs(value(poly(p) - (a + half * (ONE + poly(v))), at)) < 1e-9 for p, v in zip(to_arr(x).flat, ew.flat))
			ws = all(abs(value(poly(p) - half * Poly.const(2) * poly(V.flat[k]) * poly(V.flat[k]), at)) < 1e-9 for k, p in enumerate(to_arr(w).flat))
			ck.verdict('rule', con, near and xs and ws, 'nodes and weights from the recurrence of the Legendre polynomials, scaled to the interval')
	tried(ck, 'rule', 'gauss', nodes)


def power_(k):
	return Poly.const(k)


def structures(ck, P):
	cls = P.cls('psdr.GaussianProcess')
	m = 2
	for st, n in (('const', 1), ('scalar_mult', 1), ('diag', m), ('tril', m * (m + 1) // 2)):
		con = 'GaussianProcess, structure %s' % st

		def go(st=st, n=n, con=con):
			got, exps = {}, []

			def minimize(I, args, kw):
				d = dict(zip(['fun', 'x0'], args))
				d.update(kw)
				got['x0'] = to_arr(d['x0'])
				raise Raised('@stop')

			def expm(I, args, kw):
				exps.append(to_arr(args[0]))
				return symbols('expm', (m, m))
			I = Interp(P, {'scipy.optimize.minimize': minimize, 'scipy.linalg.expm': expm}, steps=200000)
			F = symbols('F', (m, m))
			me = I.new(cls, [], {'structure': st, 'Lfixed': F})
			CELL[0] = Values()
			try:
				I.call(I.attr(me, 'fit'), [symbols('x', (3, m)), symbols('y', (3,))], {})
			except Raised as e:
				if e.name != '@stop':
					raise
			if 'x0' not in got:
				raise Cannot('no search')
			ck.verdict('structure', con + ': parameters', len(got['x0'].flat) == n, '%d parameters' % len(got['x0'].flat))
			ell = symbols('e', (n,))
			L = to_arr(I.call(I.attr(me, '_make_L'), [ell], {}))
			at = dict(CELL[0])
			if L.shape != (m, m):
				return ck.bad('structure', con, 'shape %r' % (L.shape,))
			if st == 'tril':
				if not exps or not all(equal(poly(a), poly(b)) for a, b in zip(L.flat, symbols('expm', (m, m)).flat)):
					raise Cannot('not a matrix exponential')
				A = exps[-1]
				up = all(equal(poly(A.flat[i * m + j]), ZERO) for i in range(m) for j in range(i + 1, m))
				low = sorted(v for i in range(m) for j in range(i + 1) for v in [str(sorted(poly(A.flat[i * m + j]).atoms()))])
				return ck.verdict('structure', con, up and len(set(low)) == n, 'exponential of a lower triangular matrix with one parameter per entry')
			import math
			e = [math.exp(CELL[0]['e[%d]' % i]) for i in range(n)]
			for i in range(m):
				for j in range(m):
					want = {'const': e[0] * (i == j), 'scalar_mult': e[0] * value(poly(F.flat[i * m + j]), CELL[0]), 'diag': e[i % n] * (i == j)}[st]
					if abs(value(poly(L.flat[i * m + j]), CELL[0]) - want) > 1e-9:
						return ck.bad('structure', con, 'entry %d,%d is not what the structure says' % (i, j))
			ck.ok('structure', con, 'exponential of the parameters on the structure')
		tried(ck, 'structure', con, go)


def study(P, data):
	f = P.func('psdr.study.subspace_convergence')
	log = []
	X, fX, G = symbols('x', (3, 2)), symbols('f', (3,)), symbols('g', (3, 2))
	fun = Stand('fun', {'@call': lambda *a, **k: fX, 'grad': lambda *a, **k: G})
	sdr = Obj('sdr', {'fit': lambda *a, **k: log.append((a, k)), 'U': frame(2)})
	I = Interp(P, {'scipy.linalg.subspace_angles': lambda I, a, k: symbols('angle', (1,))}, steps=100000)
	CELL[0] = Values()
	out = I.call(Fn(f, f.node, None, None), [sdr, fun, lambda d, n: X, [3, 3]], {'domain': Obj('domain', {'@len': 2}), 'data': data})
	return out, log, X, fX, G


def chance(P, mode):
	cls = P.cls('psdr.duu.RidgeChanceConstraint')
	seen = []

	def pct(I, args, kw):
		seen.append(args[1] if len(args) > 1 else kw['q'])
		return Poly.var('percentile')
	I = Interp(P, {'numpy.percentile': pct}, steps=100000)
	CELL[0] = Values()
	CELL[0]['prob'] = .05
	dom = lambda: Obj('domain', {'@len': 1, 'normalized_domain': lambda: Obj('domain', {'@len': 1}), 'sample': lambda n=1: symbols('s', (3, 1)), 'normalize': lambda X: X})
	pra = Obj('pra', {'U': symbols('u', (2, 1))})
	me = I.new(cls, [dom(), dom(), pra, Poly.var('threshold')], {'mode': mode, 'prob': Poly.var('prob')})
	v = I.call(I.attr(me, 'empirical_safety_factor_1d'), [], {})
	return v, seen


def borehole(P, which):
	cls = P.cls('psdr.demos.Borehole') or P.cls('psdr.demos.borehole.Borehole')
	got = {}
	init = P.cls('psdr.Function').lookup('__init__')[1]

	def grab(I, fn, args, kw):
		names = [a.arg for a in fn.node.args.args]
		if fn.me is None and names[:1] == ['self']:
			args = args
		d = dict(zip(names if len(args) and isinstance(args[0], Obj) and not isinstance(args[0].cls, str) else names[1:], args))
		d.update(kw)
		got.update(d)
	h = {init.short: grab}
	for n in ('build_borehole_domain', 'build_borehole_uncertain_domain'):
		h[P.func('psdr.demos.borehole.' + n).short] = lambda I, fn, a, k, n=n: Obj(n, {})
	I = Interp(P, h, steps=100000)
	I.new(cls, [], {'domain': which})
	return got.get('domain')


def modes(ck, P):
	for data in ('eval', 'grad'):
		con = 'subspace_convergence, data %s' % data

		def go(data=data, con=con):
			out, log, X, fX, G = study(P, data)
			if len(log) != 2:
				return ck.bad('mode', con, '%d fits for 2 sizes' % len(log))
			a, k = log[-1]
			same = lambda u, v: u is not None and to_arr(u).shape == v.shape and all(equal(poly(p), poly(q)) for p, q in zip(to_arr(u).flat, v.flat))
			if a:
				raise Cannot('positional')
			if data == 'eval':
				good = same(k.get('X'), X) and same(k.get('fX'), fX) and k.get('grads') is None
			else:
				good = same(k.get('grads'), G) and k.get('fX') is None
			ck.verdict('mode', con, good, 'fitted to the kind of data named')
		tried(ck, 'mode', con, go)
	for mode in ('upper', 'lower'):
		con = 'RidgeChanceConstraint, mode %s' % mode

		def go(mode=mode, con=con):
			v, seen = chance(P, mode)
			if not seen:
				raise Cannot('no percentile')
			p = value(poly(seen[-1]), {'prob': .05})
			ck.verdict('mode', con, abs(p - (95 if mode == 'upper' else 5)) < 1e-9, 'percentile %g for a probability of 0.05' % p)
		tried(ck, 'mode', con, go)
	for which, want in (('deterministic', 'build_borehole_domain'), ('uncertain', 'build_borehole_uncertain_domain')):
		con = 'Borehole, domain %s' % which

		def go(which=which, want=want, con=con):
			d = borehole(P, which)
			if d is None:
				raise Cannot('no domain')
			ck.verdict('mode', con, d.cls == want, 'domain from %s' % d.cls)
		tried(ck, 'mode', con, go)
	ll = [f for f in P.all_functions() if f.node.name == 'local_linear_grads']
	for bw in ('xia', 'number', None):
		con = 'OuterProductGradient, bandwidth %s' % bw

		def go(bw=bw, con=con):
			got = {}

			def grab(I, fn, args, kw):
				d = dict(zip([a.arg for a in fn.node.args.args], args))
				d.update(kw)
				got.update(d)
				raise Raised('@stop')
			I = Interp(P, {f.short: grab for f in ll}, steps=100000)
			CELL[0] = Values()
			me = I.new(P.cls('psdr.OuterProductGradient'), [], {'bandwidth': Poly.var('bw') if bw == 'number' else bw, 'standardize': False})
			X = symbols('x', (5, 2))
			try:
				I.call(I.attr(me, 'fit'), [X, symbols('f', (5,))], {})
			except Raised as e:
				if e.name != '@stop':
					raise
			b = got.get('bandwidth')
			if bw is None:
				return ck.verdict('mode', con, b is None, 'left to the perplexity')
			if b == 'xia':
				return ck.verdict('mode', con, bw == 'xia', 'handed on')
			if b is None:
				return ck.bad('mode', con, 'the bandwidth is dropped')
			v = value(poly(b), CELL[0])
			ck.verdict('mode', con, abs(v - (2.34 * 5 ** (-1. / 9) if bw == 'xia' else CELL[0]['bw'])) < 1e-9, 'bandwidth %g' % v)
		tried(ck, 'mode', con, go)
	L = P.func('psdr.local_linear.local_linear')
	for bw in ('xia', 'number'):
		con = 'local_linear, bandwidth %s' % bw

		def go(bw=bw, con=con):
			sw = []

			def lstsq(I, args, kw):
				sw.append((to_arr(args[0]), to_arr(args[1])))
				return (symbols('a', (3, 1)), None, None, None)
			I = Interp(P, {'scipy.linalg.lstsq': lstsq, 'numpy.linalg.lstsq': lstsq}, steps=100000)
			at = CELL[0] = Values()
			X, f = symbols('x', (4, 2)), symbols('f', (4,))
			xt = symbols('t', (1, 2))
			I.call(Fn(L, L.node, None, None), [X, f], {'bandwidth': Poly.var('bw') if bw == 'number' else bw, 'Xt': xt})
			if not sw:
				raise Cannot('no least squares')
			A = sw[0][0]
			import math
			b = 2.34 * 4 ** (-1. / 9) if bw == 'xia' else at['bw']
			r = []
			for i in range(4):
				d = sum((value(poly(X.flat[2 * i + k]), at) - value(poly(xt.flat[k]), at)) ** 2 for k in range(2))
				r.append(math.log(value(poly(A.flat[3 * i]), at)) / d if d else 0)
			# the weight is an exponential in minus the squared distance with the same positive rate everywhere
			r = [-x for x in r]
			if max(r) - min(r) > 1e-9 or r[0] <= 0:
				return ck.bad('mode', con, 'weights are not a decreasing exponential of the squared distance')
			ck.verdict('mode', con, abs(r[0] - b / 4) < 1e-9, 'rate %g for bandwidth %g' % (r[0], b))
		tried(ck, 'mode', con, go)


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	for c in ('psdr.PolynomialApproximation', 'psdr.PolynomialRidgeApproximation', 'psdr.GaussianProcess', 'psdr.LipschitzMatrix'):
		if P.cls(c) is None:
			raise AnalysisBroken('%s is gone' % c)
	fits(ck, P)
	surfaces(ck, P)
	solver(ck, P)
	samples_bound(ck, P)
	bases(ck, P)
	structures(ck, P)
	quadrature(ck, P)
	modes(ck, P)
	rejected(ck, P)
