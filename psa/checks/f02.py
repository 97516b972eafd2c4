"""F02: gradients are taken with respect to the coordinates the function is called in."""
from ..loader import AnalysisBroken
from ..arr import Interp, Fn, Obj, Arr, Ext, Cannot, Raised, CELL, symbols, to_arr, poly, num, integer, reshape
from ..formula import OPS, Poly, ZERO, ONE, diff, div, equal, TooBig, Undefined, show, frac
from . import f01

RULES = [
	('basis', 'each entry of the derivative of a polynomial basis is the derivative of the basis with respect to the unscaled coordinate, first and second order', 400),
	('product', 'the basis evaluated times coefficients is the basis matrix times the coefficients', 8),
	('arnoldi', 'the same for a basis orthogonalised on its samples; the recurrence evaluates the same polynomials on new points', 12),
	('polynomial', 'value, gradient and Hessian of a polynomial belong together, for single points and for rows of points', 12),
	('ridge', 'a ridge function is its profile at the projected point; gradient and Hessian are lifted by the same matrix', 24),
	('jacobian', 'the Jacobians used to fit a ridge function are the derivatives of the residuals they are paired with, row-major in the subspace', 6),
	('direction', 'the slope of an affine fit in scaled coordinates is turned into the slope in the coordinates of the samples', 1),
	('local', 'a local linear model is fitted to the samples with the same weight on both sides, smaller the further the sample, and its gradient is the slope of that model', 6),
	('normalised', 'gradients of wrapped functions are scaled once by the derivative of the change of coordinates, in every gradient mode', 40),
]
FAIL = (Cannot, Undefined, TooBig, RecursionError)
FAMILY = {'monomial': ('poly', 'polynomial'), 'legendre': ('leg', 'legendre'), 'chebyshev': ('cheb', 'chebyshev'), 'hermite': ('herm', 'hermite'), 'laguerre': ('lag', 'laguerre')}
CLASS = {'monomial': 'MonomialTensorBasis', 'legendre': 'LegendreTensorBasis', 'chebyshev': 'ChebyshevTensorBasis', 'hermite': 'HermiteTensorBasis', 'laguerre': 'LaguerreTensorBasis'}
BASES = list(CLASS.values()) + ['ArnoldiPolynomialBasis']


def values(fam, x, n):
	"""p_0..p_n of the family at x, by the three-term recurrence"""
	c = Poly.const
	out = [ONE, {'poly': x, 'leg': x, 'cheb': x, 'herm': c(2) * x, 'lag': ONE - x}[fam]]
	for k in range(1, n):
		p, q = out[-1], out[-2]
		out.append({
			'poly': lambda: x * p,
			'leg': lambda: (c(2 * k + 1) * x * p - c(k) * q) * c(frac(1) / (k + 1)),
			'cheb': lambda: c(2) * x * p - q,
			'herm': lambda: c(2) * x * p - c(2 * k) * q,
			'lag': lambda: ((c(2 * k + 1) - x) * p - c(k) * q) * c(frac(1) / (k + 1)),
		}[fam]())
	return out[:n + 1]


def derivative(fam, c, m=1):
	"""coefficients of the m-th derivative in the same family (same lengths as numpy's)"""
	c = [poly(x) for x in c]
	K = Poly.const
	if m >= len(c):
		return [ZERO]
	for _ in range(m):
		n = len(c) - 1
		d = [ZERO] * n
		if fam == 'poly':
			for j in range(n, 0, -1):
				d[j - 1] = K(j) * c[j]
		elif fam == 'herm':
			for j in range(n, 0, -1):
				d[j - 1] = K(2 * j) * c[j]
		elif fam == 'leg':
			for j in range(n, 0, -1):
				d[j - 1] = K(2 * j - 1) * c[j]
				if j > 1:
					c[j - 2] = c[j - 2] + c[j]
		elif fam == 'cheb':
			for j in range(n, 0, -1):
				d[j - 1] = K(2 * j) * c[j] if j > 1 else c[j]
				if j > 2:
					c[j - 2] = c[j - 2] + c[j] * K(frac(j) / (j - 2))
		elif fam == 'lag':
			for j in range(n, 0, -1):
				d[j - 1] = -c[j]
				c[j - 1] = c[j - 1] + c[j]
		c = d
	return c


def vander(fam):
	def go(I, args, kw):
		x, n = to_arr(args[0]), integer(args[1] if len(args) > 1 else kw['deg'])
		return Arr(x.shape + (n + 1,), [p for e in x.flat for p in values(fam, poly(e), n)])
	return go


def der(fam):
	def go(I, args, kw):
		c = to_arr(args[0])
		m = integer(args[1] if len(args) > 1 else kw.get('m', 1))
		if len(c.shape) != 1:
			raise Cannot('derivative of several polynomials')
		out = derivative(fam, c.flat, m)
		return Arr((len(out),), out)
	return go


def extreme(name, short):
	def go(I, args, kw):
		a = to_arr(args[0])
		if all(num(x) is not None for x in a.flat):
			return I.np(name, args, kw)
		if set(kw) - {'axis'}:
			raise Cannot('option of ' + name)
		ax = args[1] if len(args) > 1 else kw.get('axis')
		if ax is None:
			return Poly.var(short)
		ax = integer(ax) % len(a.shape)
		return symbols('%s%d' % (short, ax), [s for i, s in enumerate(a.shape) if i != ax])
	return go


def same_array(I, args, kw):
	a, b = to_arr(args[0]), to_arr(args[1])
	return a.shape == b.shape and all(poly(x).key() == poly(y).key() for x, y in zip(a.flat, b.flat))


def hooks():
	h = {}
	for fam, mod in FAMILY.values():
		for n, mk in (('vander', vander), ('der', der)):
			h['numpy.polynomial.%s.%s%s' % (mod, fam, n)] = mk(fam)
		h['numpy.polynomial.%s.%sroots' % (mod, fam)] = lambda I, a, k: Ext('roots')
	for n, s in (('min', 'lb'), ('amin', 'lb'), ('max', 'ub'), ('amax', 'ub'), ('mean', 'mu'), ('std', 'sd')):
		h['numpy.' + n] = extreme(n, s)
	h['numpy.array_equal'] = same_array
	return h


def make(P, name, degree, dim, scaled):
	cls = P.cls('psdr.' + name)
	I = Interp(P, hooks())
	if scaled:
		o = I.new(cls, [degree], {'X': symbols('t', (3, dim))})
	else:
		o = I.new(cls, [degree], {'dim': dim})
	return I, o


def call(I, o, name, *args, **kw):
	OPS[0] = 0
	return to_arr(I.call(I.attr(o, name), args, kw))


def copy(a):
	return Arr(a.shape, a.flat)


def xname(i, k):
	return 'x[%d,%d]' % (i, k)


def entrywise(ck, rule, con, got, want):
	"""want: {index: formula}"""
	for idx, w in want.items():
		c = '%s %s' % (con, ','.join(map(str, idx)))
		try:
			g = got
			k = 0
			for s, i in zip(got.shape, idx):
				k = k * s + i
			g = poly(got.flat[k])
			ck.verdict(rule, c, equal(g, w), 'is %s where the derivative is %s' % (show(g, 4)[:150], show(w, 4)[:150]))
		except FAIL as e:
			ck.unknown(rule, c, '%s %s' % (type(e).__name__, e))


def tried(ck, rule, con, fn):
	"""run fn; a definite exception in the interpreted code is a violation"""
	try:
		return fn()
	except Raised as e:
		# the fits run against stand-ins for the basis and the domain, whose gaps are no defect of the code
		(ck.unknown if rule in ('jacobian', 'direction') else ck.bad)(rule, con, 'raises %s' % e.name)
	except FAIL as e:
		ck.unknown(rule, con, '%s %s' % (type(e).__name__, e))
	return None


def shaped(ck, rule, con, a, shape):
	if a is None:
		return False
	if a.shape != tuple(shape):
		ck.bad(rule, con, 'shape %s where %s is documented' % (a.shape, tuple(shape)))
		return False
	return True


def basis(ck, P, tier):
	sizes = [(0, 1), (1, 1), (3, 1), (0, 2), (1, 2), (2, 2), (2, 3)] + ([(4, 1), (3, 2), (3, 3)] if tier == 'thorough' else [(3, 2)])
	for fam, name in CLASS.items():
		for scaled in (False, True):
			for degree, dim in sizes:
				con = '%s degree %d of %d variables%s' % (fam, degree, dim, ' scaled' if scaled else '')
				r = tried(ck, 'basis', con, lambda: make(P, name, degree, dim, scaled))
				if r is None:
					continue
				I, o = r
				M = 2
				X = symbols('x', (M, dim))
				V = tried(ck, 'basis', con, lambda: call(I, o, 'V', copy(X)))
				if V is None:
					continue
				N = V.shape[1]
				DV = tried(ck, 'basis', con + ' first', lambda: call(I, o, 'DV', copy(X)))
				D1 = {}
				for j in range(N):
					for k in range(dim):
						D1[j, k] = tried(ck, 'basis', con, lambda: diff(poly(V.flat[j]), xname(0, k)))
				if shaped(ck, 'basis', con + ' first', DV, (M, N, dim)):
					entrywise(ck, 'basis', con + ' first', DV, {(0, j, k): w for (j, k), w in D1.items() if w is not None})
					rows(ck, con, V, DV, M, N, dim)
				DDV = tried(ck, 'basis', con + ' second', lambda: call(I, o, 'DDV', copy(X)))
				if shaped(ck, 'basis', con + ' second', DDV, (M, N, dim, dim)):
					entrywise(ck, 'basis', con + ' second', DDV, {(0, j, k, l): diff(D1[j, k], xname(0, l)) for j in range(N) for k in range(dim) for l in range(dim) if D1[j, k] is not None})
				if degree == 2 and dim == 2:
					for label, c in (('vector', symbols('c', (N,))), ('matrix', symbols('c', (N, 2)))):
						VC = tried(ck, 'product', con + ' ' + label, lambda: call(I, vc_hook(I, o), 'VC', copy(X), copy(c)))
						n2 = c.shape[1:]
						if shaped(ck, 'product', con + ' ' + label, VC, (M,) + n2):
							w = to_arr(I.np('dot', [copy(V), copy(c)], {}))
							ck.verdict('product', con + ' ' + label, all(equal(poly(a), poly(b)) for a, b in zip(VC.flat, w.flat)), 'is not the basis matrix times the coefficients')


def vc_hook(I, o):
	"""coefficients are generic, so none vanishes"""
	I.hooks['numpy.max'] = I.hooks['numpy.amax'] = lambda I, a, k: Poly.const(1)
	I.hooks['numpy.abs'] = lambda I, a, k: a[0]
	I.hooks['numpy.any'] = lambda I, a, k: True
	return o


def rows(ck, con, V, DV, M, N, dim):
	"""row 1 is row 0 with the other point"""
	try:
		bad = []
		for j in range(N):
			for k in range(dim):
				if not equal(diff(poly(V.flat[N + j]), xname(1, k)), poly(DV.flat[(N + j) * dim + k])):
					bad.append((1, j, k))
		ck.verdict('basis', con + ' second point', not bad, 'entries %s of another point' % bad[:3])
	except FAIL as e:
		ck.unknown('basis', con + ' second point', str(e))


def arnoldi(ck, P, tier):
	cls = P.cls('psdr.ArnoldiPolynomialBasis')
	for degree, dim in ((0, 1), (1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (2, 3)):
		con = 'degree %d of %d variables' % (degree, dim)

		def new():
			I = Interp(P, hooks())
			m = cls.lookup('arnoldi')
			if not m or m[0] != 'method':
				raise Cannot('arnoldi')
			h = {}
			def factors(I, fn, args, kw):
				me = args[0] if args else fn.me
				n = len(to_arr(I.attr(me, 'indices')).flat) // dim
				R = Arr((n, n), [Poly.var('R[%d,%d]' % (i, j)) if i <= j else ZERO for i in range(n) for j in range(n)])
				return symbols('Q', (3, n)), R
			I.hooks[m[1].short] = factors
			o = I.new(cls, [degree], {'X': symbols('t', (3, dim))})
			return I, o
		r = tried(ck, 'arnoldi', con, new)
		if r is None:
			continue
		I, o = r
		M = 2
		X = symbols('x', (M, dim))
		V = tried(ck, 'arnoldi', con, lambda: call(I, o, 'V', copy(X)))
		DV = tried(ck, 'arnoldi', con + ' first', lambda: call(I, o, 'DV', copy(X)))
		if V is None or DV is None:
			continue
		N = V.shape[1]
		if shaped(ck, 'arnoldi', con + ' first', DV, (M, N, dim)):
			want = tried(ck, 'arnoldi', con, lambda: {(i, j, k): diff(poly(V.flat[i * N + j]), xname(i, k)) for i in range(M) for j in range(N) for k in range(dim)})
			if want is not None:
				entrywise(ck, 'arnoldi', con + ' first', DV, want)
		one = tried(ck, 'arnoldi', con + ' single point', lambda: call(I, o, 'V', Arr((dim,), X.flat[:dim])))
		if one is not None:
			ck.verdict('arnoldi', con + ' single point', len(one.flat) == N and all(equal(poly(a), poly(b)) for a, b in zip(one.flat, V.flat[:N])), 'differs from the row of that point')
		# on its own samples: the stored factor is used, so it stands for the basis there
		own = symbols('t', (3, dim))
		def on_own():
			got = call(I, o, 'DV', copy(own))
			T = call(I, o, I_method(I, o, 'arnoldi_X'), copy(own))
			names = {'Q[%d,%d]' % (i, j): poly(T.flat[i * N + j]) for i in range(3) for j in range(N)}
			return got, T, names
		r = tried(ck, 'arnoldi', con + ' own samples', on_own)
		if r is not None:
			got, T, names = r
			try:
				bad = [(i, j, k) for i in range(3) for j in range(N) for k in range(dim) if not equal(subst(poly(got.flat[(i * N + j) * dim + k]), names), diff(poly(T.flat[i * N + j]), 't[%d,%d]' % (i, k)))]
				ck.verdict('arnoldi', con + ' own samples', not bad, 'entries %s' % bad[:3])
			except FAIL as e:
				ck.unknown('arnoldi', con + ' own samples', str(e))
	consistent(ck, P, cls)


def I_method(I, o, name):
	if o.cls.lookup(name) is None:
		raise Cannot(name)
	return name


def subst(p, names):
	"""replace variables by formulas (integer powers)"""
	out = ZERO
	for m, c in p.t.items():
		t = Poly.const(c)
		for a, e in m:
			if a[0] == 'v' and a[1] in names:
				if e != int(e) or e < 0:
					raise Cannot('substitution')
				for _ in range(int(e)):
					t = t * names[a[1]]
			else:
				t = t * Poly({((a, e),): 1})
		out = out + t
	return out


def consistent(ck, P, cls):
	"""the recurrence on the samples themselves gives back the orthogonal factor"""
	for degree, dim, pts in ((1, 1, [[0], [1], [3]]), (2, 1, [[0], [1], [3]]), (1, 2, [[0, 1], [1, 0], [2, 3]])):
		con = 'degree %d of %d variables: recurrence on the samples' % (degree, dim)

		def go():
			h = hooks()
			I = Interp(P, h)
			X = Arr((len(pts), dim), [Poly.const(x) for r in pts for x in r])
			o = I.new(cls, [degree], {'X': X})
			Q = call(I, o, 'V')
			I.hooks['numpy.array_equal'] = lambda I, a, k: False
			W = call(I, o, 'V', copy(X))
			return Q, W
		r = tried(ck, 'arnoldi', con, go)
		if r is None:
			continue
		Q, W = r
		try:
			ok = Q.shape == W.shape and all(abs(approx(a) - approx(b)) < 1e-9 for a, b in zip(Q.flat, W.flat))
			N = Q.shape[1]
			orth = all(abs(sum(approx(Q.flat[i * N + a]) * approx(Q.flat[i * N + b]) for i in range(len(pts))) - (a == b)) < 1e-9 for a in range(N) for b in range(N))
			ck.verdict('arnoldi', con, ok and orth, 'the basis on the samples differs from its orthogonal factor, or that is not orthonormal')
		except FAIL as e:
			ck.unknown('arnoldi', con, str(e))


def approx(p):
	"""value of a closed formula (roots of numbers)"""
	from ..formula import QTAB
	p = poly(p)
	s = 0.0
	for m, c in p.t.items():
		t = float(c)
		for a, e in m:
			if a[0] == 'Q':
				t *= approx(QTAB[a[1]]) ** float(e)
			elif a[0] == 'n':
				t *= float(a[1]) ** float(e)
			else:
				raise Cannot('open formula')
		s += t
	return s


def belong(ck, rule, con, I, o, X, m, hessian=True, want=None):
	"""value, gradient, Hessian at X with entries named by names(i,k)"""
	single = len(X.shape) == 1
	M = 1 if single else X.shape[0]
	name = (lambda i, k: 'x[%d]' % k) if single else xname
	f = tried(ck, rule, con + ' value', lambda: call(I, o, 'eval', copy(X)))
	if f is None:
		return
	if not (f.shape == (M,) or single and f.shape == ()):
		ck.bad(rule, con + ' value', 'shape %s for %d points' % (f.shape, M))
		return
	if want is not None:
		ck.verdict(rule, con + ' value', all(equal(poly(a), poly(b)) for a, b in zip(f.flat, want.flat)), 'the value is not the profile at the projected point')
	g = tried(ck, rule, con + ' gradient', lambda: call(I, o, 'grad', copy(X)))
	D = [[diff(poly(f.flat[i]), name(i, k)) for k in range(m)] for i in range(M)]
	if shaped(ck, rule, con + ' gradient', g, (m,) if single else (M, m)):
		g = reshape(g, (M, m))
		entrywise(ck, rule, con + ' gradient', g, {(i, k): D[i][k] for i in range(M) for k in range(m)})
	if hessian:
		H = tried(ck, rule, con + ' Hessian', lambda: call(I, o, 'hessian', copy(X)))
		if shaped(ck, rule, con + ' Hessian', H, (m, m) if single else (M, m, m)):
			H = reshape(H, (M, m, m))
			entrywise(ck, rule, con + ' Hessian', H, {(i, k, l): diff(D[i][k], name(i, l)) for i in range(M) for k in range(m) for l in range(m)})


def functions(ck, P):
	pf, rf = P.cls('psdr.PolynomialFunction'), P.cls('psdr.PolynomialRidgeFunction')
	for fam, dim in (('legendre', 2), ('hermite', 2), ('monomial', 1)):
		for shape in ((dim,), (1, dim), (2, dim), (3, dim)):
			con = '%s of %d variables at %s' % (fam, dim, shape)
			def new():
				I, b = make(P, CLASS[fam], 2, dim, True)
				N = len(to_arr(I.attr(b, 'indices')).flat) // dim
				return I, I.new(pf, [b, symbols('c', (N,))], {})
			r = tried(ck, 'polynomial', con, new)
			if r is not None:
				ck.guard('polynomial', con, lambda: belong(ck, 'polynomial', con, r[0], r[1], symbols('x', shape), dim))
	for fam, n, m, deg in (('legendre', 2, 3, 2), ('legendre', 1, 2, 3), ('hermite', 1, 3, 2), ('arnoldi', 2, 3, 2)):
		for shape in ((m,), (1, m), (2, m)):
			con = '%s profile of %d of %d variables at %s' % (fam, n, m, shape)
			U = symbols('U', (m, n))
			def new():
				if fam == 'arnoldi':
					cls = P.cls('psdr.ArnoldiPolynomialBasis')
					I = Interp(P, hooks())
					mth = cls.lookup('arnoldi')
					def factors(I, fn, args, kw):
						k = len(to_arr(I.attr(args[0] if args else fn.me, 'indices')).flat) // n
						return symbols('Q', (3, k)), Arr((k, k), [Poly.var('R[%d,%d]' % (i, j)) if i <= j else ZERO for i in range(k) for j in range(k)])
					I.hooks[mth[1].short] = factors
					b = I.new(cls, [deg], {'X': symbols('t', (3, n))})
				else:
					I, b = make(P, CLASS[fam], deg, n, True)
				N = len(to_arr(I.attr(b, 'indices')).flat) // n
				c = symbols('c', (N,))
				X = symbols('x', shape)
				Y = to_arr(I.np('dot', [copy(X), copy(U)], {}))
				want = call(I, I.new(pf, [b, copy(c)], {}), 'eval', Y)
				return I, I.new(rf, [b, copy(c), copy(U)], {}), want
			r = tried(ck, 'ridge', con, new)
			if r is not None:
				ck.guard('ridge', con, lambda: belong(ck, 'ridge', con, r[0], r[1], symbols('x', shape), m, hessian=fam != 'arnoldi', want=r[2]))


# fitting ------------------------------------------------------------------------------------------------------------

class Stop(Exception):
	pass


def free_basis(N, n):
	"""a basis of uninterpreted smooth functions"""
	def rows_of(Y):
		Y = to_arr(Y)
		Y = reshape(Y, (-1, n)) if len(Y.shape) != 2 else Y
		return [[show(poly(y), 99) for y in Y.flat[i * n:(i + 1) * n]] for i in range(Y.shape[0])]
	def V(Y=None):
		if Y is None:
			raise Cannot('basis at its samples')
		rs = rows_of(Y)
		return Arr((len(rs), N), [Poly.var('p%d(%s)' % (j, ','.join(r))) for r in rs for j in range(N)])
	def DV(Y=None):
		if Y is None:
			raise Cannot('basis at its samples')
		rs = rows_of(Y)
		return Arr((len(rs), N, n), [Poly.var('dp%d/d%d(%s)' % (j, l, ','.join(r))) for r in rs for j in range(N) for l in range(n)])
	return V, DV


class Fit:
	def __init__(self, P, norm, bound, basis, n, m, M, degree=2):
		self.P = P
		self.N = N = 3
		self.n, self.m, self.M = n, m, M
		h = hooks()
		V, DV = free_basis(N, n)
		self.V, self.DV = V, DV
		self.wrong = []
		def new_basis(I, cls, args, kw):
			return Obj(cls, {'V': V, 'DV': DV, '@len': N, '__len__': lambda: N})
		for b in BASES:
			h[P.cls('psdr.' + b).qualname] = new_basis
		h['scipy.special.comb'] = lambda I, a, k: -1000
		self.captured = {}
		def grab(key):
			def go(I, fn, args, kw):
				if fn.me is not None:
					args = [fn.me] + args
				d = dict(zip([a.arg for a in fn.node.args.args], args))
				d.update(kw)
				self.captured.update(d)
				self.captured['@solver'] = key
				raise Stop()
			return go
		h[P.func('psdr.gn.gauss_newton').short] = grab('gauss_newton')
		h[P.func('psdr.seqlp.sequential_lp').short] = grab('sequential_lp')
		h[P.func('psdr.initialization.initialize_subspace').short] = lambda I, fn, a, k: symbols('W', (m, m))
		for nm in ('polyridge.orth',):
			h[nm] = lambda I, fn, a, k: a[0]
		for nm in ('one_norm_fit', 'two_norm_fit', 'inf_norm_fit', 'bound_fit'):
			h['polyridge.' + nm] = self.fitted(nm)
		h['scipy.linalg.lstsq'] = lambda I, a, k: (self.fitted('lstsq')(I, None, a, k),)
		h['scipy.linalg.svd'] = self.svd
		self.I = Interp(P, h)
		self.X, self.f = symbols('x', (M, m)), symbols('f', (M,))
		cls = P.cls('psdr.PolynomialRidgeApproximation')
		self.o = self.I.new(cls, [degree, n], dict(norm=norm, bound=bound, basis=basis))
		try:
			self.I.call(self.I.attr(self.o, 'fit'), [copy(self.X), copy(self.f)], {})
		except Stop:
			pass

	def fitted(self, nm):
		def go(I, fn, args, kw):
			A, b = to_arr(args[0]), to_arr(args[1])
			self.last_fit = (nm, A, b)
			return symbols('c', (A.shape[1],))
		return go

	def svd(self, I, args, kw):
		A = to_arr(args[0])
		if kw.get('full_matrices', True) is not False:
			raise Cannot('full svd')
		k = min(A.shape)
		self.last_svd = A
		return (symbols('Y', (A.shape[0], k)), symbols('s', (k,)), symbols('Z', (k, A.shape[1])))


def same(a, b):
	return a.shape == b.shape and all(equal(poly(x), poly(y)) for x, y in zip(a.flat, b.flat))


def jacobians(ck, P):
	for norm, bound, bas in ((2, None, 'legendre'), (2, None, 'arnoldi'), (1, None, 'legendre'), (2, 'lower', 'legendre'), (2, 'upper', 'hermite')):
		for n, m, M in ((1, 2, 2), (2, 3, 2)):
			con = 'norm %s bound %s %s, %d of %d variables' % (norm, bound, bas, n, m)
			r = tried(ck, 'jacobian', con, lambda: Fit(P, norm, bound, bas, n, m, M))
			if r is None:
				continue
			d = r.captured
			if '@solver' not in d:
				ck.unknown('jacobian', con, 'no solver reached')
				continue
			ck.guard('jacobian', con, lambda: tried(ck, 'jacobian', con, lambda: (varpro if d['@solver'] == 'gauss_newton' else alternating)(ck, P, con, r, bas)))


def varpro(ck, P, con, r, bas):
	I, n, m, M, N = r.I, r.n, r.m, r.M, r.N
	d = r.captured
	U = symbols('U', (m, n))
	flat = Arr((m * n,), U.flat)
	OPS[0] = 0
	res = to_arr(I.call(d['f'], [copy(flat)], {}))
	Y = to_arr(I.np('dot', [copy(r.X), copy(U)], {}))
	V, DV = r.V(Y), r.DV(Y)
	dot = lambda a, b: to_arr(I.np('dot', [a, b], {}))
	if bas == 'arnoldi':
		c = dot(to_arr(I.np('transpose', [copy(V)], {})), copy(r.f))
	else:
		c = symbols('c', (N,))
	f = copy(r.f)
	want = to_arr(I.binop('Sub', f, dot(copy(V), copy(c))))
	sign = 1
	if not same(res, want):
		if same(res, to_arr(I.binop('Sub', dot(copy(V), copy(c)), f))):
			sign = -1
		else:
			ck.bad('jacobian', con + ' residual', 'the residual is not the data minus the fitted surrogate')
			return
	ck.ok('jacobian', con + ' residual', '')
	r.last_svd = None
	J = to_arr(I.call(d['F'], [copy(flat)], {}))
	if not shaped(ck, 'jacobian', con, J, (M, m * n)):
		return
	if r.last_svd is not None:
		if not same(r.last_svd, V):
			ck.unknown('jacobian', con, 'factors of something else')
			return
		k = min(M, N)
		Yf, s, Z = symbols('Y', (M, k)), symbols('s', (k,)), symbols('Z', (k, N))
	elif bas == 'arnoldi':
		Yf, s, Z = V, Arr((N,), [ONE] * N), Arr((N, N), [ONE if i == j else ZERO for i in range(N) for j in range(N)])
	else:
		ck.unknown('jacobian', con, 'no factors')
		return
	g = lambda a, *i: poly(a.flat[sum(x * y for x, y in zip(i, [math_prod(a.shape[q + 1:]) for q in range(len(a.shape))]))])
	r0 = want
	K = len(s.flat)
	bad = []
	for k in range(m):
		for l in range(n):
			D = [[g(r.X, i, k) * g(DV, i, j, l) for j in range(N)] for i in range(M)]
			Dc = [sumof(D[i][j] * g(c, j) for j in range(N)) for i in range(M)]
			YtDc = [sumof(g(Yf, i, q) * Dc[i] for i in range(M)) for q in range(K)]
			Dtr = [sumof(D[i][j] * g(r0, i) for i in range(M)) for j in range(N)]
			w = [div(sumof(g(Z, q, j) * Dtr[j] for j in range(N)), g(s, q)) for q in range(K)]
			for i in range(M):
				e = -(Dc[i] - sumof(g(Yf, i, q) * YtDc[q] for q in range(K)) + sumof(g(Yf, i, q) * w[q] for q in range(K)))
				e = e * Poly.const(sign)
				if not equal(e, poly(J.flat[i * m * n + k * n + l])):
					bad.append((i, k, l))
	ck.verdict('jacobian', con, not bad, 'entries (point, coordinate, column) %s are not the derivative of the projected residual' % bad[:4])


def math_prod(xs):
	n = 1
	for x in xs:
		n *= x
	return n


def sumof(xs):
	s = ZERO
	for x in xs:
		s = s + x
	return s


def alternating(ck, P, con, r, bas):
	I, n, m, M, N = r.I, r.n, r.m, r.M, r.N
	d = r.captured
	f = d.get('f')
	jac = d.get('jac')
	if f is None or jac is None:
		ck.unknown('jacobian', con, 'residual or Jacobian not passed')
		return
	U, c = symbols('U', (m, n)), symbols('c', (N,))
	flat = Arr((m * n + N,), list(U.flat) + list(c.flat))
	OPS[0] = 0
	res = to_arr(I.call(f, [copy(flat)], {}))
	Y = to_arr(I.np('dot', [copy(r.X), copy(U)], {}))
	V, DV = r.V(Y), r.DV(Y)
	Vc = to_arr(I.np('dot', [copy(V), copy(c)], {}))
	sign = 1
	if not same(res, to_arr(I.binop('Sub', Vc, copy(r.f)))):
		if not same(res, to_arr(I.binop('Sub', copy(r.f), Vc))):
			ck.bad('jacobian', con + ' residual', 'the residual is not the surrogate minus the data')
			return
		sign = -1
	ck.ok('jacobian', con + ' residual', '')
	J = to_arr(I.call(jac, [copy(flat)], {}))
	if not shaped(ck, 'jacobian', con, J, (M, m * n + N)):
		return
	bad = []
	w = m * n + N
	for i in range(M):
		for k in range(m):
			for l in range(n):
				e = poly(r.X.flat[i * m + k]) * sumof(poly(DV.flat[(i * N + j) * n + l]) * poly(c.flat[j]) for j in range(N)) * Poly.const(sign)
				if not equal(e, poly(J.flat[i * w + k * n + l])):
					bad.append((i, k, l))
		for j in range(N):
			if not equal(poly(V.flat[i * N + j]) * Poly.const(sign), poly(J.flat[i * w + m * n + j])):
				bad.append((i, 'coefficient', j))
	ck.verdict('jacobian', con, not bad, 'entries (point, coordinate, column) %s are not the derivative of the residual' % bad[:4])


class Values(dict):
	"""a value for every symbol, by its name"""

	def __missing__(self, name):
		n = sum((i + 1) * ord(c) for i, c in enumerate(name))
		self[name] = .2 + (n * 37 % 101) / 90.
		return self[name]

	def __contains__(self, name):
		return True


def direction(ck, P):
	"""degree one: the ridge direction is the gradient of the affine surrogate in the coordinates of X"""
	m, M = 3, 2
	con = 'affine ridge fit'

	def go():
		h = hooks()
		def dom(I, cls, args, kw):
			D = Arr((m, m), [Poly.var('d%d' % i) if i == j else ZERO for i in range(m) for j in range(m)])
			nrm = lambda X: Arr(to_arr(X).shape, [Poly.var('d%d' % (i % m)) * poly(x) + Poly.var('o%d' % (i % m)) for i, x in enumerate(to_arr(X).flat)])
			inv = lambda X: Arr(to_arr(X).shape, [div(poly(x) - Poly.var('o%d' % (i % m)), Poly.var('d%d' % (i % m))) for i, x in enumerate(to_arr(X).flat)])
			return Obj('domain', {'@len': m, 'normalize': nrm, 'unnormalize': inv, '_normalize_der': lambda: copy(D), '_unnormalize_der': lambda: Arr((m, m), [div(ONE, Poly.var('d%d' % i)) if i == j else ZERO for i in range(m) for j in range(m)])})
		h[P.cls('psdr.BoxDomain').qualname] = dom
		V, DV = free_basis(2, 1)
		for b in BASES:
			h[P.cls('psdr.' + b).qualname] = lambda I, cls, a, k: Obj(cls, {'V': V, 'DV': DV, '@len': 2})
		h['scipy.special.comb'] = lambda I, a, k: -1000
		calls = []
		def fitted(I, a, k):
			A, b = to_arr(a[0]), to_arr(a[1])
			calls.append((A, b))
			return (symbols('b%d' % (len(calls) - 1), (A.shape[1],)),)
		h['scipy.linalg.lstsq'] = fitted
		I = Interp(P, h)
		o = I.new(P.cls('psdr.PolynomialRidgeApproximation'), [1, 1], {})
		OPS[0] = 0
		CELL[0] = Values()
		X = symbols('x', (M, m))
		I.call(I.attr(o, 'fit'), [copy(X), symbols('f', (M,))], {})
		U = to_arr(I.attr(o, 'U'))
		A = calls[0][0]
		return X, U, A
	try:
		r = tried(ck, 'direction', con, go)
	finally:
		CELL[0] = None
	if r is None:
		return
	X, U, A = r
	if len(U.flat) != m:
		ck.unknown('direction', con, 'shape')
		return
	# slope of the affine surrogate sum_j A[i,j] b_j with respect to x[i,k]
	s = [sumof(diff(poly(A.flat[j]), xname(0, k)) * Poly.var('b0[%d]' % j) for j in range(A.shape[1])) for k in range(m)]
	bad = [(k, l) for k in range(m) for l in range(k) if not equal(poly(U.flat[k]) * s[l], poly(U.flat[l]) * s[k])]
	ck.verdict('direction', con, not bad, 'the direction is not the slope of the affine fit with respect to the samples')


def normalised(ck, P):
	cls = P.cls('psdr.Function')
	for kinds in (('scalar',), ('pair', 'scalar')):
		for vec in (False, True):
			for label, shape in f01.POINTS:
				con = '%s %s, %s' % ('+'.join(kinds), 'vectorised' if vec else 'plain', label)
				mk = lambda mode, **k: (lambda: f01.Case(P, cls, kinds, mode, vec, shape, **k))
				for mode in ('grads', 'return_grad', 'difference'):
					f01.judge(ck, 'normalised', con + ' ' + mode, mk(mode), f01.grad)
					f01.judge(ck, 'normalised', con + ' ' + mode + ' together', mk(mode), f01.together)
					f01.judge(ck, 'normalised', con + ' ' + mode + ' with options', mk(mode, early=f01.EARLY, late=f01.LATE), f01.grad)
				if not vec and cls.lookup('call_async') is not None:
					f01.judge(ck, 'normalised', con + ' asynchronous', mk('return_grad', client=True), f01.asynch(True))


def local(ck, P):
	m, M = 2, 4
	f = P.func('psdr.local_linear.local_linear_grads')
	if f is None:
		return ck.unknown('local', 'local_linear_grads', 'not found')
	for name, kw in (('bandwidth', {'bandwidth': 2}), ('bandwidth xia', {'bandwidth': 'xia'}), ('perplexity', {'perplexity': 3}), ('default', {}), ('other points', {'bandwidth': 2, 'Xt': True})):
		con = 'local_linear_grads, %s' % name

		def go():
			h = hooks()
			calls = []

			def fitted(I, a, k):
				calls.append((copy(to_arr(a[0])), copy(to_arr(a[1]))))
				n = to_arr(a[0]).shape[1]
				b = symbols('b%d' % (len(calls) - 1), (n,))
				if len(to_arr(a[1]).shape) == 2:
					b = Arr((n, 1), list(b.flat))
				return (b, None, None, None)
			for q in ('scipy.linalg.lstsq', 'numpy.linalg.lstsq'):
				h[q] = fitted
			h['local_linear.perplexity_bandwidth'] = lambda I, fn, a, k: Poly.var('beta')
			OPS[0] = 0
			CELL[0] = Values()
			X, fX = symbols('x', (M, m)), symbols('f', (M,))
			opts = dict(kw)
			Xt = X
			if opts.get('Xt'):
				Xt = opts['Xt'] = symbols('t', (2, m))
			G = to_arr(Interp(P, h).call(Fn(f, f.node, None, None), [copy(X), copy(fX)], opts))
			n = Xt.shape[0]
			if len(calls) != n:
				raise Cannot('%d fits for %d points' % (len(calls), n))
			if G.shape != (n, m):
				return ck.bad('local', con, 'gradients of shape %r for %d points' % (G.shape, n))
			for i, (A, b) in enumerate(calls):
				where = '%s: point %d' % (con, i)
				if A.shape != (M, m + 1) or len(b.flat) != M:
					raise Cannot('shape of the fit')
				for c in range(m + 1):
					w = [poly(A.flat[r * (m + 1) + c]) for r in range(M)]
					cols = [k for k in range(m + 1) if k != c]
					ok = [all(equal(poly(A.flat[r * (m + 1) + k]), w[r] * (poly(X.flat[r * m + j]) - (poly(Xt.flat[i * m + j]) if cen else ZERO))) for r in range(M) for j, k in enumerate(cols)) for cen in (False, True)]
					if any(ok):
						break
				else:
					return ck.unknown('local', where, 'the design is not a constant and the coordinates')
				ck.verdict('local', where + ', weights', all(equal(poly(b.flat[r]), w[r] * poly(fX.flat[r])) for r in range(M)), 'the same weights on both sides')
				vals = []
				for r in range(M):
					d = sum((formula_value(poly(X.flat[r * m + j])) - formula_value(poly(Xt.flat[i * m + j]))) ** 2 for j in range(m))
					vals.append((d, formula_value(w[r])))
				vals.sort()
				ck.verdict('local', where + ', distance', all(a[1] > b_[1] for a, b_ in zip(vals, vals[1:]) if b_[0] > a[0] + 1e-9) and all(v > 0 for _, v in vals), 'weights fall with the distance')
				ck.verdict('local', where + ', slope', all(equal(poly(G.flat[i * m + j]), Poly.var('b%d[%d]' % (i, k))) for j, k in enumerate(cols)), 'the gradient is the slope')
		try:
			tried(ck, 'local', con, go)
		finally:
			CELL[0] = None


def formula_value(p):
	from ..formula import numeric
	return numeric(p, CELL[0])[0]


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	ck.assumptions.append('numpy.polynomial evaluates the classical families and their derivatives; the scale of a basis is fixed when its derivative is taken; singular values and scales are not zero')
	selftest(ck, P)
	ck.guard('basis', 'bases', lambda: basis(ck, P, tier))
	ck.guard('arnoldi', 'arnoldi', lambda: arnoldi(ck, P, tier))
	ck.guard('polynomial', 'functions', lambda: functions(ck, P))
	ck.guard('jacobian', 'jacobians', lambda: jacobians(ck, P))
	ck.guard('direction', 'affine ridge fit', lambda: direction(ck, P))
	ck.guard('local', 'local linear models', lambda: local(ck, P))
	ck.guard('normalised', 'wrapped functions', lambda: normalised(ck, P))


def selftest(ck, P):
	x = Poly.var('x')
	ok = True
	for fam in ('poly', 'leg', 'cheb', 'herm', 'lag'):
		v = values(fam, x, 5)
		for j in range(6):
			c = [ONE if i == j else ZERO for i in range(6)]
			d1 = sumof(a * b for a, b in zip(derivative(fam, c), v))
			d2 = sumof(a * b for a, b in zip(derivative(fam, c, 2), v))
			ok = ok and equal(d1, diff(v[j], 'x')) and equal(d2, diff(diff(v[j], 'x'), 'x'))
	ck.selftest('the derivative coefficients of each family match its recurrence up to degree 5', ok)
	ck.selftest('a wrong scale is told apart', not equal(values('leg', x, 3)[3], values('cheb', x, 3)[3]))
