"""K01: a Gaussian process predicts with the kernel it was fitted with, and is fitted with the gradient of its own likelihood."""
from fractions import Fraction as Fr
from math import comb
from ..loader import AnalysisBroken
from ..arr import Interp, Fn, Obj, Arr, Ext, Cannot, Raised, CELL, symbols, to_arr, poly, num, integer, dot, transpose, summed, reshape, rename
from ..formula import Poly, ZERO, ONE, diff, div, equal, TooBig, Undefined, show, expf, logf
from ..conv import value
from . import f02

RULES = [
	('kernel', 'the matrices that are factored are the kernel of the scaled distances with the nugget on its diagonal, bordered by the polynomial basis', 16),
	('weights', 'the weights solve that system for the data and zeros', 8),
	('objective', 'the objective is half the product of data and weights plus half the logarithm of the determinant of the kernel', 8),
	('gradient', 'the gradient is that of the objective in every parameter', 12),
	('paired', 'the optimiser is handed the objective together with its gradient, from a start of the right size', 6),
	('fitted', 'the scaling and the weights kept are those of the parameters the optimiser returned', 6),
	('predict', 'the prediction at each point is its kernel with the samples times the weights plus its polynomials times theirs', 12),
	('covariance', 'the covariance at a point is one less the kernel with the samples on both sides of the inverse, never negative', 4),
]
FAIL = (Cannot, Undefined, TooBig, RecursionError)
ELL = [0.31, -0.42, 0.23, 0.11, -0.27, 0.36]
XS = [[0.31, -0.77, 0.83], [0.83, 0.59, -0.71], [-0.57, 0.41, 0.63], [0.15, 0.9, 0.2]]
YS = [1.3, -0.6, 0.9, 2.1]
ZS = [[0.12, 0.34, -0.5], [-0.45, -0.21, 0.7]]


def put(at, a, vals):
	for p, v in zip(a.flat, vals):
		for t in poly(p).atoms():
			at[t[1]] = v


class Setting:
	"""one process over symbolic samples"""

	def __init__(self, P, structure, degree, M=3, m=2, nugget=True, small=False, given=False):
		self.P, self.structure, self.degree, self.M, self.m = P, structure, degree, M, m
		self.at = {}
		self.X, self.y = symbols('x', (M, m)), symbols('y', (M,))
		put(self.at, self.X, [v for r in XS[:M] for v in r[:m]])
		put(self.at, self.y, YS[:M])
		if given:
			self.X = Arr((M, m), [Poly.const(Fr(v).limit_denominator(100)) for r in XS[:M] for v in r[:m]])
			self.y = Arr((M,), [Poly.const(Fr(v).limit_denominator(10)) for v in YS[:M]])
		self.starts, self.asked = [], []
		h = f02.hooks()
		h['builtins.print'] = lambda I, a, k: None
		h['scipy.linalg.expm'] = self.expm
		h['numpy.imag'] = self.imag
		h['scipy.optimize.minimize'] = self.minimize
		h['numpy.errstate'] = lambda I, a, k: Obj('context', {})
		I = self.I = Shared(P, h, steps=2000000)
		big = M
		I.spectrum = lambda n: ([-0.7] + [0.6 + 0.9 * i for i in range(n - 1)] if n > big else [0.5 + 1.25 * i for i in range(n)]) if not small else [2.5 + 1.25 * i for i in range(n)]
		kw = {'structure': structure, 'degree': degree}
		self.tau = None
		if nugget:
			self.tau = Poly.var('tau')
			self.at['tau'] = 0.05
			kw['nugget'] = self.tau
		self.Lf = None
		if structure == 'scalar_mult':
			self.Lf = symbols('lf', (m, m))
			put(self.at, self.Lf, [0.9, 0.2, -0.4, 1.3, 0.1, 0.3, -0.2, 0.5, 1.1][:m * m])
			kw['Lfixed'] = self.Lf
		CELL[0] = self.at
		self.me = I.new(P.cls('psdr.GaussianProcess'), [], kw)
		if self.tau is None:
			self.tau = poly(I.attr(self.me, 'nugget'))
		self.n = {'const': 1, 'scalar_mult': 1, 'diag': m, 'tril': m * (m + 1) // 2}[structure]
		self.ell = self.parameters('l')

	def parameters(self, name):
		a = symbols(name, (self.n,))
		put(self.at, a, ELL[:self.n])
		return a

	# the exponential of a matrix of parameters is not expanded: its entries and their derivatives are symbols
	def expm(self, I, a, k):
		A = to_arr(a[0])
		key = []
		for p in A.flat:
			p = poly(p)
			key.append(show(drop(p), 99))
		out = []
		for e in range(len(A.flat)):
			v = Poly.var('E%d(%s)' % (e, ';'.join(key)))
			for t in v.atoms():
				self.at[t[1]] = 0.7 + 0.35 * e if e in (0, 3) else (0. if (e % self.m) > (e // self.m) else 0.2 + 0.1 * e)
				CELL[0][t[1]] = self.at[t[1]]
			for q, p in enumerate(A.flat):
				d = poly(p) - drop(poly(p))
				if d.t:
					D = Poly.var('D%d,%d(%s)' % (e, q, ';'.join(key)))
					for t in D.atoms():
						CELL[0][t[1]] = 0.3 + 0.17 * e - 0.11 * q
					v = v + D * d
			out.append(v)
		return Arr(A.shape, out)

	def imag(self, I, a, k):
		A = to_arr(a[0])
		return Arr(A.shape, [diff(poly(p), '@i') for p in A.flat])

	def minimize(self, I, a, k):
		self.asked.append((a, k))
		x = self.parameters('lopt')
		return Obj('result', {'x': x, 'success': True, 'fun': ZERO})

	def scale(self, ell):
		"""the matrix of a vector of parameters"""
		m = self.m
		if self.structure == 'const':
			return Arr((m, m), [expf(poly(ell.flat[0])) if i == j else ZERO for i in range(m) for j in range(m)])
		if self.structure == 'scalar_mult':
			return Arr((m, m), [expf(poly(ell.flat[0])) * poly(p) for p in self.Lf.flat])
		if self.structure == 'diag':
			return Arr((m, m), [expf(poly(ell.flat[i])) if i == j else ZERO for i in range(m) for j in range(m)])
		key, it = [], iter(ell.flat)
		low = [poly(next(it)) if j <= i else ZERO for i in range(m) for j in range(m)]
		key = ';'.join(show(p, 99) for p in low)
		self.low, self.lowkey = low, key
		return Arr((m, m), [Poly.var('E%d(%s)' % (e, key)) for e in range(m * m)])

	def kernel(self, A, B, L):
		m = self.m
		out = []
		for i in range(A.shape[0]):
			for j in range(B.shape[0]):
				d = [poly(A.flat[i * m + k]) - poly(B.flat[j * m + k]) for k in range(m)]
				z = [summed([poly(L.flat[r * m + k]) * d[k] for k in range(m)]) for r in range(m)]
				out.append(expf(summed([q * q for q in z]) * Poly.const(Fr(-1, 2))))
		return Arr((A.shape[0], B.shape[0]), out)

	def slope(self, K, k):
		"""derivative of the kernel matrix with respect to parameter k"""
		if self.structure != 'tril':
			n = [a[1] for a in self.ell.flat[k].atoms()][0]
			return Arr(K.shape, [diff(p, n) for p in K.flat])
		q = [i * self.m + j for i in range(self.m) for j in range(i + 1)][k]
		out = []
		for p in K.flat:
			s = ZERO
			for e in range(self.m ** 2):
				s = s + diff(p, 'E%d(%s)' % (e, self.lowkey)) * Poly.var('D%d,%d(%s)' % (e, q, self.lowkey))
			out.append(s)
		return Arr(K.shape, out)

	def basis(self, X):
		if self.degree is None:
			return Arr((X.shape[0], 0), [])
		return to_arr(self.I.call(self.I.attr(self.I.attr(self.me, 'basis'), 'V'), [X], {}))

	def system(self, L):
		K, V = self.kernel(self.X, self.X, L), self.basis(self.X)
		M, p = self.M, V.shape[1]
		N = M + p
		out = [ZERO] * (N * N)
		for i in range(M):
			for j in range(M):
				out[i * N + j] = K.flat[i * M + j] + (self.tau if i == j else ZERO)
			for j in range(p):
				out[i * N + M + j] = out[(M + j) * N + i] = poly(V.flat[i * p + j])
		KT = Arr((M, M), [K.flat[i * M + j] + (self.tau if i == j else ZERO) for i in range(M) for j in range(M)])
		return K, KT, Arr((N, N), out)

	def likelihood(self, **kw):
		return self.I.call(self.I.attr(self.me, '_log_marginal_likelihood'), [self.ell, self.X, self.y], kw)


def drop(p):
	"""the part of a formula free of the imaginary unit"""
	return p - diff(p, '@i') * Poly.var('@i')


def same(p, q, at):
	"""the formulas agree in the cell and around it"""
	p, q = poly(p), poly(q)
	if p.key() == q.key():
		return True
	for k in range(3):
		c = at if not k else {n: v * (1 + 0.03 * k * ((sum(map(ord, n)) * 7919 % 13) - 6) / 6) for n, v in at.items()}
		a, b = value(p, c), value(q, c)
		if abs(a - b) > 1e-8 * (1 + abs(a) + abs(b)):
			return False
	return True


def alike(A, B, at):
	return A.shape == B.shape and all(same(p, q, at) for p, q in zip(A.flat, B.flat))


def factored(S, arg):
	"""the eigenvalues and eigenvectors of a matrix, if it was factored"""
	for f in S.I.factors:
		if f['kind'] == 'eigh' and alike(f['arg'], arg, CELL[0]):
			return f
	return None


class Shared(Interp):
	"""factors of the same matrix share their eigenvalues; the imaginary unit is a symbol"""

	def e_Constant(self, e, env):
		if isinstance(e.value, complex) and not e.value.real:
			return Poly.var('@i') * Poly.const(Fr(e.value.imag))
		return Interp.e_Constant(self, e, env)

	def factor(self, n, args, kw):
		if n == 'eigh' and not kw and len(args) == 1:
			A = to_arr(args[0])
			for f in self.factors:
				if f['kind'] == 'eigh' and alike(f['arg'], A, CELL[0]):
					return f['w'], f['V']
			if len(A.shape) == 2 and A.shape[0] == A.shape[1] > 3:
				m, k = A.shape[0], len(self.factors)
				w = symbols('ew%d' % k, (m,))
				self.factors = list(self.factors) + [{'kind': 'eigh', 'arg': A, 'w': w, 'V': turned(m)}]
				self.ordered(list(w.flat))
				return w, turned(m)
		return Interp.factor(self, n, args, kw)


def turned(m):
	"""an orthonormal matrix of rational entries: rotations in consecutive planes"""
	V = [[Fr(int(i == j)) for j in range(m)] for i in range(m)]
	for i in range(m - 1):
		c, s = ((Fr(3, 5), Fr(4, 5)), (Fr(5, 13), Fr(12, 13)), (Fr(15, 17), Fr(8, 17)))[i % 3]
		for r in range(m):
			a, b = V[r][i], V[r][i + 1]
			V[r][i], V[r][i + 1] = c * a + s * b, c * b - s * a
	return Arr((m, m), [Poly.const(v) for r in V for v in r])


def inverse(f, b):
	w, V = f['w'], f['V']
	c = dot(transpose(V), b)
	return dot(V, Arr(c.shape, [div(poly(p), poly(q)) for p, q in zip(c.flat, w.flat)]))


def compare(ck, rule, con, S, got, want):
	got, want = to_arr(got), to_arr(want)
	if len(got.flat) != len(want.flat):
		return ck.bad(rule, con, 'shape %r where %r is due' % (got.shape, want.shape))
	bad = [i for i, (p, q) in enumerate(zip(got.flat, want.flat)) if not same(p, q, CELL[0])]
	ck.verdict(rule, con, not bad, 'entries %r differ: %s where %s is due' % (bad, show(poly(got.flat[bad[0]]), 3)[:150], show(poly(want.flat[bad[0]]), 3)[:150]) if bad else '%d entries' % len(got.flat))


def tried(ck, rule, con, fn):
	try:
		CELL[0] = None
		return fn()
	except Raised as e:
		ck.bad(rule, con, 'raises %s' % e.name)
	except FAIL as e:
		ck.unknown(rule, con, '%s %s' % (type(e).__name__, str(e)[:150]))
	except (KeyError, IndexError, AttributeError, ZeroDivisionError, ValueError, TypeError) as e:
		ck.unknown(rule, con, 'not decided: %r' % (e,))
	finally:
		CELL[0] = None


def matrix(ck, con, f, size, I):
	sizes = [g['arg'].shape[0] for g in I.factors if g['kind'] == 'eigh']
	if f is not None:
		ck.ok('kernel', con, 'factored')
	elif size in sizes:
		ck.bad('kernel', con, 'the matrix factored is another one')
	else:
		ck.unknown('kernel', con, 'not factored')


def likelihood(ck, P, structure, degree, **kw):
	con = '%s, degree %s%s' % (structure, degree, ''.join(', %s %s' % (k, v) for k, v in sorted(kw.items())))

	def system(given):
		S = Setting(P, structure, degree, given=given, **kw)
		I = S.I
		I.call(I.attr(S.me, '_fit_init'), [S.X, S.y], {})
		K, KT, A = S.system(S.scale(S.ell))
		return S, I, K, KT, A

	def weights():
		S, I, K, KT, A = system(False)
		p = A.shape[0] - S.M
		want = 0 if degree is None else 1 if degree == 0 else comb(S.m + degree, degree)
		ck.verdict('kernel', '%s: polynomials' % con, p == want, '%d polynomials, %d of this degree' % (p, want))
		got = S.likelihood(return_alpha_beta=True)
		fA = factored(S, A)
		matrix(ck, '%s: bordered' % con, fA, A.shape[0], I)
		if fA is None:
			return
		b = Arr((A.shape[0],), [poly(v) for v in S.y.flat] + [ZERO] * (A.shape[0] - S.M))
		x = inverse(fA, b)
		compare(ck, 'weights', con, S, Arr(x.shape, list(to_arr(got[0]).flat) + list(to_arr(got[1]).flat)), x)
	tried(ck, 'weights', con, weights)

	def go():
		S, I, K, KT, A = system(True)
		obj, grad = S.likelihood(return_obj=True, return_grad=True)
		fA, fK = factored(S, A), factored(S, KT)
		matrix(ck, '%s: kernel' % con, fK, S.M, I)
		if fA is None or fK is None:
			return
		b = Arr((A.shape[0],), [poly(v) for v in S.y.flat] + [ZERO] * (A.shape[0] - S.M))
		alpha = Arr((S.M,), inverse(fA, b).flat[:S.M])
		half = Poly.const(Fr(1, 2))
		want = half * poly(dot(S.y, alpha)) + half * summed([logf(poly(w)) for w in fK['w'].flat])
		compare(ck, 'objective', con, S, obj, want)
		compare(ck, 'objective', con + ', alone', S, S.likelihood(return_obj=True), want)
		w, V = fK['w'], fK['V']
		g = []
		for k in range(S.n):
			dK = S.slope(K, k)
			T = dot(transpose(V), dot(dK, V))
			tr = summed([div(poly(T.flat[i * S.M + i]), poly(w.flat[i])) for i in range(S.M)])
			g.append(half * tr - half * poly(dot(alpha, dot(dK, alpha))))
		compare(ck, 'gradient', con, S, grad, Arr((S.n,), g))
		compare(ck, 'gradient', con + ', alone', S, S.likelihood(return_obj=False, return_grad=True), Arr((S.n,), g))
	tried(ck, 'gradient', con, go)


def fitting(ck, P, structure, degree):
	con = '%s, degree %s' % (structure, degree)

	def go():
		S = Setting(P, structure, degree, given=True)
		I = S.I
		I.call(I.attr(S.me, 'fit'), [S.X, S.y], {})
		if len(S.asked) != 1:
			raise Cannot('optimiser called %d times' % len(S.asked))
		a, k = S.asked[0]
		names = ['fun', 'x0', 'args', 'method', 'jac']
		k = dict(k, **dict(zip(names, a)))
		if k.get('args'):
			raise Cannot('extra arguments')
		x0 = to_arr(k['x0'])
		ok = len(x0.flat) == S.n
		jac = k.get('jac')
		f = I.call(k['fun'], [S.ell], {})
		if jac is True:
			f, g = f
		elif jac is None or jac is False:
			g = None
		else:
			g = I.call(jac, [S.ell], {})
		want = S.likelihood(return_obj=True, return_grad=True)
		ck.verdict('paired', con + ': start', ok, 'start of size %d for %d parameters' % (len(x0.flat), S.n))
		compare(ck, 'paired', con + ': objective', S, f, want[0])
		if g is not None:
			compare(ck, 'paired', con + ': gradient', S, g, want[1])
		x = S.parameters('lopt')
		L = S.scale(x)
		compare(ck, 'fitted', con + ': scaling', S, I.attr(S.me, 'L'), L)
		K, KT, A = S.system(L)
		fA = factored(S, A)
		if fA is None:
			ck.bad('fitted', con + ': weights', 'the system of the parameters returned is not solved')
		else:
			b = Arr((A.shape[0],), [poly(v) for v in S.y.flat] + [ZERO] * (A.shape[0] - S.M))
			w = inverse(fA, b)
			compare(ck, 'fitted', con + ': weights', S, Arr(w.shape, list(to_arr(I.attr(S.me, 'alpha')).flat) + list(to_arr(I.attr(S.me, 'beta')).flat)), w)
		# predictions of given weights, with the scaling kept
		p = A.shape[0] - S.M
		al, be = symbols('al', (S.M,)), symbols('be', (p,))
		put(CELL[0], al, [0.3, -0.8, 1.2, 0.4])
		put(CELL[0], be, [0.5, 1.1, -0.6, 0.2, 0.7, -0.3])
		for n in range(1, 3):
			Z = symbols('z', (n, S.m))
			put(CELL[0], Z, [v for r in ZS[:n] for v in r[:S.m]])
			KZ, VZ = S.kernel(Z, S.X, L), S.basis(Z)
			S.me.attrs['alpha'], S.me.attrs['beta'] = al, be
			want = []
			for i in range(n):
				s = summed([poly(KZ.flat[i * S.M + j]) * poly(al.flat[j]) for j in range(S.M)])
				want.append(s + summed([poly(VZ.flat[i * p + j]) * poly(be.flat[j]) for j in range(p)]))
			for e in ('eval', '__call__', 'predict'):
				compare(ck, 'predict', '%s: %s of %d points' % (con, e, n), S, I.call(I.attr(S.me, e), [Z], {}), Arr((n,), want))
	tried(ck, 'fitted', con, go)


def covariance(ck, P, structure, small):
	con = '%s, %s' % (structure, 'positive' if small is True else 'clipped, spectrum from %s' % small)

	def go():
		S = Setting(P, structure, None, small=small is True)
		I = S.I
		I.call(I.attr(S.me, 'fit'), [S.X, S.y], {})
		if small is not True:
			# eigenvalues so small that the difference is negative in this cell
			I.spectrum = lambda n: [small + 0.03 * i for i in range(n)]
		Z = symbols('z', (2, S.m))
		put(CELL[0], Z, [v for r in ZS for v in r[:S.m]])
		f, c = I.call(I.attr(S.me, 'eval'), [Z], {'return_cov': True})
		L = S.scale(S.parameters('lopt'))
		K, KT, A = S.system(L)
		fac = factored(S, K) or factored(S, KT)
		if fac is None:
			raise Cannot('kernel not factored')
		KZ = S.kernel(Z, S.X, L)
		want, vals = [], []
		for i in range(2):
			k = Arr((S.M,), KZ.flat[i * S.M:(i + 1) * S.M])
			v = ONE - poly(dot(k, inverse(fac, k)))
			vals.append(value(v, CELL[0]))
			want.append(v if value(v, CELL[0]) > 0 else ZERO)
		compare(ck, 'covariance', '%s: %s' % (con, ', '.join('%.2f' % v for v in vals)), S, c, Arr((2,), want))
		compare(ck, 'predict', con + ', with covariance', S, f, I.call(I.attr(S.me, 'eval'), [Z], {}))
	tried(ck, 'covariance', con, go)


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	ck.assumptions.append('eigendecompositions are exact; the matrix exponential is differentiable and an unnamed function of its argument; samples are distinct')
	cls = P.cls('psdr.GaussianProcess')
	if cls is None:
		raise AnalysisBroken('psdr.GaussianProcess is gone')
	for s in ('const', 'scalar_mult', 'diag', 'tril'):
		for d in (None, 0, 1):
			likelihood(ck, P, s, d)
			fitting(ck, P, s, d)
		for small in (True, 0.02, 0.9, 1.1):
			covariance(ck, P, s, small)
	likelihood(ck, P, 'diag', 1, M=4, m=2)
	likelihood(ck, P, 'diag', None, nugget=False)
	likelihood(ck, P, 'const', None, M=3, m=1)
