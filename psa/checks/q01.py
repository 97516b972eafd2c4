"""Q01: density, samples and support of a random domain belong to the same distribution.

The standard draws are symbols; a sample is read as an affine function of them, its matrix times its own transpose is compared
with the covariance, its support and density with those of that image, at symbolic mean, covariance, offset and scaling."""
import math
from fractions import Fraction as Fr
from ..loader import AnalysisBroken
from .. import arr
from ..arr import Interp, Obj, Arr, Ext, Cannot, Raised, CELL, symbols, to_arr, poly, num, dot, transpose, unwrap
from ..formula import Poly, ZERO, ONE, diff, equal, div, power, TooBig, Undefined
from ..conv import value
from .f02 import Values
from .r01 import tried

RULES = [
	('draws', 'a sample is the mean plus a factor of the covariance times fresh independent standard draws, one set for each sample', 8),
	('truncated', 'a truncated sample keeps only standard draws within the radius that holds the stated probability', 8),
	('support', 'the domain contains the points of the support and no others', 20),
	('inside', 'every sample lies in the domain', 8),
	('density', 'the density is that of the distribution sampled, divided by the probability kept', 24),
	('outside', 'the density is zero outside the support', 8),
	('image', 'normalising a sample of the domain gives a sample of the normalised domain', 8),
	('product', 'a product of random domains samples each factor into its own columns', 4),
]


def factor(C):
	"""lower triangular factor of a symmetric formula matrix"""
	k = C.shape[0]
	L = [[ZERO] * k for _ in range(k)]
	for i in range(k):
		for j in range(i + 1):
			s = poly(C.flat[i * k + j])
			for t in range(j):
				s = s - L[i][t] * L[j][t]
			L[i][j] = power(s, Fr(1, 2)) if i == j else div(s, L[j][j])
	return Arr((k, k), [x for r in L for x in r])


def solve(A, B, lower):
	"""triangular system"""
	k = A.shape[0]
	b = to_arr(B)
	cols = 1 if len(b.shape) == 1 else b.shape[1]
	a = [[poly(A.flat[i * k + j]) for j in range(k)] for i in range(k)]
	x = [[ZERO] * cols for _ in range(k)]
	for i in (range(k) if lower else range(k - 1, -1, -1)):
		for c in range(cols):
			s = poly(b.flat[i * cols + c])
			for j in (range(i) if lower else range(i + 1, k)):
				s = s - a[i][j] * x[j][c]
			x[i][c] = div(s, a[i][i])
	return Arr(b.shape, [v for r in x for v in r])


class Draws:
	"""standard draws are named symbols; script gives the size of each, draw by draw"""

	def __init__(self, sizes=None):
		self.n, self.sizes, self.tail, self.uniform = 0, sizes or [], [], []

	def fresh(self, shape):
		self.n += 1
		nm = 'z%d' % self.n
		a = to_arr(symbols(nm, shape))
		k = shape[-1]
		for i, x in enumerate(a.flat):
			row, col = divmod(i, k)
			s = self.sizes[self.n - 1][row] if self.n <= len(self.sizes) and row < len(self.sizes[self.n - 1]) else .5
			CELL[0]['%s[%s]' % (nm, ', '.join(str(t) for t in ((row, col) if len(shape) == 2 else (i,))))] = s * (.8, -.6, .3)[col]
			for at in poly(x).atoms():
				CELL[0][at[1]] = s * (.8, -.6, .3)[col]
		return a

	def hooks(self):
		shape = lambda a: tuple(arr.integer(x) for x in (a if isinstance(a, (tuple, list)) else (a,)))

		def randn(I, a, k):
			return self.fresh(shape(a))

		def normal(I, a, k):
			loc, sc = (list(a[:2]) + [0, 1])[:2] if a else (k.get('loc', 0), k.get('scale', 1))
			s = a[2] if len(a) > 2 else k['size']
			z = self.fresh(shape(s))
			return arr.elementwise(lambda x: poly(loc) + poly(sc) * poly(x), z)

		def chi2(isf):
			def go(I, a, k):
				q = a[0] if a else k['q']
				p = poly(q)
				self.tail.append((p if isf else ONE - p, num(a[1] if len(a) > 1 else k['df'])))
				return Poly.var('clip')
			return go

		def uniform(I, a, k):
			lo, hi = a[0] if a else k.get('low', 0), a[1] if len(a) > 1 else k.get('high', 1)
			s = shape(a[2] if len(a) > 2 else k['size'])
			t = symbols('t%d' % self.n, s)
			self.uniform.append((lo, hi, s))
			return arr.elementwise(lambda l, h, x: poly(l) + poly(x) * (poly(h) - poly(l)), lo, hi, t)

		def chol(I, a, k):
			L = factor(to_arr(a[0]))
			return L if k.get('lower') else transpose(L)

		def tri(I, a, k):
			A, lower = to_arr(a[0]), k.get('lower', a[3] if len(a) > 3 else False)
			t = k.get('trans', a[2] if len(a) > 2 else 0)
			if t in ('T', 1) or num(t) == 1:
				A, lower = transpose(A), not lower
			return solve(A, a[1], lower)

		def det(I, a, k):
			A = to_arr(a[0])
			e = [poly(x) for x in A.flat]
			if A.shape == (1, 1):
				return e[0]
			if A.shape == (2, 2):
				return e[0] * e[3] - e[1] * e[2]
			raise Cannot('determinant')

		def logpdf(I, a, k):
			raise Cannot('library density')
		h = {'numpy.random.randn': randn, 'numpy.random.normal': normal, 'numpy.random.standard_normal': lambda I, a, k: randn(I, list(a[0]) if isinstance(a[0], (tuple, list)) else a, k), 'scipy.stats.chi2.isf': chi2(True), 'scipy.stats.chi2.ppf': chi2(False),
			'numpy.random.uniform': uniform, 'scipy.linalg.cholesky': chol, 'scipy.linalg.solve_triangular': tri, 'scipy.linalg.det': det, 'numpy.linalg.det': det, 'numpy.linalg.cholesky': lambda I, a, k: factor(to_arr(a[0])), 'numpy.random.rand': lambda I, a, k: uniform(I, [0, 1, list(a)], {})}
		return h


def bounds(H, cls, give):
	"""the normalisation bounds of domains of the class"""
	for n in ('norm_lb', 'norm_ub'):
		kind = cls.lookup(n)
		if not kind or not hasattr(kind[1], 'short'):
			raise Cannot('%s is gone' % n)
		short = kind[1].short

		def go(I, fn, a, k, n=n, short=short):
			me = a[0] if a else fn.me
			if isinstance(me, Obj) and me.cls is cls:
				return give(n)
			h = I.hooks.pop(short)
			try:
				return I.call(fn, a, k)
			finally:
				I.hooks[short] = h
		H[short] = go


MEANS = ([.4, -1.3], [-2.1, .7])
COVS = ([[1.7, .6], [.6, .9]], [[.35, -.2], [-.2, 2.4]], [[1., 0.], [0., 1.]])


def covariance(m):
	names = {(i, j): 'c%d%d' % (min(i, j), max(i, j)) for i in range(m) for j in range(m)}
	return Arr((m, m), [Poly.var(names[i, j]) for i in range(m) for j in range(m)])


def put(m, mean, cov, clip=4.):
	CELL[0] = Values()
	CELL[0]['clip'] = clip
	for i in range(m):
		CELL[0]['m[%d]' % i] = mean[i]
		for j in range(m):
			CELL[0]['c%d%d' % (min(i, j), max(i, j))] = cov[i][j]


def gauss(x, mean, cov):
	m = len(mean)
	d = [x[i] - mean[i] for i in range(m)]
	if m == 1:
		q, det = d[0] ** 2 / cov[0][0], cov[0][0]
	else:
		det = cov[0][0] * cov[1][1] - cov[0][1] ** 2
		q = (cov[1][1] * d[0] ** 2 - 2 * cov[0][1] * d[0] * d[1] + cov[0][0] * d[1] ** 2) / det
	return math.exp(-q / 2) / math.sqrt((2 * math.pi) ** m * det), q


def normal(ck, P):
	cls = P.cls('psdr.NormalDomain')
	for m in (1, 2):
		for k, cov in enumerate(COVS):
			mean = MEANS[k % 2]
			for trunc in (None, Fr(1, 8)):
				con = 'NormalDomain in dimension %d, covariance %d, %s' % (m, k + 1, 'truncated' if trunc else 'not truncated')

				def make(dr):
					I = Interp(P, dr.hooks(), steps=200000)
					C = covariance(m) if cov[0][1] or m == 1 else Arr((m, m), [Poly.var('c%d%d' % (i, j)) if i == j else ZERO for i in range(m) for j in range(m)])
					return I, I.new(cls, [symbols('m', (m,)), C], {'truncate': trunc})

				def sample():
					put(m, mean, cov)
					# the second row is refused twice when truncated
					dr = Draws([[1.9, 3., 1.2], [6.], [.9]] if trunc else [[.5, 5., 1.2]])
					I, D = make(dr)
					X = to_arr(I.call(I.attr(D, 'sample'), [3], {}))
					at = CELL[0]
					if X.shape != (3, m):
						return ck.bad('draws', con, 'shape %r' % (X.shape,))
					used = []
					for r in range(3):
						row = [poly(X.flat[r * m + i]) for i in range(m)]
						zs = sorted({a[1] for x in row for a in x.atoms() if a[0] == 'v' and a[1].startswith('z')})
						A = [[value(diff(x, z), at) for z in zs] for x in row]
						flat = [value(x, dict(at, **{z: 0. for z in zs})) for x in row]
						if any(equal(diff(diff(x, z), z), ZERO) is False for x in row for z in zs):
							return ck.bad('draws', con, 'not affine in the draws')
						err = max([abs(flat[i] - mean[i]) for i in range(m)] + [abs(sum(A[i][t] * A[j][t] for t in range(len(zs))) - cov[i][j]) for i in range(m) for j in range(m)])
						if err > 1e-8:
							return ck.bad('draws', con, 'row %d has another mean or covariance (off by %g)' % (r, err))
						used.append(zs)
					same = [z for i in range(3) for j in range(i) for z in used[i] if z in used[j]]
					ck.verdict('draws', con, not same and all(len(u) == m for u in used), 'mean, covariance and independence of three samples')
					if trunc:
						sq = [sum(at[z] ** 2 for z in u) for u in used]
						ck.verdict('truncated', con, max(sq) <= 4., 'squared sizes %s, at most 4 allowed' % ', '.join('%.3g' % s for s in sq))
						kept = [z for u in used for z in u if abs(abs(at[z]) - 1.9 * .8) < 1e-9]
						ck.verdict('truncated', con + ', allowed draw', bool(kept), 'a draw within the radius is kept')
						ck.verdict('truncated', con + ', radius', all(d == m and abs(value(p, at) - .125) < 1e-12 for p, d in dr.tail) if dr.tail else None, 'tail probability and degrees of freedom: %s' % ', '.join('%g in %s' % (value(p, at), d) for p, d in dr.tail))
					Xc = Arr(X.shape, X.flat)
					ins = to_arr(I.call(I.attr(D, 'isinside'), [Xc], {}))
					ck.verdict('inside', con, all(bool(x) for x in ins.flat), 'membership of the samples')
				tried(ck, 'draws', con, sample)
				L = None
				for d in ([1., 0.], [-.6, .8], [.28, -.96]):
					for s in (.06, .7, 1.9, 2.1, 3.):
						c2 = '%s, %g in direction %s' % (con, s, d[:m])

						def member():
							put(m, mean, cov)
							dr = Draws()
							I, D = make(dr)
							l = [[math.sqrt(cov[0][0]), 0.], [cov[0][1] / math.sqrt(cov[0][0]), 0.]]
							l[1][1] = math.sqrt(cov[1][1] - l[1][0] ** 2)
							dd = d if m == 2 else [1. if d[0] > 0 else -1.]
							x = [mean[i] + s * sum(l[i][j] * dd[j] for j in range(m)) for i in range(m)]
							for i in range(m):
								CELL[0]['x[0, %d]' % i] = CELL[0]['x[%d]' % i] = x[i]
								for a in poly(to_arr(symbols('x', (1, m))).flat[i]).atoms():
									CELL[0][a[1]] = x[i]
							pt = symbols('x', (1, m))
							ins = bool(to_arr(I.call(I.attr(D, 'isinside'), [pt], {})).flat[0])
							want = not trunc or s < 2
							ck.verdict('support', c2, ins == want, 'inside' if ins else 'outside')
							p = value(poly(to_arr(I.call(I.attr(D, 'pdf'), [pt], {})).flat[0]), CELL[0])
							g, q = gauss(x, mean[:m], [r[:m] for r in cov[:m]])
							if not want:
								ck.verdict('outside', c2, p == 0, 'density %g' % p)
							else:
								g = g / (.875 if trunc else 1)
								ck.verdict('density', c2, abs(p - g) < 1e-9 * g, 'density %.8g, expected %.8g' % (p, g))
						tried(ck, 'density', c2, member)

				def image():
					put(m, mean, cov)
					dr = Draws()
					H = dr.hooks()
					lo, hi = [Arr((m,), [Poly.var('%s%d' % (s, i)) for i in range(m)]) for s in ('lo', 'hi')]
					bounds(H, cls, lambda n: lo if n == 'norm_lb' else hi)
					for i in range(m):
						CELL[0]['lo%d' % i], CELL[0]['hi%d' % i] = -3. - i, 2. + 2 * i
					I = Interp(P, H, steps=200000)
					C = covariance(m) if cov[0][1] or m == 1 else Arr((m, m), [Poly.var('c%d%d' % (i, j)) if i == j else ZERO for i in range(m) for j in range(m)])
					D = I.new(cls, [symbols('m', (m,)), C], {'truncate': trunc})
					N = I.call(I.attr(D, 'normalized_domain'), [], {})
					pts = I.call(I.attr(D, 'normalize'), [symbols('p', (m + 1, m))], {})
					at = dict(CELL[0], **{'p[%d, %d]' % (r, i): 1. if r == i + 1 else 0. for r in range(m + 1) for i in range(m)})
					for r, row in enumerate(range(m + 1)):
						for i in range(m):
							for a in poly(symbols('p', (m + 1, m)).flat[r * m + i]).atoms():
								at[a[1]] = 1. if r == i + 1 else 0.
					w = [[value(poly(to_arr(pts).flat[r * m + i]), at) for i in range(m)] for r in range(m + 1)]
					slope = [w[i + 1][i] - w[0][i] for i in range(m)]
					mid = [-w[0][i] / slope[i] for i in range(m)]
					mm = [value(poly(x), CELL[0]) for x in to_arr(I.attr(N, 'mean')).flat]
					cc = [value(poly(x), CELL[0]) for x in to_arr(I.attr(N, 'cov')).flat]
					e = max([abs(mm[i] - slope[i] * (mean[i] - mid[i])) for i in range(m)] + [abs(cc[i * m + j] - slope[i] * slope[j] * cov[i][j]) for i in range(m) for j in range(m)])
					t = I.attr(N, 'truncate')
					ck.verdict('image', con, e < 1e-9 and (t is None) == (trunc is None) and (t is None or num(t) == trunc), 'mean, covariance and truncation of the normalised domain')
				tried(ck, 'image', con, image)


def lognormal(ck, P):
	cls = P.cls('psdr.LogNormalDomain')
	mu, v = .3, .49
	for off, sc in ((0., 1.), (1.5, 1.), (0., 2.5), (-.7, .4), (.6, -2.)):
		for trunc in (None, Fr(1, 8)):
			con = 'LogNormalDomain offset %g, scaling %g, %s' % (off, sc, 'truncated' if trunc else 'not truncated')
			ends = (mu - .7 * 2, mu + .7 * 2)

			def make(dr, symbolic=True):
				put(1, [mu], [[v]])
				CELL[0].update({'o': off, 's': sc, 'mu': mu, 'v': v, 'nlo': ends[0], 'nhi': ends[1]})
				H = dr.hooks()
				q = P.cls('psdr.NormalDomain')
				bounds(H, q, lambda n: Arr((1,), [Poly.var('nlo' if n == 'norm_lb' else 'nhi')]))
				I = Interp(P, H, steps=200000)
				return I, I.new(cls, [Poly.var('mu')], {'cov': Poly.var('v'), 'offset': Poly.var('o'), 'scaling': Poly.var('s') if sc > 0 else Fr(sc), 'truncate': trunc})

			def sample():
				dr = Draws([[1.9, 3.], [.6]] if trunc else [[.5, 2.]])
				I, D = make(dr)
				X = to_arr(I.call(I.attr(D, 'sample'), [2], {}))
				at = CELL[0]
				if X.shape != (2, 1):
					return ck.bad('draws', con, 'shape %r' % (X.shape,))
				ok, used = True, []
				for x in X.flat:
					zs = sorted({a for a in names(poly(x)) if a.startswith('z')})
					if len(zs) != 1:
						raise Cannot('%d draws for one sample' % len(zs))
					used += zs
					for z in (at[zs[0]], 0., -.9):
						got = value(poly(x), dict(at, **{zs[0]: z}))
						want = [off + sc * math.exp(mu + s * math.sqrt(v) * z) for s in (1, -1)]
						ok = ok and min(abs(got - w) for w in want) < 1e-9
				ck.verdict('draws', con, ok and len(set(used)) == 2, 'offset plus scaling times the exponential of a normal sample')
				if trunc:
					ck.verdict('truncated', con, all(at[z] ** 2 <= 4. for z in used), 'draws %s' % ', '.join('%.3g' % at[z] for z in used))
				ins = to_arr(I.call(I.attr(D, 'isinside'), [Arr(X.shape, X.flat)], {}))
				ck.verdict('inside', con, all(bool(t) for t in ins.flat), 'membership of the samples')
			tried(ck, 'draws', con, sample)
			for y in (-3., -1.05, -.5, .2, .9, 1.6, 1.9, 4.):
				c2 = '%s, exponent %g' % (con, y)

				def member():
					I, D = make(Draws())
					CELL[0]['y'] = y
					CELL[0]['x'] = off + sc * math.exp(y)
					pt = Arr((1, 1), [Poly.var('x')])
					want = not trunc or ends[0] < y < ends[1]
					ins = bool(to_arr(I.call(I.attr(D, 'isinside'), [pt], {})).flat[0])
					ck.verdict('support', c2, ins == want, 'inside' if ins else 'outside')
					p = value(poly(to_arr(I.call(I.attr(D, 'pdf'), [pt], {})).flat[0]), CELL[0])
					if not want:
						return ck.verdict('outside', c2, p == 0, 'density %g' % p)
					g = math.exp(-(y - mu) ** 2 / 2 / v) / math.sqrt(2 * math.pi * v) / math.exp(y) / (.875 if trunc else 1)
					true = g / abs(sc)
					if abs(p - true) < 1e-9 * true:
						return ck.ok('density', c2, 'density %.8g' % p)
					if abs(p - g) < 1e-9 * g:
						return ck.bad('density', 'LogNormalDomain with a scaling', 'density lacks the factor 1/scaling, as in %s' % c2)
					ck.bad('density', c2, 'density %.8g, expected %.8g' % (p, true))
				tried(ck, 'density', c2, member)
			c2 = con + ', wrong side of the offset'

			def wrong():
				I, D = make(Draws())
				CELL[0]['x'] = off - sc * .4
				pt = Arr((1, 1), [Poly.var('x')])
				ck.verdict('support', c2, not bool(to_arr(I.call(I.attr(D, 'isinside'), [pt], {})).flat[0]), 'outside')
				p = value(poly(to_arr(I.call(I.attr(D, 'pdf'), [pt], {})).flat[0]), CELL[0])
				ck.verdict('outside', c2, p == 0, 'density %g' % p)
			tried(ck, 'outside', c2, wrong)

			def image():
				I, D = make(Draws())
				N = I.call(I.attr(D, 'normalized_domain'), [], {})
				at = CELL[0]
				get = lambda n: value(poly(to_arr(I.attr(N, n)).flat[0]), at)
				for y in (-.9, .3, 1.4):
					at['x'] = off + sc * math.exp(y)
					xn = value(poly(to_arr(I.call(I.attr(D, 'normalize'), [Arr((1, 1), [Poly.var('x')])], {})).flat[0]), at)
					if abs(xn - get('offset') - get('scaling') * math.exp(y)) > 1e-9:
						return ck.bad('image', con, 'exponent %g is sampled elsewhere' % y)
				t = I.attr(N, 'truncate')
				ck.verdict('image', con, abs(get('mean') - mu) < 1e-12 and abs(get('cov') - v) < 1e-12 and (t is None) == (trunc is None) and (t is None or num(t) == trunc), 'mean, covariance, offset, scaling and truncation of the normalised domain')
			tried(ck, 'image', con, image)


def names(p):
	"""the draws a formula depends on"""
	at = CELL[0]
	v = value(p, at)
	return [z for z in list(at) if z[0] in 'zt' and abs(value(p, dict(at, **{z: at[z] + .01})) - v) > 1e-9 * abs(v)]


def uniform(ck, P):
	cls = P.cls('psdr.UniformDomain')
	for m, box in ((1, [(-.5, 2.)]), (2, [(0., 3.), (-1., .25)]), (3, [(1., 2.5), (-4., -1.), (.1, .9)])):
		con = 'UniformDomain in dimension %d' % m

		def make(dr):
			CELL[0] = Values()
			for i, (l, u) in enumerate(box):
				CELL[0]['lo%d' % i], CELL[0]['hi%d' % i] = l, u
			I = Interp(P, dr.hooks(), steps=100000)
			return I, I.new(cls, [Arr((m,), [Poly.var('lo%d' % i) for i in range(m)]), Arr((m,), [Poly.var('hi%d' % i) for i in range(m)])], {})

		def sample():
			dr = Draws()
			I, D = make(dr)
			X = to_arr(I.call(I.attr(D, 'sample'), [4], {}))
			if X.shape != (4, m):
				return ck.bad('draws', con, 'shape %r' % (X.shape,))
			used = []
			for r in range(4):
				for i in range(m):
					x = poly(X.flat[r * m + i])
					t = [a for a in names(x) if a.startswith('t')]
					if len(t) != 1:
						raise Cannot('%d draws for one entry' % len(t))
					used += t
					for w in (0., 1.):
						if abs(value(x, dict(CELL[0], **{t[0]: w})) - box[i][int(w)]) > 1e-12 and abs(value(x, dict(CELL[0], **{t[0]: w})) - box[i][1 - int(w)]) > 1e-12:
							return ck.bad('draws', con, 'coordinate %d does not range over its interval' % i)
			ck.verdict('draws', con, len(set(used)) == 4 * m, 'every entry uniform over its interval, independently')
		tried(ck, 'draws', con, sample)
		for k, fr in enumerate((.1, .5, .93)):
			for out in (None,) + tuple(range(m)):
				c2 = '%s, point %d%s' % (con, k, '' if out is None else ', coordinate %d outside' % out)

				def member():
					I, D = make(Draws())
					for i, (l, u) in enumerate(box):
						CELL[0]['p%d' % i] = l + fr * (u - l) if i != out else u + .2 if k % 2 else l - .2
					pt = Arr((1, m), [Poly.var('p%d' % i) for i in range(m)])
					p = value(poly(to_arr(I.call(I.attr(D, 'pdf'), [pt], {})).flat[0]), CELL[0])
					ins = bool(to_arr(I.call(I.attr(D, 'isinside'), [pt], {})).flat[0])
					ck.verdict('support', c2, ins == (out is None), 'inside' if ins else 'outside')
					if out is None:
						vol = math.prod(u - l for l, u in box)
						ck.verdict('density', c2, abs(p * vol - 1) < 1e-12, 'density %g' % p)
					else:
						ck.verdict('outside', c2, p == 0, 'density %g' % p)
				tried(ck, 'density', c2, member)


def product(ck, P):
	cls = P.cls('psdr.TensorProductDomain')
	for sizes in ((1, 2), (2, 1), (1, 1, 2), (2, 2)):
		con = 'product of %s' % ', '.join('dimension %d' % s for s in sizes)

		def go():
			CELL[0] = Values()
			asked = []
			I = Interp(P, Draws().hooks(), steps=100000)
			doms = []
			for k, s in enumerate(sizes):
				d = I.new(P.cls('psdr.BoxDomain'), [Arr((s,), [Poly.const(-5)] * s), Arr((s,), [Poly.const(5)] * s)], {})
				nm = 'w%d' % k
				d.attrs['sample'] = lambda draw=1, nm=nm, s=s: (asked.append((nm, num(draw))), symbols(nm, (int(num(draw)), s)))[1]
				doms.append(d)
			T = I.new(cls, [doms], {})
			X = to_arr(I.call(I.attr(T, 'sample'), [3], {}))
			if X.shape != (3, sum(sizes)):
				return ck.bad('product', con, 'shape %r' % (X.shape,))
			want = []
			for r in range(3):
				for k, s in enumerate(sizes):
					want += [symbols('w%d' % k, (3, s)).flat[r * s + i] for i in range(s)]
			ck.verdict('product', con, all(equal(poly(a), poly(b)) for a, b in zip(X.flat, want)), 'columns of the samples')
		tried(ck, 'product', con, go)


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	for c in ('psdr.NormalDomain', 'psdr.LogNormalDomain', 'psdr.UniformDomain', 'psdr.TensorProductDomain'):
		if P.cls(c) is None:
			raise AnalysisBroken('%s is gone' % c)
	normal(ck, P)
	lognormal(ck, P)
	uniform(ck, P)
	product(ck, P)
