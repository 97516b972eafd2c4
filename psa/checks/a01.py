"""A01: samplers return points of the domain, as many as asked.

The domain is a stand-in: each point it hands out is a row of fresh symbols, and all that is known about it is that it is inside.
A routine returns a point of the domain when the point is one of those, has passed the membership test of that domain, or is a
convex combination of such points: the weights are read off the formula."""
import math
from fractions import Fraction as Fr
from ..loader import AnalysisBroken
from .. import arr, formula
from ..arr import Interp, Fn, Obj, Arr, Ext, Cannot, Raised, CELL, symbols, to_arr, poly, num, dot, transpose, unwrap, integer
from ..formula import Poly, ZERO, ONE, diff, equal, div, TooBig, Undefined
from ..conv import Conv, value
from .f02 import Values
from .r01 import tried

RULES = [
	('member', 'every point returned is a point the domain gave, passed its membership test, or is a convex combination of such points', 60),
	('count', 'as many points as asked, one column for each coordinate', 40),
	('spacing', 'the points are spaced as the design promises', 20),
	('best', 'the candidate kept is the best of those examined', 8),
	('step', 'a move towards a Voronoi vertex stops at the boundary and keeps the equality constraints', 12),
	('weights', 'a quadrature weight belongs to its own point', 4),
	('batch', 'a stream of candidates never repeats what it gave before', 2),
	('record', 'a sampler keeps each value beside the point it was evaluated at', 4),
]
F = lambda x: Poly.const(Fr(x))


class World:
	"""points of stand-in domains"""

	def __init__(self, m=2, seed=1, box=(-1, 1)):
		self.m, self.seed, self.n = m, seed, 0
		self.pts = []			# (name, domain) of symbol rows
		self.passed = []		# rows that passed a membership test
		self.corners = []		# (direction, row)
		self.cells, self.calls = [], []
		self.box = box

	def rnd(self):
		self.seed = (self.seed * 1103515245 + 12345) % (1 << 31)
		return self.seed / (1 << 30) - 1

	def row(self, k=None, prefix='p', inside=True, at=None, scale=.9):
		"""a row of fresh symbols with values"""
		self.n += 1
		nm = '%s%d' % (prefix, self.n)
		a = symbols(nm, (self.m if k is None else k,))
		for i, x in enumerate(a.flat):
			CELL[0]['%s[%d]' % (nm, i)] = at[i] if at is not None else self.rnd() * scale
		if inside:
			self.pts.append(nm)
		return a

	def rows(self, n, **kw):
		rs = [self.row(**kw) for _ in range(n)]
		k = kw.get('k') or self.m
		return Arr((n, k), [x for r in rs for x in r.flat])

	def domain(self, **over):
		w = self
		o = Obj('domain')

		def sample(draw=1):
			d = integer(draw)
			r = w.rows(d)
			return Arr((w.m,), r.flat) if d == 1 else r

		def corner(u, **kw):
			u = to_arr(u)
			if u.shape != (w.m,):
				raise Raised('AssertionError')
			c = w.row(at=[(w.box[1] if value(poly(x), CELL[0]) >= 0 else w.box[0]) for x in u.flat])
			w.corners.append((u, c))
			return c

		def isinside(X, **kw):
			X = to_arr(X)
			one = len(X.shape) == 1
			R = [X] if one else [Arr((w.m,), X.flat[i * w.m:(i + 1) * w.m]) for i in range(X.shape[0])]
			out = []
			for r in R:
				if r.shape != (w.m,):
					raise Raised('AssertionError')
				v = [value(poly(x), CELL[0]) for x in r.flat]
				ok = all(w.box[0] <= t <= w.box[1] for t in v) and all(satisfies(c, v, w) for c in o.attrs.get('@cut', []))
				if ok:
					w.passed.append([poly(x) for x in r.flat])
				out.append(ok)
			return out[0] if one else Arr((len(out),), out)

		def sub(**kw):
			w.cells.append(kw)
			d = w.domain(**over)
			w.calls.append((d, kw))
			d.attrs['@cut'] = o.attrs.get('@cut', []) + [kw]
			return d
		lim = lambda s: Arr((w.m,), [F(w.box[s])] * w.m)
		eye = Arr((w.m, w.m), [F(i == j) for i in range(w.m) for j in range(w.m)])
		o.attrs.update({'@len': w.m, 'sample': sample, 'corner': corner, 'isinside': isinside, 'add_constraints': sub, 'is_empty': False, 'is_point': False,
			'is_box_domain': False, 'is_linquad_domain': True, 'is_unbounded': False, 'A_eq': Arr((0, w.m), []), 'b_eq': Arr((0,), []), 'A': Arr((0, w.m), []), 'b': Arr((0,), []),
			'Ls': [], 'lb': lim(0), 'ub': lim(1), 'norm_lb': lim(0), 'norm_ub': lim(1), 'names': None,
			'A_aug': Arr((2 * w.m, w.m), [-x for x in eye.flat] + list(eye.flat)), 'b_aug': Arr((2 * w.m,), [F(-w.box[0])] * w.m + [F(w.box[1])] * w.m),
			'_build_constraints': lambda x, **kw: [Obj('inside', {'x': x})], 'random_direction': lambda x: w.row(prefix='d', inside=False),
			'closest_point': lambda x, **kw: w.row(), 'constrained_least_squares': lambda A, b, **kw: w.row(), 'volume': lambda *a, **k: Poly.var('volume'), 'copy': lambda: w.domain(**over)})
		o.attrs['center'] = w.row() if over.get('center') else None
		if not over.get('center'):
			del o.attrs['center']
		o.attrs.update({k: v for k, v in over.items() if k != 'center'})
		return o

	# verdicts
	def reason(self, row):
		"""None if the row is certainly a point of the domain, otherwise why it need not be"""
		r = [poly(x) for x in row]
		if len(r) != self.m:
			return 'has %d coordinates' % len(r)
		for p in self.passed:
			if all(equal(a, b) for a, b in zip(r, p)):
				return None
		names = {a[1] for x in r for a in x.atoms() if a[0] == 'v'}
		ws, rest = [], list(r)
		for nm in dict.fromkeys(self.pts):
			sy = ['%s[%d]' % (nm, j) for j in range(self.m)]
			if not any(s in names for s in sy):
				continue
			D = [[diff(x, s) for s in sy] for x in r]
			for i in range(self.m):
				for j in range(self.m):
					if i != j and D[i][j].t and not equal(D[i][j], ZERO):
						return 'coordinate %d depends on coordinate %d of a point' % (i, j)
			for i in range(1, self.m):
				if not equal(D[i][i], D[0][0]):
					return 'coordinates are weighted differently'
			wt = D[0][0]
			if any(a[0] == 'v' and a[1].split('[')[0] in self.pts for a in wt.atoms()):
				raise Cannot('weights depend on points')
			ws.append(wt)
			rest = [x - wt * Poly.var(s) for x, s in zip(rest, sy)]
		if not ws:
			return 'is no point of the domain: %s' % str(r[0])[:60]
		if any(x.t and not equal(x, ZERO) for x in rest):
			return 'contains what is not known to be inside: %s' % ', '.join(sorted({a[1] for x in rest for a in x.atoms() if a[0] == 'v'}))[:80]
		tot = ZERO
		for x in ws:
			tot = tot + x
		if not equal(tot, ONE):
			return 'weights do not sum to one'
		free = sorted({a[1] for x in ws for a in x.atoms() if a[0] == 'v'})
		for t in range(1 if not free else 20):
			cell = Values()
			cell.update(CELL[0])
			if t:
				for v in free:
					if v.startswith('u'):
						cell[v] = abs(self.rnd())
			if any(value(x, cell) < -1e-9 for x in ws):
				return 'has a negative weight'
		return None

	def judge(self, ck, con, X, n=None, rule='member'):
		X = to_arr(X)
		if len(X.shape) == 1:
			X = Arr((1,) + X.shape, X.flat)
		k = X.shape[1]
		if n is not None:
			ck.verdict('count', con, X.shape == (n, self.m), 'shape %s, asked %d' % (X.shape, n))
		if k != self.m:
			return ck.bad(rule, con, 'points have %d coordinates' % k)
		for i in range(X.shape[0]):
			why = self.reason(X.flat[i * k:(i + 1) * k])
			if why:
				return ck.bad(rule, con, 'point %d %s' % (i, why))
		ck.ok(rule, con, '%d points' % X.shape[0])

	def at(self, X):
		X = to_arr(X)
		k = X.shape[-1]
		v = [value(poly(x), CELL[0]) for x in X.flat]
		return [v[i:i + k] for i in range(0, len(v), k)]

	# library stand-ins
	def hooks(self):
		w = self

		def uniform(I, a, k):
			lo, hi = a[0] if a else k.get('low', 0), a[1] if len(a) > 1 else k.get('high', 1)
			s = a[2] if len(a) > 2 else k.get('size')
			sh = () if s is None else tuple(integer(x) for x in s) if isinstance(s, (tuple, list)) else (integer(s),)
			if sh == () and isinstance(lo, Arr):
				sh = lo.shape
			w.n += 1
			t = symbols('u%d' % w.n, sh) if sh else Poly.var('u%d' % w.n)
			for x in to_arr(t).flat:
				for at in poly(x).atoms():
					CELL[0][at[1]] = abs(w.rnd())
			return arr.elementwise(lambda l, h, x: poly(l) + poly(x) * (poly(h) - poly(l)), lo, hi, t)

		def randn(I, a, k):
			sh = tuple(integer(x) for x in a)
			w.n += 1
			z = symbols('z%d' % w.n, sh) if sh else Poly.var('z%d' % w.n)
			for x in to_arr(z).flat:
				for at in poly(x).atoms():
					CELL[0][at[1]] = 2 * w.rnd()
			return z

		def normal(I, a, k):
			s = a[2] if len(a) > 2 else k.get('size', ())
			return randn(I, list(s) if isinstance(s, (tuple, list)) else [s], {})

		def permutation(I, a, k):
			v = a[0]
			if isinstance(v, (int, float, Poly)) and not isinstance(v, bool):
				v = Arr((integer(v),), [F(i) for i in range(integer(v))])
			v = to_arr(v)
			if not v.shape[0]:
				return v
			n = v.shape[0]
			st = len(v.flat) // n
			sh = int(abs(w.rnd()) * n) % n
			idx = [(i * (n - 1 if n > 2 else 1) + sh) % n for i in range(n)]
			if sorted(idx) != list(range(n)):
				idx = list(range(n))
			return Arr(v.shape, [x for i in idx for x in v.flat[i * st:(i + 1) * st]])

		def assignment(I, a, k):
			D = to_arr(a[0])
			n, mm = D.shape
			from itertools import permutations
			vals = [value(poly(x), CELL[0]) for x in D.flat]
			if mm < n or mm > 8:
				raise Cannot('assignment')
			best = min(permutations(range(mm), n), key=lambda p: sum(vals[i * mm + p[i]] for i in range(n)))
			ar = lambda v: Arr((n,), [F(x) for x in v])
			return (ar(range(n)), ar(best))

		def unique(I, fn, a, k):
			return Arr((to_arr(a[0]).shape[0],), [True] * to_arr(a[0]).shape[0])

		def vsample(I, fn, a, k):
			ps = fn.node.args.args
			b = dict(zip([p.arg for p in ps], a))
			b.update(k)
			X0 = to_arr(b['X0'])
			if not to_arr(b['Xhat']).flat:
				raise Raised('IndexError')
			n = 1 if len(X0.shape) == 1 else X0.shape[0]
			X = w.rows(n)
			w.calls.append(('vsample', b, X))
			return X

		def vertex(I, fn, a, k):
			ps = fn.node.args.args
			b = dict(zip([p.arg for p in ps], a))
			b.update(k)
			X = w.rows(4)
			w.calls.append(('vertex', b, X))
			return X

		def lowrank(I, fn, a, k):
			L = to_arr(a[0])
			return Arr(L.shape, L.flat)
		def number(t):
			return Poly.const(Fr(value(poly(t), CELL[0])).limit_denominator(10 ** 12))

		def far(I, a, k):
			if any(arr.decision(x) for x in a) or len(a) > 2 or k:
				return arr.cdist(*a, **k)
			A, B = to_arr(a[0]), to_arr(a[-1])
			if len(A.shape) != 2 or len(B.shape) != 2 or A.shape[1] != B.shape[1]:
				raise Raised('ValueError')
			return Arr((A.shape[0], B.shape[0]), [Poly.const(Fr(dist(x, y)).limit_denominator(10 ** 12)) for x in w.at(A) for y in w.at(B)])

		def pairs(I, a, k):
			D = far(I, a, k)
			n = D.shape[0]
			return Arr((n * (n - 1) // 2,), [D.flat[i * n + j] for i in range(n) for j in range(i + 1, n)])

		def norm(I, a, k):
			if arr.decision(a[0]):
				return I.linalg('norm', a, k)
			x = to_arr(a[0])
			return I.linalg('norm', [Arr(x.shape, [number(t) for t in x.flat])] + a[1:], k)
		silent = lambda I, a, k: Obj('printer', {'print_iter': lambda *a, **k: None, 'print_header': lambda *a, **k: None})
		return {'numpy.random.uniform': uniform, 'numpy.random.rand': lambda I, a, k: uniform(I, [0, 1, tuple(a)], {}), 'numpy.random.randn': randn, 'numpy.random.normal': normal,
			'numpy.random.permutation': permutation, 'scipy.optimize.linear_sum_assignment': assignment, 'geometry.geometry.unique_points': unique,
			'geometry.vertex.voronoi_vertex_sample': vsample, 'geometry.vertex.voronoi_vertex': vertex, 'sample.util.low_rank_L': lowrank,
			'scipy.spatial.distance.cdist': far, 'scipy.spatial.distance.pdist': pairs, 'numpy.linalg.norm': norm, 'scipy.linalg.norm': norm, 'iterprinter.IterationPrinter': silent, 'builtins.print': lambda I, a, k: None}


def satisfies(cut, v, w):
	"""do the values meet the constraints added"""
	out = True
	for A, b, eq in (('A', 'b', False), ('A_eq', 'b_eq', True)):
		if cut.get(A) is None:
			continue
		for r, c in zip(w.at(arr.atleast(cut[A], 2)), [value(poly(x), CELL[0]) for x in to_arr(cut[b]).flat]):
			d = sum(x * y for x, y in zip(r, v)) - c
			out = out and (abs(d) < 1e-7 if eq else d <= 1e-9)
	return out


class Fits(Conv):
	"""problems whose answers are points of the domain when they are constrained to it"""

	def __init__(self, w):
		Conv.__init__(self)
		self.w = w

	def variable(self, shape, name=None, sym=False):
		v = Conv.variable(self, shape, name, sym)
		for x in to_arr(v).flat:
			for a in poly(x).atoms():
				CELL[0]['!' + a[1][1:]] = self.w.rnd() * .9
		return v

	def hooks(self):
		h = Conv.hooks(self)
		base = h['cvxpy.Problem']

		def Problem(I, args, kw):
			cons = list(I.iterate(args[1] if len(args) > 1 else kw.get('constraints', [])))
			for c in cons:
				if isinstance(c, Obj) and c.cls == 'inside':
					x = to_arr(c.attrs['x'])
					nm = {a[1].split('[')[0] for t in x.flat for a in poly(t).atoms()}
					if len(nm) == 1 and x.shape == (self.w.m,) and all(equal(poly(t), Poly.var('%s[%d]' % (list(nm)[0], i))) for i, t in enumerate(x.flat)):
						self.w.pts.append('!' + list(nm)[0][1:])
			return base(I, args, kw)
		h['cvxpy.Problem'] = Problem
		h['cvxpy.mixed_norm'] = lambda I, a, k: Obj('atom', {'fn': 'mixed', 'arg': a[0], 'p': a[1], 'q': a[2]})
		return h


def must(ck, rule, con, go):
	"""a request every sampler has to meet: refusing it is a violation"""
	def body():
		try:
			return go()
		except Raised as e:
			if e.name in ('IndexError', 'ValueError', 'AssertionError', 'UnboundLocalError', 'ZeroDivisionError'):
				return ck.bad('count', con, 'refused: %s' % e.name)
			raise
	tried(ck, rule, con, body)


def fn(P, q):
	f = P.func('psdr.' + q)
	return Fn(f, f.node, None, None)


def start(m=2, seed=1):
	CELL[0] = Values()
	formula.OPS[0] = 0
	return World(m, seed)


def dist(a, b, L=None):
	if L is not None:
		a, b = ([sum(x * y for x, y in zip(r, v)) for r in L] for v in (a, b))
	return sum((x - y) ** 2 for x, y in zip(a, b)) ** .5


def evenly(ck, con, w, X, weights, L):
	"""the rows are these weights of the corners along +L and -L"""
	X = to_arr(X)
	m = w.m
	good = len(w.corners) == 2
	if good:
		(u1, c1), (u2, c2) = w.corners
		l = [poly(x) for x in to_arr(L).flat]
		prop = lambda u, s: [equal(poly(u.flat[i]) * l[j], poly(u.flat[j]) * l[i]) for i in range(m) for j in range(m)] + [value(poly(x), CELL[0]) * value(y, CELL[0]) * s >= 0 for x, y in zip(u.flat, l)]
		if all(prop(u1, 1)) and all(prop(u2, -1)):
			pass
		elif all(prop(u1, -1)) and all(prop(u2, 1)):
			pass
		else:
			return ck.bad('spacing', con, 'the ends are not the extreme points along the direction')
		rows = [[poly(x) for x in X.flat[i * m:(i + 1) * m]] for i in range(X.shape[0])]
		got = sorted(value(diff(r[0], list(poly(c1.flat[0]).atoms())[0][1]), CELL[0]) for r in rows)
		ck.verdict('spacing', con, len(got) == len(weights) and all(abs(a - b) < 1e-12 for a, b in zip(got, sorted(weights))), 'positions %s along the direction' % ', '.join('%.3f' % t for t in got))
	else:
		ck.unknown('spacing', con, '%d corners' % len(w.corners))


def lines(ck, P):
	for N in (1, 2, 3, 5):
		for q, weights in (('sample.maximin.maximin_design_1d', [Fr(i, max(N - 1, 1)) for i in range(N)]), ('sample.minimax.minimax_design_1d', [Fr(2 * i + 1, 2 * N) for i in range(N)]), ('sample.minimax.minimax_design', [Fr(2 * i + 1, 2 * N) for i in range(N)]),
				('sample.minimax_lloyd.minimax_lloyd', [Fr(2 * i + 1, 2 * N) for i in range(N)]), ('sample.maximin.maximin_block', [Fr(i, max(N - 1, 1)) for i in range(N)])):
			con = '%s: %d points along one direction' % (q.split('.')[-1], N)

			def go():
				w = start(3)
				I = Interp(P, {**w.hooks(), **Fits(w).hooks()})
				L = symbols('l', (1, 3))
				for j, v in enumerate((.9, -.6, .4)):
					CELL[0]['l[0,%d]' % j] = v
				X = I.call(fn(P, q), [w.domain(), N], {'L': L})
				w.judge(ck, con, X, N)
				if N > 1 or 'minimax' in q:
					evenly(ck, con, w, X, weights, L)
			must(ck, 'member', con, go)


def initial(ck, P):
	f = 'sample.initial.initial_sample'
	for name, L in (('identity', Arr((2, 2), [ONE, ZERO, ZERO, ONE])), ('scaled identity', Arr((2, 2), [F(3), ZERO, ZERO, F(3)])), ('one direction', Arr((1, 3), [F(1), F(2), F(-1)])), ('two directions', Arr((2, 3), [F(1), F(2), F(-1), F(0), F(1), F(3)])), ('square', Arr((2, 2), [F(1), F(2), F(0), F(3)]))):
		con = 'initial_sample: %s metric' % name

		def go():
			m = L.shape[1]
			w = start(m)
			H = w.hooks()

			def hull(I, cls, a, k):
				Y = to_arr(a[0])
				w.calls.append(('hull', Y))
				o = Obj('hull')

				def coefficients(y, **kw):
					w.n += 1
					n = Y.shape[0]
					al = [Poly.var('h%d[%d]' % (w.n, i)) for i in range(n - 1)]
					for x in al:
						CELL[0][list(x.atoms())[0][1]] = .9 / n
					last = ONE
					for x in al:
						last = last - x
					mixed.append([sum((a * poly(r[j]) for a, r in zip(al + [last], rowsof(Y))), ZERO) for j in range(Y.shape[1])])
					return Arr((n,), al + [last])
				o.attrs.update({'sample': lambda n=1: w.rows(integer(n), k=Y.shape[1], prefix='y', inside=False), 'coefficients': coefficients, '@len': Y.shape[1]})
				return o
			H['psdr.domains.convexhull.ConvexHullDomain'] = hull
			H['geometry.geometry.sample_sphere'] = lambda I, fn, a, k: w.rows(integer(a[1]), k=integer(a[0]), prefix='s', inside=False)

			def qr(I, a, k):
				A = to_arr(a[0])
				return (w.rows(A.shape[0], k=A.shape[1], prefix='q', inside=False), None)
			H['numpy.linalg.qr'] = H['scipy.linalg.qr'] = qr

			def some(I, fn, a, k):
				n = to_arr(a[0]).shape[0]
				return Arr((n,), [i != 1 or n < 3 for i in range(n)])
			H['geometry.geometry.unique_points'] = some
			mixed = []
			X = Interp(P, H).call(fn(P, f), [w.domain(), L], {'Nsamp': 3, 'Nboundary': 4})
			w.judge(ck, con, X, 3)
			if mixed:
				img = [[sum((poly(L.flat[i * m + j]) * poly(r[j]) for j in range(m)), ZERO) for i in range(L.shape[0])] for r in rowsof(X)]
				ck.verdict('weights', con, len(img) == len(mixed) and all(same(a, b) for a, b in zip(img, mixed)), 'the weights found among the projected corners are given to the corners projected')
		must(ck, 'member', con, go)


def maximin(ck, P):
	f = 'sample.maximin.maximin_block'
	for name, L, X0 in (('no metric', None, False), ('metric', Arr((2, 2), [F(1), F(2), F(0), F(3)]), False), ('start given', None, True)):
		con = 'maximin_block: %s' % name

		def go():
			w = start(2)
			H = w.hooks()
			H['sample.initial.initial_sample'] = lambda I, fn, a, k: w.rows(integer(a[2] if len(a) > 2 else k['Nsamp']))
			kw = {'maxiter': 2}
			if L is not None:
				kw['L'] = L
			if X0:
				kw['X0'] = w.rows(4)
			X = Interp(P, H, steps=400000).call(fn(P, f), [w.domain(), 4], kw)
			w.judge(ck, con, X, 4)
			calls = [c for c in w.calls if c[0] == 'vsample']
			others = all(to_arr(c[1]['Xhat']).shape == (3, 2) for c in calls) and all(not any(same(r, to_arr(c[1]['X0']).flat) for r in rowsof(c[1]['Xhat'])) for c in calls)
			ck.verdict('best', con, bool(calls) and others, 'each of %d moves is away from the other points' % len(calls))
		must(ck, 'member', con, go)
	con = 'maximin_block: a single point'

	def go():
		w = start(2)
		H = w.hooks()
		H['sample.initial.initial_sample'] = lambda I, fn, a, k: w.rows(integer(a[2] if len(a) > 2 else k['Nsamp']))
		w.judge(ck, con, Interp(P, H, steps=400000).call(fn(P, 'sample.maximin.maximin_block'), [w.domain(), 1], {}), 1)
	must(ck, 'member', con, go)
	f = 'sample.maximin_coffeehouse.maximin_coffeehouse'
	for name, m, L, full in (('plane', 2, None, None), ('plane, sampled', 2, None, False), ('metric', 2, Arr((2, 2), [F(1), F(2), F(0), F(3)]), None), ('metric, sampled', 2, Arr((2, 2), [F(1), F(2), F(0), F(3)]), False), ('four coordinates', 4, None, None), ('four coordinates, full', 4, None, True)):
		for N in (1, 4):
			con = 'maximin_coffeehouse: %s, %d points' % (name, N)

			def go():
				w = start(m, 7)
				X = Interp(P, w.hooks(), steps=400000).call(fn(P, f), [w.domain(), N], {'L': L, 'full': full, 'N0': 5, 'verbose': False})
				w.judge(ck, con, X, N)
				calls = [c for c in w.calls if c[0] in ('vsample', 'vertex')]
				V = w.at(X)
				Lv = w.at(L) if L is not None else None
				ok = len(calls) == N - 1
				for j, c in enumerate(calls):
					cand = w.at(c[2])
					have = V[:j + 1]
					far = [min(dist(x, y, Lv) for y in have) for x in cand]
					ok = ok and abs(min(dist(V[j + 1], y, Lv) for y in have) - max(far)) < 1e-9 and to_arr(c[1]['Xhat']).shape == (j + 1, m)
				if N > 1:
					ck.verdict('best', con, ok, 'each new point is the candidate farthest from those before it')
				if N > 1 and calls:
					want = 'vertex' if full or full is None and m <= 3 else 'vsample'
					ck.verdict('best', con + ' (candidates)', all(c[0] == want for c in calls) and all(c[1].get('L') is not None and same(to_arr(c[1]['L']).flat, to_arr(L).flat) for c in calls if L is not None), 'candidates from %s in the metric' % want)
			must(ck, 'member', con, go)


def same(a, b):
	a, b = [poly(x) for x in a], [poly(x) for x in b]
	return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))


def rowsof(X):
	X = to_arr(X)
	k = X.shape[-1]
	return [X.flat[i:i + k] for i in range(0, len(X.flat), k)]


def latin(ck, P):
	for f, kw, more in (('sample.latin.latin_hypercube_sample', {}, 'latin_hypercube_sample'), ('sample.latin.latin_hypercube_maximin', {'maxiter': 3}, 'latin_hypercube_maximin'), ('sample.latin.latin_hypercube_maximin', {'maxiter': 1}, 'latin_hypercube_maximin, one trial')):
		for N in (1, 2, 3, 5):
			con = '%s: %d points' % (more, N)

			def go():
				w = start(2)
				lo, hi = symbols('lo', (2,)), symbols('hi', (2,))
				for i in range(2):
					CELL[0]['lo[%d]' % i], CELL[0]['hi[%d]' % i] = -.3 - i, 1.2 + i
				D = w.domain(is_box_domain=True, norm_lb=lo, norm_ub=hi, lb=lo, ub=hi)
				X = Interp(P, w.hooks(), steps=400000).call(fn(P, f), [D, N], dict(kw))
				if not isinstance(X, Arr):
					return ck.bad('count', con, 'returns %s' % type(X).__name__)
				ck.verdict('count', con, X.shape == (N, 2), 'shape %s' % (X.shape,))
				if X.shape != (N, 2):
					return
				inside, once = True, True
				for j in range(2):
					col = [poly(X.flat[i * 2 + j]) for i in range(N)]
					for lv, hv in ((0., 1.), (-2., 5.), (3., 3.5)):
						cell = Values()
						cell['lo[%d]' % j], cell['hi[%d]' % j] = lv, hv
						v = [value(x, cell) for x in col]
						inside = inside and all(lv - 1e-12 <= t <= hv + 1e-12 for t in v)
						once = once and sorted(int((t - lv) / (hv - lv) * N) for t in v) == list(range(N))
				ck.verdict('member', con, inside, 'within the bounds')
				ck.verdict('spacing', con, once, 'one point in each of the %d intervals of every coordinate' % N)
			(must if N == 1 else tried)(ck, 'count', con, go)
	con = 'latin_hypercube_maximin: best kept'

	def go():
		w = start(2)
		D = w.domain(is_box_domain=True)
		H, seen = w.hooks(), []
		base = P.func('psdr.sample.latin._score_maximin')

		def score(I, f, a, k):
			seen.append((to_arr(a[0]), (3, 5, 2, 4)[len(seen) % 4]))
			return (F(seen[-1][1]),) * 4
		H['sample.latin._score_maximin'] = score
		X = Interp(P, H, steps=400000).call(fn(P, 'sample.latin.latin_hypercube_maximin'), [D, 4], {'maxiter': 4})
		if not seen:
			return ck.unknown('best', con, 'no scores asked for')
		b = max(seen, key=lambda t: t[1])
		ck.verdict('best', con, same(X.flat, b[0].flat), 'best of %d trials' % len(seen))
	must(ck, 'best', con, go)


def poisson(ck, P):
	for f in ('poisson_disk_sample', 'poisson_disk_sample_grid'):
		for name, L in (('no metric', None), ('metric', Arr((2, 2), [F(1), F(Fr(1, 2)), F(0), F(2)]))):
			for seed in (1, 5):
				con = '%s: %s, draws %d' % (f, name, seed)

				def go():
					w = start(2, seed)
					r = Fr(7, 10) if L is None else Fr(11, 10)
					D = w.domain()
					H = w.hooks()
					X = Interp(P, H, steps=900000).call(fn(P, 'sample.poisson.' + f), [D, F(r)], {'L': L, 'Ntries': 3})
					w.judge(ck, con, X)
					V, Lv = w.at(X), w.at(L) if L is not None else None
					near = [(i, j) for i in range(len(V)) for j in range(i) if dist(V[i], V[j], Lv) <= float(r)]
					ck.verdict('spacing', con, not near, '%d points more than %s apart' % (len(V), r))
				must(ck, 'member', con, go)


def sobol(ck, P):
	for N in (1, 4, 6):
		con = 'sobol_sequence: %d points' % N

		def go():
			w = start(2)
			w.box = (-1, .4)
			asked = []

			def gen(I, a, k):
				m, n, skip = [integer(x) for x in (list(a) + [k[q] for q in ('dim_num', 'n', 'skip')[len(a):] if q in k] + [1])[:3]]
				asked.append((skip, n))
				t = w.rows(n, prefix='u', inside=False)
				for x in t.flat:
					CELL[0][list(poly(x).atoms())[0][1]] = abs(w.rnd())
				return t
			H = w.hooks()
			H['sobol_seq.i4_sobol_generate'] = gen
			X = Interp(P, H, steps=400000).call(fn(P, 'sample.sobol.sobol_sequence'), [w.domain(norm_lb=Arr((2,), [F(-1)] * 2), norm_ub=Arr((2,), [F(1)] * 2)), N], {})
			w.judge(ck, con, X, N)
			used = [i for s, n in asked for i in range(s, s + n)]
			ck.verdict('batch', con, len(used) == len(set(used)), 'members %s of the sequence' % asked)
		must(ck, 'member', con, go)


SQUARE = Arr((2, 2), [F(1), F(2), F(0), F(3)])
WIDE = Arr((2, 3), [F(1), F(2), F(-1), F(0), F(1), F(3)])


def reach(X, Y, L=None):
	"""the largest distance from a point of Y to its nearest point of X"""
	return max(min(dist(x, y, L) for x in X) for y in Y)


def cluster(ck, P):
	f = 'sample.minimax.minimax_cluster'
	for name, m, L, given in (('no metric', 2, None, ''), ('metric', 2, SQUARE, ''), ('flat metric', 3, WIDE, ''), ('points given', 2, None, 'X'), ('design given', 2, None, 'Xhat'), ('points given, flat metric', 3, WIDE, 'X'), ('points and design given', 2, SQUARE, 'X Xhat')):
		for seed in (1, 3):
			con = 'minimax_cluster: %s, draws %d' % (name, seed)

			def go():
				w = start(m, seed)
				cv = Fits(w)
				H = {**w.hooks(), **cv.hooks()}
				H['sample.sobol.sobol_sequence'] = lambda I, fn, a, k: w.rows(integer(a[1]))
				kw = {'L': L, 'maxiter': 3, 'N0': 6, 'verbose': False, 'xtol': 0}
				if 'X' in given.split():
					kw['X'] = w.rows(6)
				if 'Xhat' in given:
					kw['Xhat'] = w.rows(2)
				X = Interp(P, H, steps=600000).call(fn(P, f), [w.domain(), 2], kw)
				w.judge(ck, con, X, 2)
			must(ck, 'member', con, go)
	con = 'minimax_cluster: best kept'

	def go():
		w = start(2, 9)
		cv = Fits(w)
		H = {**w.hooks(), **cv.hooks()}
		H['sample.sobol.sobol_sequence'] = lambda I, fn, a, k: w.rows(integer(a[1]))
		S, T = w.rows(6), w.rows(2)
		X = Interp(P, H, steps=600000).call(fn(P, f), [w.domain(), 2], {'X': S, 'Xhat': T, 'maxiter': 4, 'verbose': False, 'xtol': 0})
		Y, v = w.at(S), [w.at(T)]
		k = len(cv.problems) // 2
		for j in range(k - 1):
			v.append([[CELL[0]['!%d[%d]' % (2 * j + i + 1, c)] for c in range(2)] for i in range(2)])
		got = reach(w.at(X), Y)
		ck.verdict('best', con, got <= min(reach(x, Y) for x in v) + 1e-9, 'largest distance %.3f, designs measured %s' % (got, ', '.join('%.3f' % reach(x, Y) for x in v)))
	must(ck, 'best', con, go)
	f = 'sample.minimax.minimax_cluster_pso'
	for name, m, L, kw in (('no metric', 2, None, {}), ('metric', 2, SQUARE, {}), ('flat metric', 3, WIDE, {}), ('own draws', 2, None, {'a4': 3}), ('worst kept', 2, None, {'remove_worst': False})):
		con = 'minimax_cluster_pso: %s' % name

		def go():
			w = start(m, 5)
			cv = Fits(w)
			H = {**w.hooks(), **cv.hooks()}
			H['sample.sobol.sobol_sequence'] = lambda I, fn, a, k: w.rows(integer(a[1]))
			k = {'L': L, 'maxiter': 1, 'N0': 5, 'verbose': False, 'n_particles': 2}
			k.update(kw)
			X, score = Interp(P, H, steps=900000).call(fn(P, f), [w.domain(), 2], k)
			w.judge(ck, con, X, 2)
		must(ck, 'member', con, go)
	f = 'sample.minimax_lloyd.minimax_lloyd'
	for name, m, L, full, given in (('no metric', 2, None, None, False), ('metric', 2, SQUARE, None, False), ('sampled', 2, None, False, False), ('three coordinates', 3, None, None, False), ('design given', 2, None, None, True), ('metric, sampled', 2, SQUARE, False, True)):
		con = 'minimax_lloyd: %s' % name

		def go():
			w = start(m, 5)
			cv = Fits(w)
			H = {**w.hooks(), **cv.hooks()}
			for q in ('sample.maximin_coffeehouse.maximin_coffeehouse', 'sample.maximin.maximin_block'):
				H[q] = lambda I, fn, a, k: w.rows(integer(a[1]))
			kw = {'L': L, 'full': full, 'maxiter': 2, 'verbose': False}
			if given:
				kw['Xhat'] = w.rows(3)
			X = Interp(P, H, steps=900000).call(fn(P, f), [w.domain(), 3], kw)
			w.judge(ck, con, X, 3)
		must(ck, 'member', con, go)
	f = 'sample.minimax_scale.minimax_scale'
	for name, full in (('vertices', True), ('sampled vertices', False), ('chosen', None)):
		for miss in (None, 'ValueError'):
			con = 'minimax_scale: %s%s' % (name, ', search fails' if miss else '')

			def go():
				w = start(2, 5)
				H = w.hooks()

				def search(I, a, k):
					I.call(a[0], [F(Fr(3, 4))])
					if miss:
						raise Raised(miss)
					bounded = (k.get('bounds') is not None and k.get('method') in (None, 'bounded', 'Bounded'))
					w.n += 1
					nm = ('u%d' if bounded else 'free%d') % w.n
					CELL[0][nm] = .7
					t = Poly.var(nm)
					if bounded:
						lo, hi = [poly(x) for x in I.iterate(k['bounds'])]
						t = lo + (hi - lo) * t
					else:
						CELL[0][nm] = 1.7
					return Obj('result', {'x': t, 'success': True})
				H['scipy.optimize.minimize_scalar'] = search
				X = Interp(P, H, steps=600000).call(fn(P, f), [w.domain(center=True), w.rows(3)], {'full': full, 'npoints': 3, 'N0': 4, 'verbose': False})
				w.judge(ck, con, X, 3)
			must(ck, 'member', con, go)


def covering(ck, P):
	f = 'sample.minimax.minimax_covering_discrete'
	for name, L in (('no metric', None), ('metric', SQUARE)):
		con = 'minimax_covering_discrete: %s' % name

		def go():
			w = start(2, 5)
			cv = Fits(w)
			H = {**w.hooks(), **cv.hooks()}
			made = []

			def Variable(I, a, k):
				if not k.get('boolean') or integer(a[0] if a else k['shape']) != 4:
					raise Cannot('variable')
				v = cv.variable((4,))
				made.append(v)
				for x, t in zip(v.flat, (1, 0, 1, 0)):
					CELL[0]['!' + list(poly(x).atoms())[0][1][1:]] = t
				return v
			H['cvxpy.Variable'] = Variable
			X = w.rows(4)
			r = Fr(1) if L is None else Fr(2)
			I = Interp(P, H, steps=300000).call(fn(P, f), [X, F(r)], {'L': L})
			got = [x is True for x in to_arr(I).flat]
			ck.verdict('member', con, got == [True, False, True, False] and all(isinstance(x, bool) for x in to_arr(I).flat), 'the points selected by the solution')
			V, Lv = w.at(X), w.at(L) if L is not None else None
			from ..conv import matrices
			want = [[dist(a, b, Lv) < float(r) for b in V] for a in V]
			rows = []
			for c in cv.problems[0]['constraints']:
				for kind, ps, n in matrices(c):
					rows.append([value(diff(ps[0], list(poly(x).atoms())[0][1]), CELL[0]) for x in made[0].flat] + [value(_at0(ps[0], made[0]), CELL[0])])
			exp = [[1. if t else 0. for t in r_] + [-1.] for r_ in want]
			ck.verdict('spacing', con, sorted(rows) == sorted(exp), 'each point has a chosen point within the radius')
		must(ck, 'member', con, go)
	con = 'minimax_covering'

	def go():
		w = start(2, 5)
		H = w.hooks()
		log = {}

		def pd(I, fn_, a, k):
			log['r'] = a[1]
			return w.rows(4)

		def disc(I, fn_, a, k):
			log['d'] = a[1]
			return Arr((4,), [True, False, False, True])
		H['sample.poisson.poisson_disk_sample'] = pd
		H['sample.minimax.minimax_covering_discrete'] = disc
		r = Poly.var('radius')
		X = Interp(P, H).call(fn(P, 'sample.minimax.minimax_covering'), [w.domain(), r], {})
		w.judge(ck, con, X, 2)
		# a point of the domain is within twice ... of a candidate (maximal packing), which is within the covering radius of a chosen one
		tot = value(poly(log['r']) + poly(log['d']), {'radius': 1.}) if log else None
		ck.verdict('spacing', con, None if tot is None else tot <= 1 + 1e-12, 'packing radius plus covering radius is %s of the radius asked' % tot)
	must(ck, 'member', con, go)


def _at0(p, v):
	from ..conv import rename_zero
	return rename_zero(p, {list(poly(x).atoms())[0][1] for x in v.flat})


def sequential(ck, P):
	f = 'sample.seqmaximin.seq_maximin_sample'
	LS = {'none': None, 'one metric': [SQUARE], 'two metrics': [Arr((1, 2), [F(1), F(2)]), Arr((1, 2), [F(0), F(1)])]}
	for name, Ls in LS.items():
		for have in (0, 3):
			con = 'seq_maximin_sample: %s, %d points' % (name, have)

			def go():
				w = start(2, 5)
				H = w.hooks()
				H['sample.initial.initial_sample'] = lambda I, fn, a, k: w.rows(3)

				def svd(I, a, k):
					A = to_arr(a[0])
					n = A.shape[1]
					return (None, Arr((min(A.shape),), [F(3 - i) for i in range(min(A.shape))]), w.rows(n, k=n, prefix='v', inside=False))
				H['scipy.linalg.svd'] = svd
				H['numpy.linalg.svd'] = svd
				X = Interp(P, H, steps=900000).call(fn(P, f), [w.domain(), w.rows(have) if have else []], {'Ls': Ls, 'Nsamp': 6})
				w.judge(ck, con, X, 1)
				X = to_arr(X)
				ck.verdict('count', con + ' (row)', X.shape == (2,), 'shape %s' % (X.shape,))
			must(ck, 'member', con, go)
	con = 'SequentialMaximinSampler'
	cls = P.cls('psdr.sample.sample.SequentialMaximinSampler')
	for name, prior, vec in (('no data', 0, False), ('data', 2, False), ('data, vector values', 2, True), ('no data, vector values', 0, True)):
		con = 'SequentialMaximinSampler: %s' % name

		def go():
			w = start(2, 5)
			H = w.hooks()
			H['sample.seqmaximin.seq_maximin_sample'] = lambda I, fn, a, k: w.row()
			val = lambda x: [Poly.var('f') * poly(x.flat[0]) + poly(x.flat[1])] + ([poly(x.flat[0])] if vec else [])

			def ev(X):
				rs = rowsof(X)
				out = [t for r in rs for t in val(Arr((2,), r))]
				return Arr((len(rs), 2) if vec else (len(rs),), out)
			fun = Obj('fun', {'domain': w.domain(), 'eval': ev, '__call__': ev})
			kw = {}
			if prior:
				kw['X'] = w.rows(prior)
				kw['fX'] = ev(kw['X'])
			I = Interp(P, H)
			o = I.new(cls, [fun], kw)
			for n in (2, 1):
				I.call(I.attr(o, 'sample'), [n])
			X, fX = I.attr(o, 'X'), I.attr(o, 'fX')
			w.judge(ck, con, X, prior + 3)
			ck.verdict('record', con, same(to_arr(fX).flat, ev(X).flat) and to_arr(fX).shape == ev(X).shape, 'values %s of points %s' % (to_arr(fX).shape, to_arr(X).shape))
			ck.verdict('record', con + ' (kept)', not prior or same(to_arr(X).flat[:2 * prior], kw['X'].flat), 'the points given come first')
		must(ck, 'member', con, go)
	f = 'sample.stretch.stretch_sample'
	for name, n, point in (('one metric', 1, False), ('two metrics', 2, False), ('down to a point', 2, True)):
		con = 'stretch_sample: %s' % name

		def go():
			w = start(2, 5)
			H = w.hooks()
			H['sample.initial.initial_sample'] = lambda I, fn, a, k: w.rows(3)
			H['geometry.cdist.cdist'] = lambda I, fn, a, k: arr.cdist(*[t if len(a) < 3 or a[2] is None else transpose(dot(a[2], transpose(to_arr(t)))) for t in (to_arr(a[0]), to_arr(a[1]))])
			D = w.domain(is_point=point)
			X = Interp(P, H, steps=300000).call(fn(P, f), [D, w.rows(3), [Arr((1, 2), [F(1), F(i)]) for i in range(n)]], {})
			w.judge(ck, con, X, 1)
		must(ck, 'member', con, go)
	con = 'random_sample'

	def go():
		for N in (1, 3):
			w = start(2, 5)
			X = Interp(P, w.hooks()).call(fn(P, 'sample.random_sample.random_sample'), [w.domain(), N], {})
			w.judge(ck, '%s: %d' % (con, N), X, N)
	must(ck, 'member', con, go)


def vertex(ck, P):
	con = 'voronoi_vertex: one coordinate'

	def go():
		w = start(1, 3)
		X = Interp(P, {k: v for k, v in w.hooks().items() if not k.startswith('geometry.vertex')}).call(fn(P, 'geometry.vertex.voronoi_vertex'), [w.domain(), w.rows(3)], {})
		w.judge(ck, con, X)
		v = sorted(t for r in w.at(X) for t in r)
		p = sorted(CELL[0]['%s[0]' % n] for n in w.pts if not any(equal(poly(c.flat[0]), Poly.var(n + '[0]')) for _, c in w.corners))
		want = [-1., 1.] + [(a + b) / 2 for a, b in zip(p, p[1:])]
		ck.verdict('spacing', con, all(any(abs(a - b) < 1e-9 for a in v) for b in want), 'the middle of each gap and both ends')
	must(ck, 'member', con, go)
	for name, L, n, fail in (('one point', None, 1, 0), ('several points', None, 3, 0), ('metric', SQUARE, 3, 0), ('first attempt fails', None, 2, 1)):
		con = 'voronoi_vertex: %s' % name

		def go():
			w = start(2, 3)
			H = {k: v for k, v in w.hooks().items() if not k.startswith('geometry.vertex')}
			left = [fail]

			def meet(I, a, k):
				if left[0]:
					left[0] -= 1
					raise Raised('QhullError')
				X = w.rows(4, prefix='v', inside=False, scale=1.8 if n > 1 else .9)
				if n == 1:
					w.passed += [[poly(t) for t in r] for r in rowsof(X)]
				hs = to_arr(a[0])
				w.cells.append(hs)
				return Obj('intersection', {'intersections': X})
			for q in ('scipy.spatial.HalfspaceIntersection', 'scipy.spatial.qhull.HalfspaceIntersection', 'scipy.spatial._qhull.HalfspaceIntersection'):
				H[q] = meet
			H['cvxopt.matrix'] = lambda I, a, k: a[0]
			H['cvxopt.solvers.lp'] = lambda I, a, k: {'status': 'optimal', 'x': symbols('x', (3,))}

			def svd(I, a, k):
				A = to_arr(a[0])
				return (A, Arr((2,), [ONE, ONE]), Arr((2, 2), [ONE, ZERO, ZERO, ONE]))
			H['numpy.linalg.svd'] = H['scipy.linalg.svd'] = svd
			D = w.domain()
			X = Interp(P, H, steps=400000).call(fn(P, 'geometry.vertex.voronoi_vertex'), [D, w.rows(n)], {'L': L})
			w.judge(ck, con, X)
			ck.verdict('best', con, to_arr(X).shape[0] > 0 and len(w.cells) == n, '%d cells, %d vertices kept' % (len(w.cells), to_arr(X).shape[0]))
		must(ck, 'member', con, go)
	# one move
	f = 'geometry.vertex.voronoi_vertex_sample'
	tri = ([[-1, 0], [0, -1], [1, 1]], [0, 0, 1])
	sets = [
		('box', 2, None, [], None, [[.1, .2], [-.5, .7], [.9, -.3]], [[.3, .3], [-.6, -.2]]),
		('box, start on the edge', 2, None, [], None, [[1., .2], [-.5, -1.], [.3, 1.]], [[.3, .3], [-.6, -.2]]),
		('box, start at a corner', 2, None, [], None, [[1., 1.], [-1., 1.]], [[.3, .3], [-.6, -.2]]),
		('box, one point', 2, None, [], None, [[.1, .2], [-.5, .7]], [[.3, .4]]),
		('triangle', 2, tri, [], None, [[.1, .2], [.5, .4], [.2, .75]], [[.3, .3], [.1, .05], [.05, .6]]),
		('triangle, start on the long side', 2, tri, [], None, [[.5, .5], [.25, .75], [0., .5]], [[.3, .3], [.1, .05]]),
		('equality', 3, None, [[1, 1, 1]], None, [[.1, .2, -.3], [-.5, .7, -.2]], [[.3, .3, -.6], [-.6, -.2, .8]]),
		('equality, metric', 3, None, [[1, 1, 1]], [[1, 2, 0], [0, 3, 1], [0, 0, 1]], [[.1, .2, -.3], [-.5, .7, -.2]], [[.3, .3, -.6], [-.6, -.2, .8]]),
		('two equalities', 3, None, [[1, 1, 1], [1, 0, -1]], None, [[.1, -.2, .1], [-.3, .6, -.3]], [[.25, -.5, .25], [-.2, .4, -.2]]),
		('metric', 2, None, [], [[1, 2], [0, 3]], [[.1, .2], [-.5, .7], [.9, -.3]], [[.3, .3], [-.6, -.2]]),
		('flat metric', 2, None, [], [[1, 2]], [[.1, .2], [-.5, .7], [.9, -.3]], [[.3, .3], [-.6, -.2]]),
		('on a point', 2, None, [], None, [[.3, .3], [.1, .1]], [[.3, .3], [-.6, -.2]]),
	]
	for name, m, ineq, eq, L, X0, Xh in sets:
		for rand in (True, False):
			con = 'voronoi_vertex_sample: %s%s' % (name, '' if rand else ', not randomised')

			def go():
				w = start(m, 11)
				H = {k: v for k, v in w.hooks().items() if not k.startswith('geometry.vertex')}
				mat = lambda R, k=None: Arr((len(R), k or len(R[0])), [F(Fr(x).limit_denominator(10 ** 6)) for r in R for x in r])
				vec = lambda r: Arr((len(r),), [F(Fr(x).limit_denominator(10 ** 6)) for x in r])

				def randn(I, a, k):
					return Arr((m,), [Poly.const(Fr(w.rnd()).limit_denominator(10 ** 6)) for _ in range(m)])
				H['numpy.random.randn'] = randn

				def qr(I, a, k):
					A = w.at(transpose(to_arr(a[0])))
					Q = []
					for v in A:
						u = list(v)
						for q in Q:
							d = sum(x * y for x, y in zip(u, q))
							u = [x - d * y for x, y in zip(u, q)]
						s = sum(x * x for x in u) ** .5
						if s > 1e-9 and len(Q) < m:
							Q.append([x / s for x in u])
					if not Q:
						raise Cannot('qr')
					return (transpose(mat2(Q)), None)
				mat2 = lambda R: Arr((len(R), len(R[0])), [Poly.const(Fr(x).limit_denominator(10 ** 12)) for r in R for x in r])
				H['scipy.linalg.qr'] = H['numpy.linalg.qr'] = qr
				H['numpy.linalg.matrix_rank'] = lambda I, a, k: len([1 for r in w.at(a[0]) if any(r)])
				H['numpy.isclose'] = lambda I, a, k: arr.elementwise(lambda x, y: abs(value(poly(x), CELL[0]) - value(poly(y), CELL[0])) <= 1e-8 + 1e-5 * abs(value(poly(y), CELL[0])), a[0], a[1])
				over = {'A_eq': mat(eq, m) if eq else Arr((0, m), [])}
				if ineq:
					over.update({'A_aug': mat(ineq[0]), 'b_aug': vec(ineq[1])})
				D = w.domain(**over)
				X = Interp(P, H, steps=600000).call(fn(P, f), [D, mat(Xh), mat(X0)], {'L': mat(L) if L else None, 'randomize': rand})
				V, S = w.at(X), w.at(mat(X0))
				A, b = w.at(D.attrs['A_aug']), w.at(D.attrs['b_aug'].flat and Arr((len(D.attrs['b_aug'].flat), 1), D.attrs['b_aug'].flat))
				out = [i for i, v in enumerate(V) for a, c in zip(A, b) if sum(x * y for x, y in zip(a, v)) > c[0] + 1e-7]
				off = [i for i, (v, s) in enumerate(zip(V, S)) for e in eq if abs(sum(x * (y - z) for x, y, z in zip(e, v, s))) > 1e-7]
				ck.verdict('step', con, not out and not off and len(V) == len(S), 'ends at %s' % '; '.join(','.join('%.3f' % t for t in v) for v in V))
				Lf = [[float(t) for t in r] for r in L] if L else None
				near = [i for i, (v, s) in enumerate(zip(V, S)) if min(dist(v, x, Lf) for x in Xh) < min(dist(s, x, Lf) for x in Xh) - 1e-7] if not rand else []
				ck.verdict('best', con, not near, 'no start ends nearer to the points')
			must(ck, 'step', con, go)


def domains(ck, P):
	E = P.cls('psdr.domains.euclidean.EuclideanDomain')

	def method(I, w, name, stand, a, k=None):
		"""a method of EuclideanDomain on a stand-in"""
		kind = E.lookup(name)
		if not kind or kind[0] != 'method':
			raise AnalysisBroken('EuclideanDomain.%s is gone' % name)
		return I.call(Fn(kind[1], kind[1].node, None, stand), a, k or {})
	for N in (0, 1, 4):
		con = 'sample: %d points' % N

		def go():
			w = start(2, 3)
			I = Interp(P, w.hooks())
			D = w.domain(**{'_sample': lambda draw=1: w.rows(integer(draw))})
			X = to_arr(method(I, w, 'sample', D, [N]))
			ck.verdict('count', con, X.shape == ((2,) if N == 1 else (N, 2)), 'shape %s' % (X.shape,))
			if N:
				w.judge(ck, con, X)
		must(ck, 'count', con, go)
	for N in (1, 3):
		for point in (False, True):
			con = '_sample: %d points%s' % (N, ', single point' if point else '')

			def go():
				w = start(2, 3)
				I = Interp(P, w.hooks())
				D = w.domain(center=True, is_point=point, _hit_and_run=lambda *a: w.row())
				w.judge(ck, con, method(I, w, '_sample', D, [N]), N)
			must(ck, 'member', con, go)
		con = 'sample_boundary: %d points' % N

		def go():
			w = start(2, 3)
			I = Interp(P, w.hooks())
			X = to_arr(method(I, w, 'sample_boundary', w.domain(center=True), [N]))
			w.judge(ck, con, X, N)
			got = [nm for nm in w.pts if any(equal(poly(c.flat[0]), Poly.var(nm + '[0]')) for _, c in w.corners)]
			ck.verdict('spacing', con, X.shape == ((2,) if N == 1 else (N, 2)) and len(got) == N, 'one extreme point for each direction')
		must(ck, 'member', con, go)
	for n in (2, 4):
		con = 'sample_grid: %d' % n

		def go():
			w = start(2, 3)
			lo, hi = Arr((2,), [F(-1), F(-2)]), Arr((2,), [F(3), F(Fr(1, 2))])
			D = w.domain(lb=lo, ub=hi)
			X = method(Interp(P, w.hooks()), w, 'sample_grid', D, [n])
			w.judge(ck, con, X)
			grid = {(-1 + 4 * Fr(i, n - 1), -2 + Fr(5, 2) * Fr(j, n - 1)) for i in range(n) for j in range(n)}
			want = sorted(tuple(float(t) for t in g) for g in grid if all(-1 <= t <= 1 for t in g))
			ck.verdict('spacing', con, sorted(tuple(v) for v in w.at(X)) == want, '%d points of the grid are inside' % len(want))
		must(ck, 'member', con, go)
	con = '_hit_and_run'

	def go():
		for seed in (1, 2, 3):
			w = start(2, seed)
			moved = []

			def close(x, **k):
				moved.append(to_arr(x))
				return w.row()
			st = w.row()
			D = w.domain(_hit_and_run_state=st, _A_eq_basis=Arr((2, 0), []), closest_point=close, extent=lambda x, p: Poly.const(Fr(abs(w.rnd())).limit_denominator(1000)))
			X = method(Interp(P, w.hooks()), w, '_hit_and_run', D, [])
			w.judge(ck, '%s: draws %d' % (con, seed), X, 1)
			ck.verdict('record', '%s: state, draws %d' % (con, seed), same(to_arr(D.attrs['_hit_and_run_state']).flat, to_arr(X).flat), 'the walk goes on from the point returned')
	must(ck, 'member', con, go)
	for kind in ('gauss', 'montecarlo', 'auto'):
		for N, reach in ((4, 1.6), (9, 1.6), (2, 1.6), (4, 2.4), (9, 2.4)):
			con = 'quadrature_rule: %s, %d%s' % (kind, N, ', some outside' if reach > 2 else '')

			def go():
				w = start(2, 3)
				lo, hi = symbols('lo', (2,)), symbols('hi', (2,))
				for j, (a, b) in enumerate(((-1., 1.), (-.5, .7))):
					CELL[0]['lo[%d]' % j], CELL[0]['hi[%d]' % j] = a, b
				D = w.domain(norm_lb=lo, norm_ub=hi, is_point=False)
				H = w.hooks()
				made = {}

				def gauss(I, f_, a, k):
					n, l, h = integer(a[0]), poly(a[1]), poly(a[2])
					j = next((j for j in range(2) if equal(l, poly(lo.flat[j])) and equal(h, poly(hi.flat[j]))), None)
					if j is None:
						raise Cannot('bounds of the rule')
					x, wt = symbols('x%d_%d' % (j, n), (n,)), symbols('w%d_%d' % (j, n), (n,))
					for i in range(n):
						CELL[0]['x%d_%d[%d]' % (j, n, i)] = reach * ((i + .5) / n - (.5 if reach < 2 else .3))
					return (x, wt)
				for q in ('gauss.gauss', 'quadrature.gauss', 'domains.euclidean.gauss'):
					H[q] = gauss
				X, wt = method(Interp(P, H, steps=400000), w, 'quadrature_rule', D, [N], {'method': kind})
				X, wt = to_arr(X), to_arr(wt)
				w.judge(ck, con, X)
				ck.verdict('count', con, X.shape[0] == len(wt.flat) and 0 < X.shape[0] <= N, '%d points, %d weights, at most %d' % (X.shape[0], len(wt.flat), N))
				ok = True
				if any(a[1].startswith('x0_') for t in X.flat for a in poly(t).atoms()):
					for r, t in zip(rowsof(X), wt.flat):
						exp = ONE
						for j, c in enumerate(r):
							nm = list(poly(c).atoms())[0][1]
							ok = ok and nm.startswith('x%d_' % j)
							exp = exp * Poly.var('w' + nm[1:])
						ok = ok and equal(poly(t), exp)
				else:
					ok = all(equal(poly(t), Poly.var('volume') * Poly.const(Fr(1, N))) for t in wt.flat) and X.shape[0] == N
				ck.verdict('weights', con, ok, 'weights of %d points' % X.shape[0])
			must(ck, 'weights', con, go)
	for n in (1, 2, 3, 5):
		tried(ck, 'weights', 'quadrature.gauss: %d points' % n, lambda: gauss_rule(ck, P, n))
	con = 'volume of a general domain'

	def go():
		w = start(2, 3)
		lo, hi = Arr((2,), [F(-2), F(-1)]), Arr((2,), [F(2), F(3)])
		D = w.domain(norm_lb=lo, norm_ub=hi)
		v = method(Interp(P, w.hooks(), steps=400000), w, 'volume', D, [8])
		n = len(w.passed)
		ck.verdict('weights', con, equal(poly(v), Poly.const(Fr(16 * n, 8))), '%s for %d of 8 draws inside a box of volume 16' % (v, n))
	must(ck, 'weights', con, go)
	con = 'sample_simplex'

	def go():
		for n in (1, 3):
			w = start(2, 3)
			X = to_arr(Interp(P, w.hooks()).call(fn(P, 'geometry.geometry.sample_simplex'), [3], {'Nsamp': n}))
			V = w.at(X)
			tot = [sum((poly(t) for t in r), ZERO) for r in rowsof(X)]
			ck.verdict('member', '%s: %d' % (con, n), X.shape == (n, 3) and all(t >= -1e-12 for v in V for t in v) and all(equal(t, ONE) for t in tot), 'weights not negative, summing to one')
	must(ck, 'member', con, go)
	con = 'ConvexHullDomain._sample'
	C = P.cls('psdr.domains.convexhull.ConvexHullDomain')
	for nv in (1, 2, 3):
		def go():
			w = start(2, 3)
			V = w.rows(nv)
			kind = C.lookup('_sample')
			D = w.domain(**{'X': V, '_X': V, '_X_norm': V, 'vertices': V, 'to_linineq': lambda **k: w.domain()})
			for c in ('_isinside_bounds', '_isinside_ineq', '_isinside_eq', '_isinside_quad'):
				D.attrs[c] = lambda X, **k: Arr((to_arr(X).shape[0],), [True] * to_arr(X).shape[0])
			X = Interp(P, w.hooks()).call(Fn(kind[1], kind[1].node, None, D), [4], {})
			w.judge(ck, '%s: %d vertices' % (con, nv), X, 4)
		must(ck, 'member', '%s: %d vertices' % (con, nv), go)
	for name, N in (('Point', 3),):
		con = '%sDomain.sample' % name

		def go():
			w = start(2, 3)
			x = w.row()
			I = Interp(P, w.hooks())
			D = I.new(P.cls('psdr.domains.point.PointDomain'), [x], {})
			w.judge(ck, con, I.call(I.attr(D, '_sample'), [N]), N)
		must(ck, 'member', con, go)



def gauss_rule(ck, P, n):
	"""Golub-Welsch: the matrix is the Jacobi matrix of the Legendre polynomials; point k is the image of eigenvalue k and its weight the length times
	the square of the first entry of eigenvector k"""
	start(2, 3)
	con = 'quadrature.gauss: %d points' % n
	a, b = symbols('lo', (1,)).flat[0], symbols('hi', (1,)).flat[0]
	CELL[0]['lo[0]'], CELL[0]['hi[0]'] = -.7, 1.9
	ew, ev = symbols('ew', (n,)), symbols('ev', (n, n))
	for i in range(n):
		CELL[0]['ew[%d]' % i] = -.9 + 1.8 * (i + .5) / n
		for j in range(n):
			CELL[0]['ev[%d,%d]' % (i, j)] = .1 + .05 * i + .07 * j
	seen = []

	def eigh(I, f, args, kw):
		seen.append(to_arr(args[0]))
		return (ew, ev)

	def tridiagonal(I, f, args, kw):
		d, e = to_arr(args[0]), to_arr(args[1])
		T = Arr((n, n), [ZERO] * (n * n))
		for i in range(n):
			T.flat[i * n + i] = poly(d.flat[i])
		for i in range(n - 1):
			T.flat[i * n + i + 1] = T.flat[(i + 1) * n + i] = poly(e.flat[i])
		seen.append(T)
		return (ew, ev)
	H = {}
	for q in ('scipy.linalg.eigh', 'numpy.linalg.eigh'):
		H[q] = lambda I, args, kw: eigh(I, None, args, kw)
	H['scipy.linalg.eigh_tridiagonal'] = lambda I, args, kw: tridiagonal(I, None, args, kw)
	r = Interp(P, H, steps=100000).call(fn(P, 'quadrature.gauss'), [n, a, b], {})
	x, w = to_arr(r[0]), to_arr(r[1])
	if len(seen) != 1 or seen[0].shape != (n, n):
		raise Cannot('eigenvalue problem')
	T = seen[0]
	ok = True
	for i in range(n):
		for j in range(i + 1):     # eigh reads the lower triangle
			k = i
			want = math.sqrt(k * k / (4. * k * k - 1)) if abs(i - j) == 1 else 0.
			got = formula.numeric(poly(T.flat[i * n + j]), {})[0]
			ok = ok and abs(got - want) < 1e-9
	ck.verdict('weights', con + ', recurrence', ok, 'the coefficients of the Legendre recurrence')
	L = poly(b) - poly(a)
	half = Poly.const(Fr(1, 2))
	at = [k for t in x.flat for k in range(n) if equal(poly(t), poly(a) + L * half * (ONE + poly(ew.flat[k])))]
	ck.verdict('member', con + ', points', x.shape == (n,) and sorted(at) == list(range(n)), 'every point is the image of one node in [-1, 1] under the map onto [a, b]')
	if len(at) == n:
		ck.verdict('weights', con, w.shape == (n,) and all(equal(poly(t), L * poly(ev.flat[k]) * poly(ev.flat[k])) for t, k in zip(w.flat, at)), 'weight k is the length times the squared first entry of eigenvector k')


def cover(ck, P):
	for name, L, need in (('no metric', None, 5), ('metric', SQUARE, 6), ('metric, few points', SQUARE, 4)):
		con = 'minimax_optimal_cover: %s' % name

		def go():
			w = start(2, 5)
			S = w.rows(6)
			Y, Lv = w.at(S), w.at(L) if L is not None else None
			sizes = {}

			def design(I, fn, a, k):
				ps = [x.arg for x in fn.node.args.args]
				b = dict(zip(ps, a))
				b.update(k)
				N = integer(b['N'])
				X = Arr((min(N, need), 2), [x for r in rowsof(S)[:min(N, need)] for x in r]) if N < 6 else S
				sizes[N] = reach(w.at(X), Y, Lv)
				w.calls.append((N, X, b))
				return X
			H = w.hooks()
			H['sample.minimax.minimax_cluster'] = design
			H['sample.minimax._int_bisect'] = lambda I, fn, a, k: bisect(I, a)

			def bisect(I, a):
				vals = {N: I.call(a[0], [N]) for N in (3, need)}
				w.cells.append(vals)
				return need
			H['numpy.linalg.det'] = lambda I, a, k: Poly.const(3)
			H['scipy.special.gamma'] = lambda I, a, k: Poly.const(1)
			D = w.domain(volume=lambda *a, **k: Poly.const(Fr(31, 10)))
			r = Fr(1, 2)
			X = Interp(P, H, steps=400000).call(fn(P, 'sample.minimax.minimax_optimal_cover'), [D, F(r)], {'L': L, 'X': S})
			w.judge(ck, con, X, min(need, 6))
			got = w.cells[0]
			# a positive value means that design reaches every point within r
			ck.verdict('best', con, all((value(poly(v), CELL[0]) > 0) == (sizes[N] < r) and abs(abs(value(poly(v), CELL[0])) - abs(r - sizes[N])) < 1e-6 for N, v in got.items()), 'radius minus the largest distance, for %s points' % sorted(got))
		must(ck, 'member', con, go)
	for lo, hi, at in ((1, 9, 5), (2, 3, 3), (1, 100, 77), (4, 40, 40), (4, 40, 5)):
		con = '_int_bisect: %d to %d' % (lo, hi)

		def go():
			w = start(1)
			r = Interp(P, w.hooks()).call(fn(P, 'sample.minimax._int_bisect'), [lambda N: F(1 if integer(N) >= at else -1), lo, hi], {'verbose': False})
			ck.verdict('best', '%s, sign changes at %d' % (con, at), num(r) == at, 'returns %s' % num(r))
		must(ck, 'best', con, go)
	for q in ('fill_distance', 'fill_distance_estimate'):
		for name, L in (('no metric', None), ('metric', SQUARE)):
			con = '%s: %s' % (q, name)

			def go():
				w = start(2, 5)
				H = w.hooks()
				H['sample.initial.initial_sample'] = lambda I, fn, a, k: w.rows(4)
				X = w.rows(3)
				d = Interp(P, H).call(fn(P, 'geometry.fill.' + q), [w.domain(), X], {'L': L})
				V = [c for c in w.calls if c[0] in ('vertex', 'vsample')][0][2]
				want = reach(w.at(X), w.at(V), w.at(L) if L is not None else None)
				ck.verdict('best', con, abs(value(poly(d), CELL[0]) - want) < 1e-6, 'largest distance to the nearest sample')
			must(ck, 'best', con, go)


class Sat:
	"""satisfiability, by backtracking; each solution is given once"""

	def __init__(self, clauses):
		self.clauses = [list(c) for c in clauses]
		self.assumed = []

	def next(self):
		n = max(abs(x) for c in self.clauses for x in c)
		extra = [[x] for x in self.assumed]
		self.assumed = []
		sol = self.solve(self.clauses + extra, {}, n)
		if sol is None:
			raise Raised('StopIteration')
		out = [v if sol.get(v, False) else -v for v in range(1, n + 1)]
		self.clauses.append([-x for x in out])
		return [F(x) for x in out]

	def solve(self, clauses, val, n):
		val = dict(val)
		while True:
			unit = None
			for c in clauses:
				free, sat = [], False
				for x in c:
					t = val.get(abs(x))
					if t is None:
						free.append(x)
					elif t == (x > 0):
						sat = True
						break
				if sat:
					continue
				if not free:
					return None
				if len(free) == 1:
					unit = free[0]
					break
			if unit is None:
				break
			val[abs(unit)] = unit > 0
		v = next((i for i in range(1, n + 1) if i not in val), None)
		if v is None:
			return val
		for t in (True, False):
			r = self.solve(clauses, {**val, v: t}, n)
			if r is not None:
				return r
		return None


def project(ck, P):
	ints = lambda cs: [[integer(x) for x in c] for c in cs]

	def stand(w, log):
		H = w.hooks()

		def itersolve(I, a, k):
			S = Sat(ints([list(I.iterate(c)) for c in I.iterate(a[0])]))
			log.append(S)
			o = Obj('sat')
			o.attrs.update({'next': S.next, 'add_clauses': lambda cs: S.clauses.extend(ints(cs)), 'assume': lambda a: setattr(S, 'assumed', [integer(x) for x in a])})
			return o
		H['satyrn.picosat.itersolve'] = itersolve
		H['numpy.random.randint'] = lambda I, a, k: 3
		H['sample.maximin.maximin_block'] = lambda I, fn, a, k: w.rows(integer(a[1]))
		H['sample.minimax.minimax_design'] = lambda I, fn, a, k: w.rows(integer(a[1]))
		return H
	ROWS = lambda m, idx: [Arr((len(i), m), [F(j == k) for j in i for k in range(m)]) for i in idx]
	for name, m, Ls, lhs in (('two metrics, two coordinates', 2, [[0], [1]], False), ('two metrics, three coordinates', 3, [[0], [1]], False), ('one metric', 3, [[1]], False), ('Latin', 2, None, True)):
		for N in (1, 2, 3):
			for maxiter in (1, 3):
				con = 'projection_sample: %s, %d points, maxiter %d' % (name, N, maxiter)

				def go():
					w = start(m, 5)
					log = []
					X = Interp(P, stand(w, log), steps=900000).call(fn(P, 'sample.projection.projection_sample'), [w.domain(), N, ROWS(m, Ls) if Ls else None], {'maxiter': maxiter, '_lhs': lhs})
					if X is None:
						return ck.bad('count', con, 'returns nothing')
					w.judge(ck, con, X, N)
				(must if N == 1 else tried)(ck, 'member', con, go)
	# the reference points of a Latin design on a domain away from the axes
	con = 'projection_sample: Latin, away from the axes'

	def go():
		w = start(2, 5)
		w.box = (2, 3)
		w.rnd = lambda r=w.rnd: 2.5 + .4 * r()
		log = []
		X = Interp(P, stand(w, log), steps=900000).call(fn(P, 'sample.projection.projection_sample'), [w.domain(), 3, None], {'maxiter': 1, '_lhs': True})
		w.judge(ck, con, X, 3)
		cuts = [c for c in w.cells if isinstance(c, dict) and c.get('A') is not None]
		edges = set()
		for c in cuts:
			for r, b in zip(w.at(arr.atleast(c['A'], 2)), [value(poly(x), CELL[0]) for x in to_arr(c['b']).flat]):
				nz = [(j, t) for j, t in enumerate(r) if abs(t) > 1e-12]
				edges.add((nz[0][0], round(b / nz[0][1], 6)) if len(nz) == 1 else None)
		ck.verdict('spacing', con, edges == {(j, round(2 + k / 3, 6)) for j in range(2) for k in (1, 2)}, 'strata meet at %s' % sorted(edges, key=str))
	must(ck, 'count', con, go)
	for name, m, Ls in (('two metrics', 2, [[0], [1]]), ('unequal metrics', 3, [[0], [1, 2]]), ('one metric', 3, [[1]])):
		for N in (2, 3):
			for keep in (True, False):
				con = 'projection_design: %s, %d points%s' % (name, N, '' if keep else ', no assumptions')

				def go():
					w = start(m, 5)
					log = []
					X = Interp(P, stand(w, log), steps=900000).call(fn(P, 'sample.projection.projection_design'), [w.domain(), N, ROWS(m, Ls)], {'maxiter': 2, 'verbose': False, 'use_assumptions': keep})
					if X is None:
						return ck.bad('count', con, 'returns nothing')
					w.judge(ck, con, X, N)
				must(ck, 'member', con, go)


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	for part in (lines, initial, maximin, latin, poisson, sobol, cluster, covering, sequential, vertex, domains, cover, project):
		ck.guard('member', part.__name__, lambda: part(ck, P))
	CELL[0] = None
