"""L02: Lipschitz bounds enclose: lower below, upper above, tightest over samples."""
from fractions import Fraction as Fr
from ..loader import AnalysisBroken
from ..arr import Interp, Fn, Obj, Arr, Cannot, Raised, CELL, symbols, to_arr, poly, dot, summed
from ..formula import Poly, ZERO, ONE, power, equal, diff, numeric, TooBig, Undefined
from ..conv import Conv, asked, matrices, compare_affine, value, witness

RULES = [
	('bounds', 'the lower (upper) bound at a point is the largest (smallest) over the samples of value minus (plus) matrix-weighted distance, widened by the tolerance', 50),
	('exact', 'at the samples of compatible data the bounds are the sample values', 8),
	('search', 'the function searched for the extreme lower (upper) bound is the bound of each sample, so that the worst case over samples is searched with the matching sense', 8),
	('slope', 'the gradients used in that search are the gradients of those functions', 8),
	('domain', 'bounds over a domain are the least lower bound and the largest upper bound found in that domain, widened by the tolerance', 4),
	('shadow', 'the bounds along a direction run from the smallest to the largest value of the direction over the domain, each with the bounds of its own slice', 6),
	('envelope', 'the lower envelope stays below every sample and is as large as possible, the upper above and as small as possible', 6),
	('midpoint', 'the approximation from compatible data is the middle of its bounds', 4),
]
FAIL = (Cannot, Undefined, TooBig, RecursionError)
X3 = [[0.31, -1.27], [1.43, 0.59], [-0.87, 0.41]]
T2 = [[0.2, 0.3], [-1.1, -0.6]]
LV = [1.3, -.4, .2, .7]
FS = {'spread': [0., 3., 10.], 'close': [1., 1.1, .8], 'decreasing': [5., 2., -3.], 'middle': [0.5, 2.1, 0.6]}


class Setup:
	def __init__(self, f='close', eps=None, L='full'):
		self.at = {}
		self.X, self.f, self.T = symbols('x', (3, 2)), symbols('f', (3,)), symbols('t', (2, 2))
		for a, v in ((self.X, sum(X3, [])), (self.f, FS[f]), (self.T, sum(T2, []))):
			self.put(a, v)
		self.e = None
		if eps is not None:
			self.e = Poly.var('eps')
			self.at['eps'] = eps
		self.L = symbols('l', (2, 2))
		self.put(self.L, LV)
		self.arg, self.cls = self.L, 'psdr.LipschitzMatrix'
		if L == 'diag':
			self.L = Arr((2, 2), [self.L.flat[0], ZERO, ZERO, self.L.flat[3]])
			self.cls = 'psdr.DiagonalLipschitzMatrix'
		elif L == 'scalar':
			k = self.arg = self.L.flat[0]
			self.L = Arr((2, 2), [k, ZERO, ZERO, k])
			self.cls = 'psdr.LipschitzConstant'

	def put(self, a, vals):
		for p, v in zip(to_arr(a).flat, vals):
			self.at[[x[1] for x in p.atoms()][0]] = v

	def row(self, A, i):
		m = A.shape[1]
		return A.flat[i * m:(i + 1) * m]

	def dist(self, i, t):
		d = Arr((2,), [poly(a) - poly(b) for a, b in zip(self.row(self.X, i), t)])
		z = to_arr(dot(self.L, d))
		return power(summed([poly(v) * poly(v) for v in z.flat]), Fr(1, 2))

	def lower(self, t, at, f=None):
		f = f or self.f.flat
		return max([poly(f[i]) - self.dist(i, t) for i in range(3)], key=lambda p: value(p, at))

	def upper(self, t, at, f=None):
		f = f or self.f.flat
		return min([poly(f[i]) + self.dist(i, t) for i in range(3)], key=lambda p: value(p, at))

	def make(self, I, P):
		kw = {'L': self.arg}
		if self.e is not None:
			kw['epsilon'] = self.e
		me = I.new(P.cls(self.cls), [], kw)
		if self.cls.endswith('Constant'):
			me.attrs['_dimension'] = 2
		return me


def interp(P, at, hooks=None):
	h = dict(hooks or {})
	h['builtins.print'] = lambda I, a, k: None
	h['tqdm.tqdm'] = lambda I, a, k: a[0]
	CELL[0] = dict(at)
	return Interp(P, h, steps=500000)


def guard(ck, rule, con, go):
	try:
		go()
	except FAIL as e:
		ck.unknown(rule, con, 'not analysed: %s' % e)
	except Raised as e:
		ck.unknown(rule, con, 'raises %s' % e.name)
	finally:
		CELL[0] = None


def agree(ck, rule, con, got, want, at, detail='as stated'):
	"""formulas equal; if not, refuted by their values in the cell"""
	if isinstance(got, float) and (got != got or abs(got) == float('inf')):
		return ck.bad(rule, con, 'is %r' % got)
	got = poly(got)
	if equal(got, want):
		return ck.ok(rule, con, detail)
	try:
		a, b = value(got, at), value(want, at)
	except (ValueError, KeyError, ZeroDivisionError, TypeError, OverflowError):
		return ck.unknown(rule, con, 'not comparable')
	if a != a or abs(a - b) > 1e-7 * max(1, abs(a), abs(b)):
		ck.bad(rule, con, 'is %.6g where %.6g is due' % (a, b))
	else:
		ck.unknown(rule, con, 'formulas not shown equal')


def vector(v, n):
	a = to_arr(v)
	if len(a.flat) != n or len([s for s in a.shape if s != 1]) > 1:
		raise Cannot('shape %r' % (a.shape,))
	return a.flat


def bounds(ck, P):
	for L in ('full', 'diag', 'scalar'):
		for f in FS:
			for eps in (None, .25):
				con = '%s, %s%s' % (L, f, '' if eps is None else ', tolerance')

				def go(L=L, f=f, eps=eps, con=con):
					s = Setup(f, eps, L)
					I = interp(P, s.at)
					me = s.make(I, P)
					lb, ub = I.call(I.attr(me, 'uncertainty'), [s.X, s.f, s.T], {})
					at = dict(CELL[0])
					lb, ub = vector(lb, 2), vector(ub, 2)
					e = ZERO if s.e is None else s.e
					for k in range(2):
						t = s.row(s.T, k)
						agree(ck, 'bounds', '%s: lower at point %d' % (con, k), lb[k], s.lower(t, at) - e, at)
						agree(ck, 'bounds', '%s: upper at point %d' % (con, k), ub[k], s.upper(t, at) + e, at)
				guard(ck, 'bounds', con, go)
	for L in ('full', 'diag', 'scalar'):
		con = '%s at the samples' % L

		def go(L=L, con=con):
			s = Setup('close', None, L)
			I = interp(P, s.at)
			me = s.make(I, P)
			lb, ub = I.call(I.attr(me, 'uncertainty'), [s.X, s.f, s.X], {})
			at = dict(CELL[0])
			for nm, b in (('lower', vector(lb, 3)), ('upper', vector(ub, 3))):
				for i in range(3):
					agree(ck, 'exact', '%s: %s at sample %d' % (con, nm, i), b[i], poly(s.f.flat[i]), at)
		guard(ck, 'exact', con, go)


class Search:
	"""stands in for the minimax optimiser: remembers what it was asked to minimise and returns a symbolic point"""

	def __init__(self, s):
		self.s, self.calls = s, []

	def __call__(self, I, fn, args, kw):
		a = fn.node.args
		pos = [p.arg for p in a.posonlyargs + a.args]
		b = dict(zip(pos, args))
		b.update(kw)
		n = len(self.calls)
		x = symbols('r%d_' % n, (2,))
		for p, v in zip(x.flat, [(.9, -.8), (-.5, 1.7), (.15, .1), (1.3, -1.1), (-.3, .35), (2.1, .4)][n % 6]):
			CELL[0][[z[1] for z in p.atoms()][0]] = v
		g = b.get(pos[0])
		out = {'x': x, 'domain': b.get('domain'), 'x0': b.get(pos[1])}
		q = symbols('q', (2,))
		CELL[0].update({[z[1] for z in p.atoms()][0]: v for p, v in zip(q.flat, (.4, -.2))})
		out['value'] = to_arr(I.call(g, [q], {}))
		try:
			out['grad'] = to_arr(I.call(I.attr(g, 'grad'), [q], {}))
		except Raised as e:
			out['grad'] = e
		# at a sample the distance has no gradient: nothing may be divided by zero there
		try:
			out['at sample'] = to_arr(I.call(I.attr(g, 'grad'), [Arr((2,), self.s.row(self.s.X, 1))], {}))
		except Cannot as e:
			out['at sample'] = e
		self.calls.append(out)
		return x


def over_domain(ck, P):
	mm = P.func('psdr.minimax.minimax')
	if mm is None:
		raise AnalysisBroken('minimax is gone')
	for L in ('full', 'diag'):
		for eps in (None, .25):
			con = '%s%s' % (L, '' if eps is None else ', tolerance')

			def go(L=L, eps=eps, con=con):
				s = Setup('close', eps, L)
				sr = Search(s)
				starts = symbols('s', (2, 2))
				s.put(starts, [.1, .2, -.3, .4])
				dom = Obj('domain', {})
				h = {mm.short: sr}
				for nm in ('maximin_coffeehouse', 'initial_sample'):
					for fn in P.all_functions():
						if fn.node.name == nm:
							h[fn.short] = lambda I, f, a, k: Arr((2, 2), starts.flat)
				for fn in P.all_functions():
					if fn.node.name == 'unique_points':
						h[fn.short] = lambda I, f, a, k: Arr((2,), [True, True])
				I = interp(P, s.at, h)
				me = s.make(I, P)
				lb, ub = I.call(I.attr(me, 'uncertainty_domain'), [s.X, s.f, dom], {})
				at = dict(CELL[0])
				low, up = [], []
				q = symbols('q', (2,))
				for n, c in enumerate(sr.calls):
					for sense, sg in (('lower', 1), ('upper', -1)):
						want = [Poly.const(sg) * poly(s.f.flat[i]) - s.dist(i, q.flat) for i in range(3)]
						if len(c['value'].flat) == 3 and all(equal(poly(a), b) for a, b in zip(c['value'].flat, want)):
							(low if sg == 1 else up).append(c)
							c['sense'] = sense
							ck.ok('search', '%s: search %d' % (con, n), sense)
							break
					else:
						near = [all(abs(value(poly(a), at) - value(Poly.const(sg) * poly(s.f.flat[i]) - s.dist(i, q.flat), at)) < 1e-7 for i, a in enumerate(c['value'].flat)) if len(c['value'].flat) == 3 else False for sg in (1, -1)]
						ck.verdict('search', '%s: search %d' % (con, n), None if any(near) else False, 'not the bound of each sample')
						continue
					G = c['grad']
					g = [diff(poly(v), [z[1] for z in qq.atoms()][0]) for v in c['value'].flat for qq in q.flat]
					if isinstance(G, Raised):
						ck.unknown('slope', '%s: search %d' % (con, n), 'raises')
					elif len(G.flat) != len(g) or G.shape != (3, 2):
						ck.bad('slope', '%s: search %d' % (con, n), 'gradient of shape %r' % (G.shape,))
					else:
						d = [(a, b) for a, b in zip(G.flat, g) if not equal(poly(a), b)]
						if not d:
							ck.ok('slope', '%s: search %d' % (con, n), 'derivative')
						else:
							e = max(abs(value(poly(a) - b, at)) for a, b in d)
							ck.verdict('slope', '%s: search %d' % (con, n), False if e > 1e-7 else None, 'differs from the derivative by %g' % e)
					if c['domain'] is not dom:
						ck.bad('domain', '%s: search %d' % (con, n), 'not restricted to the domain given')
				if not low or not up:
					return ck.verdict('domain', con, False if sr.calls and all('sense' in c for c in sr.calls) else None, '%d searches for the lower and %d for the upper bound' % (len(low), len(up)))
				e = ZERO if s.e is None else s.e
				wl = min([s.lower(c['x'].flat, at) for c in low], key=lambda p: value(p, at)) - e
				wu = max([s.upper(c['x'].flat, at) for c in up], key=lambda p: value(p, at)) + e
				agree(ck, 'domain', con + ': lower', lb, wl, at)
				agree(ck, 'domain', con + ': upper', ub, wu, at)
			guard(ck, 'domain', con, go)


def shadow(ck, P):
	if P.cls('psdr.LipschitzMatrix').lookup('shadow_uncertainty') is None:
		raise AnalysisBroken('shadow_uncertainty is gone')
	for order in ('plain', 'reversed'):
		con = 'direction %s' % order

		def go(order=order, con=con):
			s = Setup('close')
			u = symbols('u', (2, 1))
			s.put(u, [.6, .8] if order == 'plain' else [-.8, .6])
			hi, lo = symbols('hi', (2,)), symbols('lo', (2,))
			s.put(hi, [.9, 1.2])
			s.put(lo, [-1.1, -.4])
			if order != 'plain':
				s.put(hi, [-1.3, .2])
				s.put(lo, [.7, -.5])
			slices, cols, calls = [], {}, []
			dom = Obj('domain', {})

			def corner(p, **k):
				v = value(poly(to_arr(p).flat[0]), CELL[0]) / value(poly(u.flat[0]), CELL[0])
				return hi if v > 0 else lo

			def add(**k):
				slices.append(k)
				return Obj('slice', {'n': len(slices) - 1})
			dom.attrs.update(corner=corner, add_constraints=add)

			def on_slice(X, fX, d, **k):
				n = d.attrs['n'] if isinstance(d, Obj) and d.cls == 'slice' else -1
				a, b = Poly.var('lb%d' % n), Poly.var('ub%d' % n)
				return (a, b)

			def at_point(X, fX, t, **k):
				calls.append(t)
				t = to_arr(t).flat
				nm = 'hi' if equal(poly(t[0]), poly(hi.flat[0])) else 'lo' if equal(poly(t[0]), poly(lo.flat[0])) else '?'
				return (Arr((1,), [Poly.var('lower at ' + nm)]), Arr((1,), [Poly.var('upper at ' + nm)]))

			def pgf(I, cls, args, kw):
				def put(name, col):
					cols[name] = to_arr(col)
				return Obj('pgf', {'add': put, 'write': lambda *a, **k: None})
			I = interp(P, s.at, {P.cls('psdr.pgf.PGF').qualname: pgf})
			me = s.make(I, P)
			me.attrs['uncertainty_domain'] = on_slice
			me.attrs['uncertainty'] = at_point
			I.call(I.attr(me, 'shadow_uncertainty'), [dom, s.X, s.f], {'ngrid': 4, 'U': u, 'pgfname': 'out', 'ax': None})
			at = dict(CELL[0])
			y, lb, ub = [vector(cols[k], 4) for k in ('y', 'lb', 'ub')]
			uv = [poly(x) for x in u.flat]
			ends = {nm: sum((a * poly(b) for a, b in zip(uv, c.flat)), ZERO) for nm, c in (('hi', hi), ('lo', lo))}
			for k, nm in ((0, 'lo'), (3, 'hi')):
				agree(ck, 'shadow', '%s: end %d' % (con, k), y[k], ends[nm], at)
				for tag, col in (('lower', lb), ('upper', ub)):
					ck.verdict('shadow', '%s: %s bound at end %d' % (con, tag, k), equal(poly(col[k]), Poly.var('%s at %s' % (tag, nm))), 'bound at the corner reached there')
			for k in (1, 2):
				good = None
				for n, c in enumerate(slices):
					if equal(poly(lb[k]), Poly.var('ub%d' % n)):
						good = False
					if equal(poly(lb[k]), Poly.var('lb%d' % n)):
						A, b = to_arr(c.get('A_eq')), to_arr(c.get('b_eq'))
						r = div_(A, uv, b, at)
						good = r is not None and abs(r - value(poly(y[k]), at)) < 1e-7 and equal(poly(ub[k]), Poly.var('ub%d' % n))
						break
				ck.verdict('shadow', '%s: slice %d' % (con, k), good, 'bounds of the slice at that value of the direction')
		guard(ck, 'shadow', con, go)


def div_(A, u, b, at):
	"""the value of the direction on the slice A x = b"""
	if len(A.flat) != 2 or len(b.flat) != 1:
		return None
	k = [value(poly(a), at) / value(x, at) for a, x in zip(A.flat, u)]
	if abs(k[0] - k[1]) > 1e-9 or not k[0]:
		return None
	return value(poly(b.flat[0]), at) / k[0]


def envelope(ck, P):
	for n in (2, 3, 4):
		con = '%d nodes' % n

		def go(n=n, con=con):
			at = {}
			X, f, u = symbols('x', (5, 2)), symbols('f', (5,)), symbols('u', (2, 1))
			for a, v in ((X, [.1, .2, 1.3, .4, -.7, .9, .35, -.2, .9, 1.]), (f, [1., 3., -2., .5, 4.]), (u, [.6, .8])):
				for p, x in zip(a.flat, v):
					at[[z[1] for z in p.atoms()][0]] = x
			cv = Conv()
			cols = {}

			def pgf(I, cls, args, kw):
				def put(name, col):
					cols[name] = to_arr(col)
				return Obj('pgf', {'add': put, 'write': lambda *a, **k: None})
			h = cv.hooks()
			h[P.cls('psdr.pgf.PGF').qualname] = pgf
			I = interp(P, at, h)
			me = Obj(P.cls('psdr.ActiveSubspace'), {'_dimension': 2})
			res = I.call(I.attr(me, 'shadow_envelope'), [X, f], {'ngrid': n, 'U': u, 'pgfname': 'out', 'ax': None})
			at = dict(CELL[0])
			ys = [sum((poly(a) * poly(b) for a, b in zip(X.flat[2 * i:2 * i + 2], u.flat)), ZERO) for i in range(5)]
			val = [value(y, at) for y in ys]
			lo, hi = ys[val.index(min(val))], ys[val.index(max(val))]
			grid = [lo + (hi - lo) * Poly.const(Fr(k, n - 1)) for k in range(n)]
			gv = [value(g, at) for g in grid]
			for k, g in enumerate(vector(cols['y'], n)):
				agree(ck, 'envelope', '%s: node %d' % (con, k), g, grid[k], at)
			for nm, col, sg, r in (('lower', cols['lb'], -1, res[1]), ('upper', cols['ub'], 1, res[2])):
				z = asked(col)
				if not all(equal(poly(a), poly(b)) for a, b in zip(to_arr(r).flat, to_arr(col).flat)):
					ck.bad('envelope', '%s: %s returned' % (con, nm), 'the returned envelope is not the one written')
				from ..conv import unknowns
				us = set(unknowns(z.flat))
				pr = [p for p in cv.problems if p['solved'] and us & set(unknowns([x for c in p['constraints'] for m in matrices(c) for x in m[1]]))]
				if len(pr) != 1 or len(us) != n:
					ck.unknown('envelope', '%s: %s' % (con, nm), 'its problem was not found')
					continue
				pr = pr[0]
				exp = []
				for i in range(5):
					k = max(j for j in range(n) if gv[j] <= val[i] + 1e-9)
					k = min(k, n - 2)
					w = (ys[i] - grid[k]) * inv(hi - lo) * Poly.const(n - 1)
					e = poly(z.flat[k]) * (ONE - w) + poly(z.flat[k + 1]) * w - poly(f.flat[i])
					exp.append(('nonneg', [e * Poly.const(sg)], 1))
				act = [a for c in pr['constraints'] for a in matrices(c)]
				w = witness(act, exp, at)
				same = len(act) == len(exp) and not w and all(any(near(a, e, sorted(us), at) for a in act) for e in exp)
				ck.verdict('envelope', '%s: %s side' % (con, nm), False if w else True if same else None, 'keeps to its side of every sample' if not w else 'a %s envelope that crosses a sample is accepted' % nm if 'weak' in w else 'an envelope that keeps to its side is rejected')
				g = pr['objective']
				ex = poly(to_arr(g.attrs['expr']).flat[0]) * Poly.const(1 if g.attrs['sense'] == 'min' else -1)
				r = compare_affine([ex], [summed(list(z.flat)) * Poly.const(sg)], at)
				ck.verdict('envelope', '%s: %s size' % (con, nm), bool(r), 'as close to the samples as possible')
		guard(ck, 'envelope', con, go)


def inv(p):
	return power(p, -1)


def near(a, e, names, at):
	from ..conv import affine
	ra, re = affine(a[1], names, at)[0], affine(e[1], names, at)[0]
	k = [x / y for x, y in zip(ra, re) if abs(y) > 1e-9]
	return bool(k) and k[0] > 0 and max(abs(x - k[0] * y) for x, y in zip(ra, re)) < 1e-9


def midpoint(ck, P):
	c = P.cls('psdr.LipschitzApproximation') if False else None
	cls = P.cls('psdr.lipschitz_approx.LipschitzApproximation')
	if cls is None:
		raise AnalysisBroken('LipschitzApproximation is gone')
	lac = P.func('psdr.lipschitz_approx.lipschitz_approximation_compatible_data')
	for f in FS:
		con = 'approximation, ' + f

		def go(f=f, con=con):
			s = Setup(f)
			y = symbols('y', (3,))
			s.put(y, [v + .13 + .11 * k for k, v in enumerate(FS[f])])
			asked_ = []

			def compat(I, fn, a, k):
				asked_.append((a, k))
				return Arr(y.shape, y.flat)
			I = interp(P, s.at, {lac.short: compat})
			dom = Obj('domain', {'isinside': lambda X, **k: Arr((3,), [True] * 3), '@len': 2})
			me = I.new(cls, [s.L, dom], {})
			I.call(I.attr(me, 'fit'), [s.X, s.f], {})
			out = vector(I.call(I.attr(me, 'eval'), [s.T], {}), 2)
			at = dict(CELL[0])
			for k in range(2):
				t = s.row(s.T, k)
				agree(ck, 'midpoint', '%s: point %d' % (con, k), out[k], (s.lower(t, at, y.flat) + s.upper(t, at, y.flat)) * Poly.const(Fr(1, 2)), at)
		guard(ck, 'midpoint', con, go)


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	c = P.cls('psdr.LipschitzMatrix')
	for m in ('uncertainty', 'uncertainty_domain', 'shadow_envelope'):
		if c.lookup(m) is None:
			raise AnalysisBroken('LipschitzMatrix.%s is gone' % m)
	bounds(ck, P)
	over_domain(ck, P)
	shadow(ck, P)
	envelope(ck, P)
	midpoint(ck, P)
