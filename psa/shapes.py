"""Domains of concrete shape with symbolic data: what they were declared with, the convex programs their queries pose read
as inequalities in the answer's coordinates, and the comparison of two such lists of inequalities."""
import math
from fractions import Fraction as Fr
from . import arr
from .arr import Interp, Obj, Arr, Cannot, Raised, CELL, symbols, to_arr, poly, num, dot, transpose, arith, elementwise, rename
from .formula import Poly, ZERO, ONE, diff, equal, div, numeric
from .conv import Conv, unknowns, value
from .checks.f02 import Values

FAMS = ('lb', 'ub', 'A', 'b', 'A_eq', 'b_eq', 'Ls', 'ys', 'rhos')


class Decl:
	"""declared constraints on the coordinates [at, at + m) of the whole"""

	def __init__(self, m, at=0, hull=None, **k):
		self.m, self.at, self.hull = m, at, hull
		self.lb = k.get('lb') or [-math.inf] * m
		self.ub = k.get('ub') or [math.inf] * m
		self.A, self.b = k.get('A') or [], k.get('b') or []
		self.A_eq, self.b_eq = k.get('A_eq') or [], k.get('b_eq') or []
		self.quads = k.get('quads') or []

	def at_(self, at):
		d = Decl(self.m, at, self.hull)
		d.lb, d.ub, d.A, d.b, d.A_eq, d.b_eq, d.quads = self.lb, self.ub, self.A, self.b, self.A_eq, self.b_eq, self.quads
		return d

	def rows(self, S, x):
		"""rows over the quantities of S, at the point x (affine in the unknowns): inequalities <= 0 and equations"""
		x = x[self.at:self.at + self.m]
		out = []
		for i in range(self.m):
			if not arr.infinite(self.lb[i]):
				out.append(S.le(S.sub(S.const(self.lb[i]), x[i]), 'lower bound of coordinate %d' % (self.at + i)))
			if not arr.infinite(self.ub[i]):
				out.append(S.le(S.sub(x[i], S.const(self.ub[i])), 'upper bound of coordinate %d' % (self.at + i)))
		for k, (a, b) in enumerate(zip(self.A, self.b)):
			out.append(S.le(S.sub(S.lin(a, x), S.const(b)), 'inequality %d' % k))
		for k, (a, b) in enumerate(zip(self.A_eq, self.b_eq)):
			out.append(S.eq(S.sub(S.lin(a, x), S.const(b)), 'equality %d' % k))
		for k, (L, y, r) in enumerate(self.quads):
			d = [S.sub(xi, S.const(yi)) for xi, yi in zip(x, y)]
			out.append(S.le(S.sub(S.squares([S.lin(row, d) for row in L]), S.mul(S.const(r), S.const(r))), 'quadratic constraint %d' % k))
		return out


def rowsof(a):
	a = to_arr(a)
	n, m = a.shape
	return [[poly(a.flat[i * m + j]) for j in range(m)] for i in range(n)]


# numeric values for the symbols: every constraint cuts part of the region around the centre
CENTRE = (.7, .4, -.3, .2, .5, -.1, .35)
DIRS = ((1., .6, -.4), (-.5, 1.1, .7), (.3, -.9, 1.2), (-.8, -.2, .5), (.9, .8, .3), (-.4, .5, -1.))


def fill(name, a, vals):
	for x, v in zip(to_arr(a).flat, vals):
		for at in poly(x).atoms():
			if at[0] == 'v':
				CELL[0][at[1]] = float(v)


def box(n, m):
	lb, ub = symbols(n + 'lb', (m,)), symbols(n + 'ub', (m,))
	fill(n, lb, [CENTRE[i] - 1.5 - .3 * i for i in range(m)])
	fill(n, ub, [CENTRE[i] + 1.2 + .4 * i for i in range(m)])
	return lb, ub


def ineqs(n, m, k, what='A', rhs='b', margin=(.45, .6, .5), off=0):
	A, b = symbols(n + what, (k, m)), symbols(n + rhs, (k,))
	rows = [DIRS[(off + j) % len(DIRS)][:m] for j in range(k)]
	fill(n, A, [v for r in rows for v in r])
	fill(n, b, [sum(v * c for v, c in zip(r, CENTRE)) + margin[j % 3] for j, r in enumerate(rows)])
	return A, b


def eqs(n, m, k):
	return ineqs(n, m, k, 'E', 'e', (0., 0., 0.), 4)


def quad(n, m, rows, j=0):
	L, y, r = symbols(n + 'L%d' % j, (rows, m)), symbols(n + 'y%d' % j, (m,)), Poly.var(n + 'r%d' % j)
	fill(n, L, [1. + .2 * j if i == k else .25 * (i - k + .5 * j) for i in range(rows) for k in range(m)])
	fill(n, y, [CENTRE[i] + .1 * (i + 1) * (1 - 2 * j) for i in range(m)])
	CELL[0][n + 'r%d' % j] = .9 + .15 * j
	return L, y, r


def points(n, m, k):
	X = symbols(n + 'X', (k, m))
	ang = [(1.6, -.9), (-1.4, -1.1), (-.3, 1.7), (1.5, 1.2), (-1.6, 1.4)]
	fill(n, X, [CENTRE[i] + (ang[j][i] if i < 2 else .9 * (-1) ** j * (1 + .3 * j)) for j in range(k) for i in range(m)])
	return X


def nonneg(I, a, k):
	"""nonnegative least squares at the cell: the best of the least-squares solutions on every set of columns"""
	A, b = to_arr(a[0]), to_arr(a[1])
	n, m = A.shape
	if m > 6:
		raise Cannot('size')
	v = [[value(poly(A.flat[i * m + j]), CELL[0]) for j in range(m)] for i in range(n)]
	t = [value(poly(x), CELL[0]) for x in b.flat]
	best = (sum(x * x for x in t), [0.] * m)
	for mask in range(1, 1 << m):
		J = [j for j in range(m) if mask >> j & 1]
		if len(J) > n:
			continue
		G = [[sum(v[i][p] * v[i][q] for i in range(n)) for q in J] for p in J]
		r = [sum(v[i][p] * t[i] for i in range(n)) for p in J]
		# least is a minimum-norm solver
		x = least([(g, c) for g, c in zip(G, r)], [0.] * len(J))
		if min(x) < 0:
			continue
		full = [0.] * m
		for j, c in zip(J, x):
			full[j] = c
		e = sum((sum(v[i][j] * full[j] for j in range(m)) - t[i]) ** 2 for i in range(n))
		if e < best[0] - 1e-18:
			best = (e, full)
	return Arr((m,), [Poly.const(Fr(c).limit_denominator(10 ** 12)) for c in best[1]]), Poly.const(Fr(math.sqrt(max(0., best[0]))).limit_denominator(10 ** 12))


def squares(I, a, k):
	"""least squares at the cell, shortest solution"""
	A, b = to_arr(a[0]), to_arr(a[1])
	n, m = A.shape
	if len(b.shape) != 1:
		raise Cannot('several right-hand sides')
	v = [[value(poly(A.flat[i * m + j]), CELL[0]) for j in range(m)] for i in range(n)]
	t = [value(poly(x), CELL[0]) for x in b.flat]
	G = [[sum(v[i][p] * v[i][q] for i in range(n)) for q in range(m)] for p in range(m)]
	x = least([(g, sum(v[i][p] * t[i] for i in range(n))) for p, g in enumerate(G)], [0.] * m)
	return (Arr((m,), [Poly.const(Fr(c).limit_denominator(10 ** 12)) for c in x]), Arr((0,), []), m, Arr((0,), []))


class World:
	"""one interpreter run"""

	def __init__(self, P, extra=None, steps=400000):
		CELL[0] = Values()
		self.P, self.conv = P, Conv()
		h = self.conv.hooks()

		def Parameter(I, a, k):
			self.conv.n += 1
			s = a[0] if a else k.get('shape', ())
			s = tuple(arr.integer(x) for x in s) if isinstance(s, (tuple, list)) else (arr.integer(s),)
			p = symbols('?par%d' % self.conv.n, s)
			return p
		h['cvxpy.Parameter'] = Parameter
		h['scipy.spatial.ConvexHull'] = self.facets

		def dup(I, fn, a, k):
			n = to_arr(a[0]).shape[0]
			return Arr((n,), [True] * n)
		h['geometry.geometry.unique_points'] = dup
		h['scipy.optimize.nnls'] = nonneg
		h['numpy.linalg.lstsq'] = h['scipy.linalg.lstsq'] = squares
		from .checks.q01 import Draws
		for n, f in Draws().hooks().items():
			h.setdefault(n, f)
		h.update(extra or {})
		self.I = Interp(P, h, steps=steps)

	def facets(self, I, a, k):
		"""the convex hull of points: facets as symbols of the right number"""
		raise Cannot('facets')

	def q(self, n):
		return self.P.cls('psdr.' + n)

	def linquad(self, n, m, half=False, k=2, e=1):
		lb, ub = box(n, m)
		if half:
			ub.flat[m - 1] = math.inf
		A, b = ineqs(n, m, k)
		E, f = eqs(n, m, e)
		Q = [quad(n, m, m, 0), quad(n, m, max(1, m - 1), 1)]
		o = self.I.new(self.q('LinQuadDomain'), [], dict(lb=lb, ub=ub, A=A, b=b, A_eq=E, b_eq=f, Ls=[q[0] for q in Q], ys=[q[1] for q in Q], rhos=[q[2] for q in Q]))
		return o, Decl(m, lb=lb.flat, ub=ub.flat, A=rowsof(A), b=b.flat, A_eq=rowsof(E), b_eq=f.flat, quads=[(rowsof(L), y.flat, r) for L, y, r in Q])

	def linineq(self, n, m, half=False):
		lb, ub = box(n, m)
		if half:
			lb.flat[0] = -math.inf
		A, b = ineqs(n, m, 2, off=1)
		E, f = eqs(n, m, 1)
		o = self.I.new(self.q('LinIneqDomain'), [], dict(lb=lb, ub=ub, A=A, b=b, A_eq=E, b_eq=f))
		return o, Decl(m, lb=lb.flat, ub=ub.flat, A=rowsof(A), b=b.flat, A_eq=rowsof(E), b_eq=f.flat)

	def box(self, n, m):
		lb, ub = box(n, m)
		return self.I.new(self.q('BoxDomain'), [lb, ub], {}), Decl(m, lb=lb.flat, ub=ub.flat)

	def hull(self, n, m=2, k=4, eq=False, plain=False):
		X = points(n, m, k)
		if plain:
			return self.I.new(self.q('ConvexHullDomain'), [X], {}), Decl(m, hull=rowsof(X))
		lb, ub = box(n, m)
		A, b = ineqs(n, m, 1, off=2)
		L, y, r = quad(n, m, m, 1)
		kw = dict(lb=lb, ub=ub, A=A, b=b, Ls=[L], ys=[y], rhos=[r])
		D = Decl(m, hull=rowsof(X), lb=lb.flat, ub=ub.flat, A=rowsof(A), b=b.flat, quads=[(rowsof(L), y.flat, r)])
		if eq:
			E, f = eqs(n, m, 1)
			kw.update(A_eq=E, b_eq=f)
			D.A_eq, D.b_eq = rowsof(E), f.flat
		return self.I.new(self.q('ConvexHullDomain'), [X], kw), D

	def point(self, n, m):
		x = symbols(n + 'x', (m,))
		fill(n, x, CENTRE[:m])
		return self.I.new(self.q('PointDomain'), [x], {}), Decl(m, A_eq=[[ONE if i == j else ZERO for j in range(m)] for i in range(m)], b_eq=list(x.flat))

	def normal(self, n, m, truncated=True):
		from .checks.q01 import factor, solve
		x, a = symbols(n + 'm', (m,)), symbols(n + 'C', (m, m))
		C = Arr((m, m), [a.flat[min(i, j) * m + max(i, j)] for i in range(m) for j in range(m)])
		fill(n, x, CENTRE[:m])
		fill(n, C, [.5 + .2 * i if i == j else .15 for i in range(m) for j in range(m)])
		CELL[0]['clip'] = 1.7
		o = self.I.new(self.q('NormalDomain'), [x, C], dict(truncate=Poly.const(Fr(1, 20))) if truncated else {})
		if not truncated:
			return o, Decl(m)
		L = solve(factor(C), Arr((m, m), [ONE if i == j else ZERO for i in range(m) for j in range(m)]), True)
		from .formula import power
		return o, Decl(m, quads=[(rowsof(L), list(x.flat), power(Poly.var('clip'), Fr(1, 2)))])

	def uniform(self, n, m):
		lb, ub = box(n, m)
		return self.I.new(self.q('UniformDomain'), [lb, ub], {}), Decl(m, lb=lb.flat, ub=ub.flat)

	def product(self, parts):
		o = self.I.new(self.q('TensorProductDomain'), [[p for p, _ in parts]], {})
		out, at = [], 0
		for _, d in parts:
			for s in (d if isinstance(d, list) else [d]):
				out.append(s.at_(at))
				at += s.m
		return o, out

	def make(self, label):
		mk = {'LinQuadDomain': lambda: self.linquad('a', 3), 'LinQuadDomain open above': lambda: self.linquad('a', 3, half=True), 'LinQuadDomain in one dimension': lambda: self.linquad('a', 1, k=1, e=0),
			'LinIneqDomain': lambda: self.linineq('a', 3), 'LinIneqDomain open below': lambda: self.linineq('a', 3, half=True), 'BoxDomain': lambda: self.box('a', 3),
			'ConvexHullDomain': lambda: self.hull('a'), 'ConvexHullDomain with an equality': lambda: self.hull('a', eq=True), 'ConvexHullDomain of points alone': lambda: self.hull('a', plain=True),
			'Product of a box and a quadratic domain': lambda: self.product([self.box('a', 1), self.linquad('b', 2)]),
			'Product of a linear, a box and a linear domain': lambda: self.product([self.linineq('a', 2), self.box('b', 1), self.linineq('c', 3)]),
			'Product of a hull, a box and a quadratic domain': lambda: self.product([self.hull('a'), self.box('b', 1), self.linquad('c', 2)]),
			'UniformDomain': lambda: self.uniform('a', 2), 'PointDomain': lambda: self.point('a', 2), 'NormalDomain truncated': lambda: self.normal('a', 2), 'NormalDomain truncated in one dimension': lambda: self.normal('a', 1),
			'Product of a point and a quadratic domain': lambda: self.product([self.point('a', 1), self.linquad('b', 2)]), 'Product of a normal and a box domain': lambda: self.product([self.normal('a', 2), self.box('b', 1)]),
			'Product of a uniform and a normal domain': lambda: self.product([self.uniform('a', 1), self.normal('b', 1)]),
			'Product of products': lambda: self.product([self.product([self.box('a', 1), self.linquad('b', 2)]), self.linineq('c', 2)])}
		o, d = mk[label]()
		return o, d if isinstance(d, list) else [d]


LABELS = ('LinQuadDomain', 'LinQuadDomain open above', 'LinQuadDomain in one dimension', 'LinIneqDomain', 'LinIneqDomain open below', 'BoxDomain', 'ConvexHullDomain', 'ConvexHullDomain with an equality', 'ConvexHullDomain of points alone',
	'Product of a box and a quadratic domain', 'Product of a linear, a box and a linear domain', 'Product of a hull, a box and a quadratic domain', 'Product of products', 'UniformDomain', 'PointDomain', 'NormalDomain truncated', 'NormalDomain truncated in one dimension',
	'Product of a point and a quadratic domain', 'Product of a normal and a box domain', 'Product of a uniform and a normal domain')


class Row:
	def __init__(self, kind, co, what):
		self.kind, self.co, self.what = kind, co, what


class Scale:
	"""numeric coefficients (degree at most two in the unknowns) of formulas, at several values of the symbols close to the
	cell: two formulas are taken as equal when they agree at all of them"""
	K = 3

	def __init__(self):
		self.cells = [self.cell(k) for k in range(self.K)]
		self.memo = {}

	def cell(self, k):
		base = CELL[0]

		class Near(Values):
			def __missing__(s, name):
				h = sum((i + 3) * ord(c) for i, c in enumerate(name)) * (k * 7919 + 104729) % 1009
				s[name] = base[name] * (1 + (h / 1009. - .5) * .02) if k else base[name]
				return s[name]
		return Near()

	def le(self, co, what):
		return Row('le', co, what)

	def eq(self, co, what):
		return Row('eq', co, what)

	def of(self, p):
		"""coefficients of a formula, one dictionary per cell: {(): constant, (name,): .., (name, name): ..}"""
		p = poly(p)
		parts = {}
		for m, c in p.t.items():
			key, rest = [], {}
			for a, e in m:
				if a[0] == 'v' and a[1].startswith('?'):
					if e != int(e) or e < 0:
						raise Cannot('power of the decision')
					key += [a[1]] * int(e)
				else:
					rest[a] = e
			if len(key) > 2:
				raise Cannot('degree')
			parts.setdefault(tuple(sorted(key)), []).append((tuple(sorted(rest.items(), key=repr)), c))
		out = [{} for _ in self.cells]
		for key, ts in parts.items():
			q = Poly({m: c for m, c in ts}) if len({m for m, _ in ts}) == len(ts) else None
			if q is None:
				raise Cannot('terms')
			if unknowns([q]):
				raise Cannot('decision inside a function')
			for k, cell in enumerate(self.cells):
				out[k][key] = numeric(q, cell)[0]
		return out

	def const(self, v):
		return self.of(v)

	def sub(self, a, b):
		return self.comb(a, b, -1.)

	def add(self, a, b):
		return self.comb(a, b, 1.)

	def comb(self, a, b, s):
		out = []
		for x, y in zip(a, b):
			d = dict(x)
			for k, c in y.items():
				d[k] = d.get(k, 0.) + s * c
			out.append(d)
		return out

	def mul(self, a, b):
		out = []
		for x, y in zip(a, b):
			d = {}
			for k, c in x.items():
				for l, e in y.items():
					t = tuple(sorted(k + l))
					d[t] = d.get(t, 0.) + c * e
			out.append(d)
		return out

	def zero(self):
		return [{} for _ in self.cells]

	def lin(self, a, x):
		s = self.zero()
		for p, q in zip(a, x):
			s = self.add(s, self.mul(self.of(p), q))
		return s

	def squares(self, xs):
		s = self.zero()
		for t in xs:
			s = self.add(s, self.mul(t, t))
		return s


def clean(co):
	big = max([abs(c) for d in co for c in d.values()] or [0.])
	return [{k: c for k, c in d.items() if abs(c) > 1e-10 * big} for d in co]


def trivial(r):
	"""holds whatever the unknowns are"""
	co = clean(r.co)
	return all(not [k for k in d if k] for d in co) and all((d.get((), 0.) <= 1e-9) if r.kind == 'le' else abs(d.get((), 0.)) < 1e-9 for d in co)


def proportional(p, e, signed, constant=True):
	"""p = k e at every cell with a constant k of its own (positive when signed); constant: the constant terms too"""
	ratios = []
	for x, y in zip(clean(p), clean(e)):
		keys = {k for k in set(x) | set(y) if k or constant}
		if not [k for k in keys if k]:
			return False
		lead = max([k for k in keys if k], key=lambda k: abs(y.get(k, 0.)))
		if not y.get(lead):
			return False
		r = x.get(lead, 0.) / y[lead]
		if not r or signed and r < 0:
			return False
		big = max(abs(y.get(k, 0.)) for k in keys)
		if any(abs(x.get(k, 0.) / r - y.get(k, 0.)) > 1e-8 * big for k in keys):
			return False
		ratios.append(r)
	return True


def declared(S, decls, x):
	"""rows at x; hulls add fresh nonnegative weights"""
	rows = []
	for d in decls:
		rows += d.rows(S, x)
		if d.hull:
			j = [h for h in decls if h.hull].index(d)
			w = [S.of(Poly.var('?w%d[%d]' % (j, i))) for i in range(len(d.hull))]
			rows += [S.le(S.sub(S.zero(), t), 'weight %d' % i) for i, t in enumerate(w)]
			s = S.sub(S.zero(), S.const(1))
			for t in w:
				s = S.add(s, t)
			rows.append(S.eq(s, 'sum of the weights'))
			for c in range(d.m):
				rows.append(S.eq(S.sub(S.lin([r[c] for r in d.hull], w), x[d.at + c]), 'coordinate %d of the weighted points' % (d.at + c)))
	return rows


def atoms_of(S, con):
	"""a constraint of a program as rows"""
	if not isinstance(con, Obj) or con.cls != 'constraint':
		raise Cannot('constraint %r' % (con,))
	op, l, r = con.attrs['op'], con.attrs['l'], con.attrs['r']
	if op in ('Gt', 'GtE'):
		l, r, op = r, l, 'LtE'
	if isinstance(l, Obj) and op in ('LtE', 'Lt') and not isinstance(r, Obj):
		fn, a = l.attrs['fn'], to_arr(l.attrs['arg'])
		rr = to_arr(r)
		if len(rr.flat) != 1:
			raise Cannot('bound of a norm')
		if unknowns([poly(rr.flat[0])]):
			raise Cannot('norm bounded by a decision')
		r1, xs = S.of(rr.flat[0]), [S.of(t) for t in a.flat]
		if fn in ('norm2', 'norm') or (fn == 'norm1' and len(xs) == 1):
			return [S.le(S.sub(S.squares(xs), S.mul(r1, r1)), 'norm')]
		if fn in ('sumsquares', 'sum square'):
			return [S.le(S.sub(S.squares(xs), r1), 'norm')]
		if fn in ('abs', 'norminf'):
			return [S.le(S.sub(t, r1), 'abs') for t in xs] + [S.le(S.sub(S.sub(S.zero(), t), r1), 'abs') for t in xs]
		if fn == 'max':
			return [S.le(S.sub(t, r1), 'max') for t in xs]
		raise Cannot('atom ' + fn)
	if isinstance(l, Obj) or isinstance(r, Obj):
		raise Cannot('nonlinear constraint')
	if op not in ('LtE', 'Lt', 'Eq'):
		raise Cannot('constraint ' + op)
	out = []

	def diff_(x, y):
		if arr.infinite(num2(y)) and num2(y) < 0 or arr.infinite(num2(x)) and num2(x) > 0:
			return 'never'
		if arr.infinite(num2(x)) or arr.infinite(num2(y)):
			return None
		return arith('Sub', x, y)
	for x in to_arr(elementwise(diff_, l, r)).flat:
		if x is None:
			continue
		if isinstance(x, str):
			raise Cannot('constraint that nothing satisfies')
		out.append(Row('eq' if op == 'Eq' else 'le', S.of(x), 'row'))
	return out


def num2(x):
	return x if isinstance(x, float) else 0.


def names_of(rows):
	return sorted({n for r in rows for d in r.co for k in d for n in k})


class Rows:
	"""rows at the first cell, over indices"""

	def __init__(self, rows, names):
		self.names = names
		idx = {n: i for i, n in enumerate(names)}
		self.rows = [(r.kind, {tuple(idx[n] for n in k): c for k, c in r.co[0].items()}) for r in rows]

	def margins(self, u):
		out = []
		for kind, co in self.rows:
			s = 0.
			for k, c in co.items():
				for i in k:
					c = c * u[i]
				s += c
			out.append(-s if kind == 'le' else -abs(s))
		return out

	def project(self, u):
		"""onto the linear equalities"""
		E = []
		for kind, co in self.rows:
			if kind == 'eq':
				if any(len(k) > 1 for k in co):
					raise Cannot('quadratic equality')
				a = [0.] * len(self.names)
				for k, c in co.items():
					if k:
						a[k[0]] += c
				E.append((a, -co.get((), 0.)))
		return least(E, u) if E else u


def least(E, u):
	"""u + A^T z with A (u + A^T z) = b"""
	n = len(E)
	M = [[sum(x * y for x, y in zip(E[i][0], E[j][0])) for j in range(n)] + [E[i][1] - sum(x * y for x, y in zip(E[i][0], u))] for i in range(n)]
	z = [0.] * n
	piv = []
	for c in range(n):
		r = max((i for i in range(n) if i not in [p for p, _ in piv]), key=lambda i: abs(M[i][c]))
		if abs(M[r][c]) < 1e-10:
			continue
		piv.append((r, c))
		for i in range(n):
			if i != r and M[i][c]:
				f = M[i][c] / M[r][c]
				M[i] = [x - f * y for x, y in zip(M[i], M[r])]
	for r, c in piv:
		z[c] = M[r][n] / M[r][c]
	return [x + sum(z[i] * E[i][0][j] for i in range(n)) for j, x in enumerate(u)]


def shake(n):
	seed = 4711
	for trial in range(n):
		d = []
		while True:
			seed = (seed * 1103515245 + 12345) % (1 << 31)
			d.append(seed / (1 << 30) - 1)
			if len(d) == shake.m:
				break
		yield trial, d


def around(RS, start, n, scales=(.0, .05, .15, .3, .6, 1., 1.5, 2.5, 4., 8.)):
	"""points near the start that satisfy the rows"""
	shake.m = max(1, len(start))
	for trial, d in shake(n):
		u = RS.project([s + scales[trial % len(scales)] * x for s, x in zip(start, d)])
		if all(m > (1e-6 if k == 'le' else -1e-8) for m, (k, _) in zip(RS.margins(u), RS.rows)):
			yield u


def separated(S, T, names, start, n=1500):
	"""a point satisfying S clearly and violating T clearly: index of the violated row of T"""
	RS, RT = Rows(S, names), Rows(T, names)
	for u in around(RS, start, n):
		mt = RT.margins(u)
		w = min(range(len(mt)), key=lambda i: mt[i]) if mt else None
		if w is not None and mt[w] < -1e-3:
			return w
	return None


def match(S, got, want):
	"""pair rows; (unmatched got, unmatched want).  An equality may be posed as two inequalities."""
	missing, used = [], set()
	for w in want:
		hit = [i for i, g in enumerate(got) if g.kind == w.kind and proportional(g.co, w.co, w.kind == 'le')]
		if not hit and w.kind == 'eq':
			neg = S.sub(S.zero(), w.co)
			up = [i for i, g in enumerate(got) if g.kind == 'le' and proportional(g.co, w.co, True)]
			dn = [i for i, g in enumerate(got) if g.kind == 'le' and proportional(g.co, neg, True)]
			hit = up + dn if up and dn else []
		if hit:
			used |= set(hit)
		else:
			missing.append(w)
	return [g for i, g in enumerate(got) if i not in used], missing


def tightest(rows):
	"""without the rows that another one implies: the same up to a positive factor with a smaller constant"""
	out = []
	for i, r in enumerate(rows):
		drop = False
		for j, t in enumerate(rows):
			if i == j or r.kind != 'le' or t.kind != 'le' or not proportional(r.co, t.co, True, constant=False):
				continue
			slack = []
			for x, y in zip(clean(r.co), clean(t.co)):
				lead = max([k for k in y if k], key=lambda k: abs(y[k]))
				slack.append(x.get((), 0.) / (x[lead] / y[lead]) - y.get((), 0.))
			if all(s < -1e-9 for s in slack) or all(abs(s) <= 1e-9 for s in slack) and j < i:
				drop = True
		if not drop:
			out.append(r)
	return out


def same_region(S, got, want, start):
	"""(True, '') the same inequalities; (False, what) a point tells them apart; (None, what)"""
	got = tightest([g for g in got if not trivial(g)])
	want = tightest([g for g in want if not trivial(g)])
	extra, missing = match(S, got, want)
	if not extra and not missing:
		return True, '%d rows' % len(got)
	names = names_of(got + want)
	s = start(names)
	w = separated(got, missing, names, s) if missing else None
	if w is not None:
		return False, 'a point satisfies every constraint posed and violates the %s' % missing[w].what
	w = separated(want, extra, names, s) if extra else None
	if w is not None:
		return False, 'a point of the domain violates a constraint posed'
	return None, 'missing %s, additional %d' % ([m.what for m in missing][:3], len(extra))


def hulls(decls):
	return [d for d in decls if d.hull]


def align(S, got, want, decls, main):
	"""identify the weights of every hull with variables of the program, and use that they sum to one"""
	g = {}
	for n in names_of(got):
		g.setdefault(n.split('[')[0], []).append(n)
	free = [k for k in sorted(g, key=lambda s: (len(s), s)) if k not in main]
	ren = {}
	for j, d in enumerate(hulls(decls)):
		if d.hull:
			c = [k for k in free if len(g[k]) == len(d.hull)]
			if not c:
				continue
			free.remove(c[0])
			for i in range(len(d.hull)):
				ren[c[0] + '[%d]' % i] = '?w%d[%d]' % (j, i)
	if not ren:
		return got, want
	re_ = lambda co: [{tuple(sorted(ren.get(n, n) for n in k)): v for k, v in d.items()} for d in co]
	got = [Row(r.kind, re_(r.co), r.what) for r in got]
	for j, d in enumerate(hulls(decls)):
		if d.hull:
			w = ['?w%d[%d]' % (j, i) for i in range(len(d.hull))]
			s = S.sub(S.zero(), S.const(1))
			for n in w:
				s = S.add(s, S.of(Poly.var(n)))
			if any(r.kind == 'eq' and proportional(r.co, s, False) for r in got):
				def elim(co):
					out = []
					for x in co:
						y = {}
						for k, c in x.items():
							if k == (w[0],):
								y[()] = y.get((), 0.) + c
								for n in w[1:]:
									y[(n,)] = y.get((n,), 0.) - c
							else:
								y[k] = y.get(k, 0.) + c
						out.append(y)
					return out
				if not any(w[0] in k and len(k) > 1 for r in got + want for x in r.co for k in x):
					got = [Row(r.kind, elim(r.co), r.what) for r in got]
					want = [Row(r.kind, elim(r.co), r.what) for r in want]
	return got, want


def starter(S, decls, xs):
	"""values of the unknowns for which the answer is the centre and the weights are equal"""
	def go(names):
		base = [1. / len(hulls(decls)[int(n[2:].split('[')[0])].hull) if n.startswith('?w') else 0. for n in names]
		idx = {n: i for i, n in enumerate(names)}
		E = []
		for x, c in zip(xs, centre(decls)):
			a = [0.] * len(names)
			for k, v in x[0].items():
				if k and k[0] in idx:
					a[idx[k[0]]] += v
			if any(a):
				E.append((a, c - x[0].get((), 0.)))
		return least(E, base) if E else base
	return go


def centre(decls):
	c = [0.] * max(d.at + d.m for d in decls)
	for d in decls:
		for i in range(d.m):
			c[d.at + i] = CENTRE[i]
	return c


def same_function(g, w, rows, start):
	"""g = k w + constant with k > 0; False: two points of the region are ordered differently"""
	if proportional(g, w, True, constant=False):
		return True
	fake = [Row('le', g, ''), Row('le', w, '')]
	names = names_of(rows + fake)
	R, F = Rows(rows, names), Rows(fake, names)
	pts = []
	for u in around(R, start(names), 1200, (.1, .3, .8, 1.5)):
		pts.append([-m for m in F.margins(u)])
		if len(pts) > 40:
			break
	sp = max([abs(a[0]) + abs(a[1]) for a in pts] or [1.])
	for i in range(len(pts)):
		for j in range(i):
			dg, dw = pts[i][0] - pts[j][0], pts[i][1] - pts[j][1]
			if dg * dw < 0 and min(abs(dg), abs(dw)) > 1e-3 * sp:
				return False
	return None


def goal(S, obj):
	"""the objective to minimise"""
	e, s = obj.attrs['expr'], obj.attrs['sense']
	if isinstance(e, Obj):
		if e.cls != 'atom' or s != 'min' or e.attrs['fn'] not in ('norm2', 'norm', 'sumsquares', 'sum square'):
			raise Cannot('objective')
		return S.squares([S.of(t) for t in to_arr(e.attrs['arg']).flat])
	a = to_arr(e)
	if len(a.flat) != 1:
		raise Cannot('objective of several entries')
	p = S.of(a.flat[0])
	return p if s == 'min' else S.sub(S.zero(), p)
