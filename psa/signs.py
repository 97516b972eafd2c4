"""Abstract evaluation of extracted terms in a sign domain.  Every constraint family is given a fixed small number of
rows; each row quantity is a sign with a symbolic positive magnitude (or zero, or infinite).  Conditions, masks and
reductions are decided from signs alone; anything that signs do not decide raises Undecided."""
from fractions import Fraction
from .terms import *
from .alg import NF, Poly, TooMany, Branch, Vacuous, IDENT, canon, ratio, rename, transpose
from .doms import name_of as name_of_ext
from .interp import MU, LOOPS, subst_idx


class Undecided(Exception):
	pass


class Wrong(Exception):
	"""a form that is understood and is not the expected one"""


class V:
	"""sign in {-1,0,1}, magnitude: frozenset of candidates for a minimum, each a sorted tuple of (atom, exponent); 'inf'; or None"""
	__slots__ = ('s', 'm', 'op')

	def __init__(self, s, m=(), op='min'):
		self.s, self.m, self.op = s, (frozenset([()]) if m == () else m), op
		if s == 0:
			self.m = frozenset([()])

	def key(self):
		return (self.s, self.m, self.op if self.m != 'inf' and len(self.m) > 1 else '')

	def __eq__(self, o):
		return isinstance(o, V) and self.key() == o.key()

	def __hash__(self):
		return hash(self.key())

	def __repr__(self):
		if self.s == 0:
			return '0'
		g = '-' if self.s < 0 else ''
		if self.m == 'inf':
			return g + 'inf'
		ms = ['*'.join('%s%s' % (a, '' if e == 1 else '^%s' % e) for a, e in m) or '1' for m in sorted(self.m, key=repr)]
		return g + (ms[0] if len(ms) == 1 else '%s(%s)' % (self.op, ', '.join(ms)))


ZERO, ONE, INF, NAN = V(0), V(1), V(1, 'inf'), 'nan'


def atom(n, s=1):
	return V(s, frozenset([((n, 1),)])) if s else ZERO


def mul(a, b, e=1):
	"""a * b**e"""
	if a == NAN or b == NAN:
		return NAN
	if e == -1:
		if b.s == 0:
			return NAN if a.s == 0 else V(a.s, 'inf')
		if b.m == 'inf':
			return NAN if a.m == 'inf' else ZERO
	elif (a.s == 0 and b.m == 'inf') or (b.s == 0 and a.m == 'inf'):
		return NAN
	s = a.s * b.s
	if s == 0:
		return ZERO
	if a.m == 'inf' or b.m == 'inf':
		return V(s, 'inf')
	if len(b.m) == 1:
		y, = b.m
		out = set()
		for x in a.m:
			d = dict(x)
			for k, q in y:
				d[k] = d.get(k, 0) + e * q
			out.add(tuple(sorted((k, q) for k, q in d.items() if q)))
		return V(s, frozenset(out), a.op if s == a.s else {'min': 'max', 'max': 'min'}[a.op])
	if e == 1 and len(a.m) == 1:
		return mul(b, a)
	raise Undecided('product of minima')


def neg(a):
	return NAN if a == NAN else V(-a.s, a.m, a.op)


def cmp(a, b):
	"""-1, 0, 1 or None when signs do not tell; nan gives 'nan'"""
	if a == NAN or b == NAN:
		return 'nan'
	if a == b:
		return 0
	if a.s != b.s:
		return -1 if a.s < b.s else 1
	if a.m == 'inf':
		return a.s
	if b.m == 'inf':
		return -a.s
	ta, tb = tiny(a), tiny(b)
	if ta != tb and a.s == 1:
		return -1 if ta else 1
	if ta != tb:
		return 1 if ta else -1
	return None


def tiny(v):
	"""a tolerance: symbolic, or a numerical constant of at most 1e-3"""
	if v.m == 'inf' or len(v.m) != 1:
		return False
	m, = v.m
	return len(m) == 1 and m[0][1] == 1 and (m[0][0] == 'tol' or str(m[0][0]).startswith('#') and float(Fraction(m[0][0][1:])) <= 1e-3)


TOL = V(1, frozenset([(('tol', 1),)]))


def ext(a, b, op):
	if a == NAN or b == NAN:
		raise Undecided('nan in %s' % op)
	c = cmp(a, b)
	if c is not None:
		return a if (c <= 0) == (op == 'min') else b
	eff = op if a.s > 0 else {'min': 'max', 'max': 'min'}[op]
	for x in (a, b):
		if len(x.m) > 1 and x.op != eff:
			raise Undecided('min of max')
	return V(a.s, a.m | b.m, eff)


class Vec:
	def __init__(self, rows):
		self.rows = tuple(rows)    # (row id, value)

	def map(self, f):
		return Vec((r, f(v)) for r, v in self.rows)

	def __repr__(self):
		return repr(self.rows)

	def __eq__(self, o):
		return isinstance(o, Vec) and self.rows == o.rows

	def __hash__(self):
		return hash(self.rows)


def row_index(x):
	"""indexing by the loop variable, or an entry of a tuple"""
	b, i = x.args
	return i.op in ('idx', 'const') or name_of_ext(i) == 'builtins.int' or b.op in ('tuple', 'list') or i.op == 'tuple' and all(y.op in ('idx', 'const') or y.op == 'slice' and all(z is NONE for z in y.args) for y in i.args)


def unmask(t, m):
	memo = {}

	def go(x):
		if isinstance(x, tuple):
			return tuple(go(y) for y in x)
		if not isinstance(x, T):
			return x
		if x in memo:
			return memo[x]
		if x.op in ('mu', 'alloc', 'ref'):
			return x
		r = go(x.args[0]) if x.op == 'index' and x.args[1] is m else mk(x.op, *[go(a) for a in x.args])
		memo[x] = r
		return r
	return go(t)


class SignEval:
	"""forms: list of (Poly, family, function row->V) matched up to a numeric factor;
	rows: family -> list of row ids; lens: letter -> family, for shape[0] / len of its arrays"""

	def __init__(self, nf, forms, rows, loops=None, calls=None, I=None):
		self.nf, self.forms, self.rows, self.calls, self.I = nf, forms, rows, calls or {}, I
		self.bind = {}
		self.memo = {}
		self.row = None

	def quiet(self, t):
		try:
			self.nf.env = {}
			p = self.nf.poly(t)
		except (Branch, Vacuous, TooMany, RecursionError):
			return None
		return None if p.opaque() else p

	def form(self, t):
		masks = set()
		for x in walk(t):
			if x.op == 'index' and x.args[1].op not in ('idx', 'const') and not row_index(x):
				masks.add(x.args[1])
		if not masks:
			return self.form1(t)
		if len(masks) > 1 or t.op == 'index':
			return None
		m, = masks
		f = self.form1(unmask(t, m))
		if not isinstance(f, Vec):
			return f
		sel = self.ev(m)
		if not isinstance(sel, Vec) or not all(isinstance(v, bool) for _, v in sel.rows):
			raise Undecided('selection')
		d = dict(f.rows)
		if any(r not in d for r, _ in sel.rows):
			raise Undecided('selection')
		return Vec((r, d[r]) for r, v in sel.rows if v)

	def form1(self, t):
		p = self.pcache(t)
		if p is None:
			return None
		c = self.count(t) if t.op in ('call', 'index', 'field') else None
		if c is not None:
			return c
		n = p.number
		if n is not None:
			return ZERO if n == 0 else INF if n == float('inf') else V(-1, 'inf') if n == float('-inf') else V(1 if n > 0 else -1, frozenset([(('#%s' % abs(n), 1),)] if abs(n) != 1 else [()]))
		c = canon(rename(p))
		for q, fam, fn in self.forms:
			r = ratio(c, q)
			if r is None and q is not None and not q.scalar:
				r = ratio(canon(rename(transpose(p))), q)
			if r is not None:
				k = V(1 if r > 0 else -1, frozenset([(('#%s' % abs(r), 1),)] if abs(r) != 1 else [()]))
				if fam is None:
					return mul(k, fn(None))
				if self.row is not None and self.row[0] == fam:
					return mul(k, fn(self.row[1]))
				return Vec((x, mul(k, fn(x))) for x in self.rows[fam])
		return None

	pc_cache = None

	def pcache(self, t):
		if self.pc_cache is None:
			self.pc_cache = {}
		if t not in self.pc_cache:
			self.pc_cache[t] = self.quiet(t)
		return self.pc_cache[t]

	def count(self, t):
		"""number of rows, for len(..) and shape[0]"""
		p = self.pcache(t)
		if p is not None and len(p.d) == 1:
			(s, w), c = next(iter(p.d.items()))
			if not w and len(s) == 1 and s[0][1] == 1 and s[0][0][0] == 's' and str(s[0][0][1]).startswith('len(') and c == 1:
				l = s[0][0][1][4:-1].split('.')[-1]
				fam = {'A': 'ineq', 'b': 'ineq', 'A_eq': 'eq', 'b_eq': 'eq', 'Ls': 'quad', 'ys': 'quad', 'rhos': 'quad', 'lb': 'box', 'ub': 'box'}.get(l)
				if fam is not None:
					return len(self.rows.get(fam, ()))
		x = None
		if t.op == 'index' and t.args[0].op == 'field' and t.args[0].args[1] == 'shape' and t.args[1].op == 'const' and t.args[1].args[0] == 0:
			x = t.args[0].args[0]
		elif t.op == 'field' and t.args[1] == 'size':
			x = t.args[0]
		elif t.op == 'call' and name_of_ext(t) in ('builtins.len', 'numpy.size') and len(t.args[1]) == 1:
			x = t.args[1][0]
		p = self.pcache(x) if x is not None else None
		if p is not None and len(p.d) == 1:
			(s, w), c = next(iter(p.d.items()))
			if not s and len(w) == 1:
				return self.lenof(w[0][1])
		if x is not None:
			ns = {y.args[0] for y in walk(x) if y.op == 'param'}
			if len(ns) == 1 and x.op in ('mu', 'list', 'map', 'phi'):
				return self.lenof(ns.pop())
		return None

	def lenof(self, l):
		fam = {'A': 'ineq', 'b': 'ineq', 'A_eq': 'eq', 'b_eq': 'eq', 'Ls': 'quad', 'ys': 'quad', 'rhos': 'quad', 'lb': 'box', 'ub': 'box'}.get(str(l).split('.')[-1])
		return len(self.rows.get(fam, ())) if fam else None

	def broadcast(self, f, *xs):
		vs = [x for x in xs if isinstance(x, Vec)]
		if not vs:
			return f(*xs)
		ids = [r for r, _ in vs[0].rows]
		for v in vs[1:]:
			if [r for r, _ in v.rows] != ids:
				raise Undecided('rows of different selections combined')
		return Vec((r, f(*[x.rows[i][1] if isinstance(x, Vec) else x for x in xs])) for i, r in enumerate(ids))

	def ev(self, t):
		if t in self.bind:
			return self.bind[t]
		k = (t, self.row)
		if not self.bind and k in self.memo:
			return self.memo[k]
		r = self._ev(t)
		if not self.bind:
			self.memo[k] = r
		return r

	def truth(self, t):
		v = self.ev(t)
		if isinstance(v, bool):
			return v
		if isinstance(v, int):
			return v != 0
		if isinstance(v, V):
			return v.s != 0
		if isinstance(v, Vec) and len(v.rows) == 1:
			x = v.rows[0][1]
			return x if isinstance(x, bool) else x.s != 0
		raise Undecided('truth of %s' % show(t, 3))

	def compare(self, op, a, b):
		def one(x, y):
			if isinstance(x, (int, float)) and not isinstance(x, bool):
				x = snum(x)
			if isinstance(y, (int, float)) and not isinstance(y, bool):
				y = snum(y)
			if not (isinstance(x, V) or x == NAN) or not (isinstance(y, V) or y == NAN):
				raise Undecided('comparison')
			c = cmp(x, y)
			if c == 'nan':
				return op == 'ne'
			if c is None:
				raise Undecided('order of %r and %r' % (x, y))
			return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]
		return self.broadcast(one, a, b)

	def _ev(self, t):
		op = t.op
		if op == 'const':
			if isinstance(t.args[0], bool):
				return t.args[0]
			if isinstance(t.args[0], (int, float)):
				return snum(t.args[0])
		if op == 'ext' and t.args[0] in ('numpy.inf', 'math.inf'):
			return INF
		if op in ('add', 'sub', 'neg', 'matmul', 'param', 'mul', 'pow', 'index') or op == 'call':
			f = self.form(t)
			if f is not None:
				return f
		if op in ('gt', 'ge', 'lt', 'le', 'eq', 'ne'):
			a, b = t.args[:2]
			ca, cb = self.count(a), self.count(b)
			if ca is not None and b.op == 'const':
				x, y = ca, b.args[0]
				return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[op]
			d = mk('sub', a, b)
			f = self.form(d)
			if f is not None and not (b.op == 'const'):
				return self.compare(op, f, ZERO)
			x, y = self.ev(a), self.ev(b)
			if isinstance(x, int) and isinstance(y, V) and not isinstance(x, bool):
				y = {(): 1}.get(tuple(y.m)[0] if y.s else None, 0) if y.s == 0 or y == ONE else None
				if y is None:
					raise Undecided('count')
				return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[op]
			return self.compare(op, x, y)
		if op in ('and', 'allof'):
			return all(self.truth(a) for a in t.args)
		if op in ('or', 'anyof'):
			return any(self.truth(a) for a in t.args)
		if op in ('bitand', 'bitor', 'land', 'lor'):
			return self.broadcast((lambda x, y: x and y) if 'and' in op else (lambda x, y: x or y), *[self.ev(a) for a in t.args])
		if op in ('not', 'invert', 'lnot'):
			return self.broadcast(lambda x: not x, self.ev(t.args[0]))
		if op == 'neg':
			return self.broadcast(neg, self.ev(t.args[0]))
		if op == 'mul':
			return self.broadcast(mul, self.ev(t.args[0]), self.ev(t.args[1]))
		if op == 'div':
			return self.broadcast(lambda x, y: mul(x, y, -1), self.ev(t.args[0]), self.ev(t.args[1]))
		if op == 'phi':
			for pc, v in t.args:
				if all(self.cond(c, p) for c, p in pc):
					return self.ev(v)
			raise Undecided('no alternative')
		if op == 'index':
			return self.index(t)
		if op == 'update':
			base, idx, val = self.ev(t.args[0]), self.ev(t.args[1]), self.ev(t.args[2])
			if isinstance(base, Vec) and isinstance(idx, Vec) and all(isinstance(v, bool) for _, v in idx.rows):
				if isinstance(val, Vec):
					val = dict(val.rows)
				sel = dict(idx.rows)
				return Vec((r, (val[r] if isinstance(val, dict) else val) if sel[r] else v) for r, v in base.rows)
			raise Undecided('update')
		if op == 'mu':
			return self.mu(t)
		if op == 'call':
			return self.call(t)
		if op in ('list', 'tuple'):
			return [self.ev(a) for a in t.args]
		raise Undecided(show(t, 3))

	def cond(self, c, p):
		if c.op == 'exc':
			return not p    # an exception that signs cannot produce
		return self.truth(c) == bool(p)

	def mu(self, t):
		d = MU.get(t)
		if not d or d['init'] is None or d['back'] is None:
			raise Undecided('loop')
		it = LOOPS.get(d['loop'])
		fam = self.loop_family(it)
		if fam is None:
			raise Undecided('loop over %s' % show(it, 2) if it is not None else 'loop')
		v = self.ev(d['init'])
		saved_row, saved_bind = self.row, dict(self.bind)
		try:
			for r in self.rows[fam]:
				self.row = (fam, r)
				self.bind = dict(saved_bind)
				self.bind[t] = v
				self.bind[mk('loop', d['loop'])] = True
				v = self.ev(d['back'])
		finally:
			self.row, self.bind = saved_row, saved_bind
		return v

	def loop_family(self, it):
		"""zip(Ls, ys, rhos), range(len(Ls)), enumerate(zip(..))"""
		if it is None:
			return None
		names = {x.args[0].split('.')[-1] for x in walk(it) if x.op == 'param'}
		fams = {{'Ls': 'quad', 'ys': 'quad', 'rhos': 'quad', 'A': 'ineq', 'b': 'ineq', 'A_eq': 'eq', 'b_eq': 'eq', 'lb': 'box', 'ub': 'box'}.get(n) for n in names}
		if len(fams) == 1 and None not in fams and not any(x.op == 'slice' for x in walk(it)):
			return fams.pop()
		return None

	def index(self, t):
		b, i = t.args
		if i.op == 'const' and b.op == 'call' and name_of_ext(b) in ('numpy.nonzero', 'numpy.where', 'numpy.flatnonzero'):
			return self.ev(b)
		base, idx = self.ev(b), self.ev(i)
		if isinstance(base, Vec) and isinstance(idx, Vec):
			if all(isinstance(v, bool) for _, v in idx.rows):
				ids = [r for r, _ in idx.rows]
				if ids != [r for r, _ in base.rows]:
					raise Undecided('mask of another selection')
				return Vec((r, v) for (r, v), (_, m) in zip(base.rows, idx.rows) if m)
		raise Undecided(show(t, 3))

	def reduce(self, v, op):
		vals = [x for _, x in v.rows] if isinstance(v, Vec) else v if isinstance(v, list) else None
		if vals is None:
			return v
		flat = []
		for x in vals:
			flat += [y for _, y in x.rows] if isinstance(x, Vec) else [x]
		if not flat:
			raise Undecided('%s of nothing' % op)
		r = flat[0]
		for x in flat[1:]:
			r = ext(r, x, op)
		if r == NAN:
			raise Undecided('nan')
		return r

	def call(self, t):
		f, a, k = t.args
		kw = dict(k)
		name = f.args[0] if f.op == 'ext' else None
		if name is None:
			if f.op in ('meth', 'field'):
				name, a = 'numpy.' + f.args[1], (f.args[0],) + tuple(a)
			else:
				raise Undecided(show(t, 3))
		h = self.calls.get(name)
		if h:
			return h(self, t)
		short = name.split('.')[-1]
		if name in ('builtins.float', 'numpy.float64', 'numpy.asarray', 'numpy.array', 'numpy.copy', 'numpy.atleast_1d', 'numpy.squeeze', 'numpy.real', 'numpy.ravel', 'numpy.flatten', 'builtins.bool', 'builtins.list') and a:
			return self.ev(a[0])
		if short in ('any', 'all'):
			v = self.ev(a[0])
			vals = [x for _, x in v.rows] if isinstance(v, Vec) else v if isinstance(v, list) else [v]
			vals = [x if isinstance(x, bool) else x.s != 0 for x in vals]
			return any(vals) if short == 'any' else all(vals)
		if short in ('sum', 'count_nonzero'):
			v = self.ev(a[0])
			if isinstance(v, Vec) and all(isinstance(x, bool) for _, x in v.rows):
				return sum(x for _, x in v.rows)
			if isinstance(v, bool):
				return int(v)
			raise Undecided('sum')
		if short in ('min', 'amin', 'nanmin', 'max', 'amax', 'nanmax'):
			op = 'min' if 'min' in short else 'max'
			if len(a) > 1 and name.startswith('builtins'):
				return self.reduce([self.ev(x) for x in a], op)
			v = self.ev(a[0])
			if short.startswith('nan') and isinstance(v, Vec):
				v = Vec((r, x) for r, x in v.rows if x != NAN)
			vals = v.rows if isinstance(v, Vec) else v
			if 'initial' in kw:
				i = self.ev(kw['initial'])
				return ext(self.reduce(v, op), i, op) if not isinstance(v, (Vec, list)) or vals else i
			if 'default' in kw and isinstance(v, (Vec, list)) and not vals:
				return self.ev(kw['default'])
			return self.reduce(v, op)
		if short in ('minimum', 'maximum', 'fmin', 'fmax') and len(a) == 2:
			op = 'min' if 'min' in short else 'max'
			return self.broadcast(lambda x, y: ext(x, y, op), self.ev(a[0]), self.ev(a[1]))
		if short == 'where' and len(a) == 3:
			m = self.ev(a[0])
			x, y = self.ev(a[1]), self.ev(a[2])
			return self.broadcast(lambda c, p, q: p if c else q, m, x, y)
		if short in ('nonzero', 'flatnonzero', 'where') and len(a) == 1:
			return self.broadcast(lambda x: x if isinstance(x, bool) else x == NAN or x.s != 0, self.ev(a[0]))
		if short in ('isfinite', 'isnan', 'isinf'):
			return self.broadcast(lambda x: {'isfinite': x != NAN and (x.s == 0 or x.m != 'inf'), 'isnan': x == NAN, 'isinf': x != NAN and x.s != 0 and x.m == 'inf'}[short], self.ev(a[0]))
		if short in ('abs', 'absolute', 'fabs'):
			return self.broadcast(lambda x: x if x == NAN or x.s >= 0 else neg(x), self.ev(a[0]))
		if short == 'sign':
			return self.broadcast(lambda x: V(x.s), self.ev(a[0]))
		if short in ('logical_and', 'bitwise_and', 'logical_or', 'bitwise_or'):
			return self.broadcast((lambda x, y: x and y) if 'and' in short else (lambda x, y: x or y), *[self.ev(x) for x in a[:2]])
		if short in ('logical_not', 'invert'):
			return self.broadcast(lambda x: not x, self.ev(a[0]))
		if short in ('len', 'size'):
			c = self.count(t)
			if c is not None:
				return c
			v = self.ev(a[0])
			if isinstance(v, Vec):
				return len(v.rows)
			if isinstance(v, list):
				return len(v)
		if short in ('isclose',) and len(a) >= 2:
			f = self.form(mk('sub', a[0], a[1]))
			if f is None:
				f = self.broadcast(lambda x, y: ZERO if cmp(x, y) == 0 else ONE, self.ev(a[0]), self.ev(a[1]))
			return self.broadcast(lambda x: x.s == 0, f)
		if short in ('hstack', 'concatenate', 'append', 'r_') and a:
			vs = self.ev(a[0]) if len(a) == 1 else [self.ev(x) for x in a]
			rows = []
			for j, v in enumerate(vs):
				if isinstance(v, Vec):
					rows += [(('c', j, r), x) for r, x in v.rows]
				else:
					rows.append((('c', j), v))
			return Vec(rows)
		raise Undecided(show(t, 3))


def snum(n):
	if n == float('inf'):
		return INF
	return ZERO if n == 0 else V(1 if n > 0 else -1, frozenset([(('#%s' % abs(n), 1),)] if abs(n) != 1 else [()]))
