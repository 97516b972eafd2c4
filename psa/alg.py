"""Normal forms of matrix-algebraic value terms.

A value is a polynomial over noncommutative words of matrix/vector letters with commuting scalar
factors.  Reshapes, copies and row-of-batch indexing are erased; a transposed word is identified
with the word read backwards.  Elementwise choices (phi, np.where, x[mask] = ..) are resolved under
an assignment of the boolean atoms they depend on, so a value has one normal form per region.
"""
from __future__ import annotations
from fractions import Fraction
from .terms import *
from .interp import subst_idx

IDENT = {'numpy.' + n for n in ('reshape', 'flatten', 'ravel', 'array', 'asarray', 'copy', 'atleast_1d', 'atleast_2d', 'astype', 'tile', 'squeeze',
	'ascontiguousarray', 'broadcast_to', 'expand_dims', 'asanyarray', 'real', 'asarray_chkfinite', 'atleast_3d', 'matrix', 'repeat', 'to_list', 'tolist', 'item')}
IDENT |= {'builtins.float', 'builtins.list', 'builtins.tuple', 'cvxpy.reshape', 'cvxpy.vec', 'cvxpy.Constant', 'cvxpy.hstack1', 'numpy.float64', 'builtins.array'}
STACK = {'numpy.vstack', 'numpy.hstack', 'numpy.concatenate', 'cvxpy.hstack', 'cvxpy.vstack', 'numpy.append', 'numpy.row_stack', 'numpy.r_', 'numpy.concat', 'numpy.column_stack'}
BOOLFN = {'numpy.isfinite', 'numpy.isinf', 'numpy.isnan', 'numpy.logical_and', 'numpy.logical_or', 'numpy.logical_not', 'numpy.all', 'numpy.any', 'numpy.isclose', 'builtins.bool', 'builtins.all', 'builtins.any', 'numpy.isneginf', 'numpy.isposinf'}
BOOLOP = {'and', 'or', 'not', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'is', 'isnot', 'in', 'notin'}
NEG = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}


class Branch(Exception):
	def __init__(self, atom, values):
		self.atom = atom
		self.values = values


class Vacuous(Exception):
	pass


class TooMany(Exception):
	pass


class Poly:
	__slots__ = ('d',)

	def __init__(self, d=None):
		self.d = {k: v for k, v in (d or {}).items() if v != 0}

	def key(self):
		return tuple(sorted(self.d.items(), key=repr))

	def __eq__(self, o):
		return self.d == o.d

	def __hash__(self):
		return hash(self.key())

	def __repr__(self):
		return ' + '.join('%s*%s' % (v, mshow(k)) for k, v in sorted(self.d.items(), key=repr)) or '0'

	def add(self, o, s=1):
		d = dict(self.d)
		for k, v in o.d.items():
			d[k] = d.get(k, 0) + s * v
		return Poly(d)

	def scale(self, c):
		return Poly({k: v * c for k, v in self.d.items()})

	@property
	def zero(self):
		return not self.d

	@property
	def scalar(self):
		return all(not w for _, w in self.d)

	@property
	def number(self):
		if not self.d:
			return 0
		if len(self.d) == 1 and ((), ()) in self.d:
			return self.d[((), ())]
		return None

	def letters(self):
		out = set()

		def go(x):
			if isinstance(x, tuple):
				if len(x) >= 2 and x[0] in ('v', 'm', 's', 'o') and isinstance(x[1], str):
					out.add(x[1])
				for y in x:
					go(y)
		for k in self.d:
			go(k)
		return out

	def opaque(self):
		return any('?' in l for l in self.letters())


def mshow(m):
	s, w = m
	return '.'.join([ashow(a) + ('' if e == 1 else '^%s' % e) for a, e in s] + [lshow(l) for l in w]) or '1'


def ashow(a):
	if isinstance(a, tuple) and a and a[0] == 's':
		return str(a[1])
	if isinstance(a, tuple) and a and a[0] in ('nrm', 'abs', 'fn', 'max', 'min', 'sum'):
		return '%s(%s)' % (a[0] if a[0] != 'fn' else a[1], Poly(dict(a[-1])) if isinstance(a[-1], tuple) else a[-1])
	if isinstance(a, tuple) and a and a[0] == 'w':
		return '<' + '.'.join(lshow(l) for l in a[1]) + '>'
	return str(a)


def lshow(l):
	if l[0] in ('v', 'o'):
		return l[1] + ("'" if len(l) > 2 and l[2] else '')
	if l[0] == 'm':
		return l[1] + ("'" if l[2] else '')
	if l[0] == 'dg':
		return 'diag(%s)%s' % (Poly(dict(l[1])), '' if l[2] == 1 else '^%s' % l[2])
	if l[0] == 'sel':
		return '[%s]' % (l[1],)
	return str(l)


def num(c):
	if isinstance(c, bool):
		c = int(c)
	if isinstance(c, float):
		if c in (float('inf'), float('-inf')) or c != c:
			return Poly({(((('s', 'inf'), 1),), ()): 1 if c > 0 else -1})
		f = Fraction(c).limit_denominator(10 ** 6)
		c = f if abs(float(f) - c) < 1e-15 * max(1, abs(c)) else Fraction(c)
	if isinstance(c, (int, Fraction)):
		return Poly({((), ()): Fraction(c)})
	return sc('const:%r' % (c,))


def sc(name):
	return Poly({(((('s', name), 1),), ()): 1})


def vec(name):
	return Poly({((), (('v', name),)): 1})


def mat(name, sym=False):
	return Poly({((), (('m', name, 'S' if sym else False),)): 1})


def atom(a, e=1):
	return Poly({(((a, e),), ()): 1})


ONE = num(1)


def trl(l):
	if l[0] == 'm' and l[2] != 'S':
		return ('m', l[1], not l[2])
	if l[0] == 'o':
		return ('o', l[1], not l[2])
	return l


def revT(w):
	return tuple(trl(l) for l in reversed(w))


def canonw(w):
	w = list(w)
	i = 0
	while i + 1 < len(w):
		a, b = w[i], w[i + 1]
		if a[0] == 'dg' and b[0] == 'dg':
			if a[1] == b[1]:
				e = a[2] + b[2]
				w[i:i + 2] = [('dg', a[1], e)] if e else []
				i = max(0, i - 1)
				continue
			if repr(b) < repr(a):
				w[i], w[i + 1] = b, a
				i = max(0, i - 1)
				continue
		i += 1
	w = tuple(w)
	r = revT(w)
	return min(w, r, key=repr)


def mono(scal, word):
	d = {}
	for a, e in scal:
		d[a] = d.get(a, 0) + e
	if len(word) >= 2 and word[0][0] == 'v' and word[-1][0] == 'v':
		a = ('w', canonw(word))
		d[a] = d.get(a, 0) + 1
		word = ()
	return (tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=repr)), tuple(word))


def canon(p):
	"""identify words with their transposes (only valid for a finished vector/scalar value)"""
	d = {}
	for (s, w), c in p.d.items():
		k = (s, canonw(w))
		d[k] = d.get(k, 0) + c
	return Poly(d)


def transpose(p):
	d = {}
	for (s, w), c in p.d.items():
		k = (s, revT(w))
		d[k] = d.get(k, 0) + c
	return Poly(d)


def simpw(w):
	w = list(w)
	i = 0
	while i + 1 < len(w):
		a, b = w[i], w[i + 1]
		if a[0] == 'dg' and b[0] == 'dg':
			if a[1] == b[1]:
				e = a[2] + b[2]
				w[i:i + 2] = [('dg', a[1], e)] if e else []
				i = max(0, i - 1)
				continue
			if repr(b) < repr(a):
				w[i], w[i + 1] = b, a
				i = max(0, i - 1)
				continue
		i += 1
	return tuple(w)


def isvecw(w):
	return len(w) == 1 and w[0][0] == 'v' or len(w) > 1 and (w[0][0] == 'v') != (w[-1][0] == 'v')


def matmul(a, b):
	d = {}
	for (s1, w1), c1 in a.d.items():
		for (s2, w2), c2 in b.d.items():
			# vectors carry no orientation: a vector on the left is a row, on the right a column
			u, v = w1, w2
			if u and v:
				if isvecw(u) and u[0][0] != 'v':
					u = revT(u)
				if isvecw(v) and v[-1][0] != 'v':
					v = revT(v)
			w = simpw(u + v)
			k = mono(s1 + s2, w)
			d[k] = d.get(k, 0) + c1 * c2
	return Poly(d)


def factor(p):
	"""p = c * q with q's leading coefficient 1"""
	k = min(p.d, key=repr)
	c = p.d[k]
	return c, p.scale(Fraction(1) / c if isinstance(c, (int, Fraction)) else 1 / c)


def dg(p, e=1):
	"""diagonal matrix of vector p, to the power e"""
	if p.zero:
		return p
	if p.number is not None:
		return num(p.number ** e)
	if len(p.d) == 1:
		(s, w), c = next(iter(p.d.items()))
		out = Poly({(mono([(a, x * e) for a, x in s], ())[0], ()): c ** e})
		if w:
			if len(w) >= 2 and all(l[0] == 'dg' for l in w[:-1]) and w[-1][0] in ('v',):
				ws = simpw([(l[0], l[1], l[2] * e) for l in w[:-1]] + [('dg', Poly({((), (w[-1],)): 1}).key(), e)])
			elif all(l[0] == 'dg' for l in w):
				ws = simpw([(l[0], l[1], l[2] * e) for l in w])
			else:
				ws = (('dg', canon(Poly({((), w): 1})).key(), e),)
			out = matmul(out, Poly({((), ws): 1}))
		return out
	c, q = factor(canon(p))
	if p.scalar:
		return Poly({(((('sum', q.key()), e),), ()): c ** e})
	return Poly({((), (('dg', q.key(), e),)): c ** e})


def expand_norms(p):
	"""rewrite nrm(P)^2k as inner products"""
	out = Poly()
	for (s, w), c in p.d.items():
		term = Poly({((), w): c}) if w else num(1).scale(c)
		pre = num(1)
		for a, e in s:
			if a[0] == 'nrm' and isinstance(e, int) and e >= 2 and e % 2 == 0:
				P = Poly(dict(a[1]))
				ip = inner(P, P)
				for _ in range(e // 2):
					pre = matmul(pre, ip)
			else:
				pre = matmul(pre, Poly({(((a, e),), ()): 1}))
		out = out.add(matmul(pre, term))
	return out


def orient_col(p):
	"""write every word as a column: vector letter last"""
	d = {}
	for (s, w), c in p.d.items():
		if w and w[0][0] == 'v' and w[-1][0] != 'v':
			w = revT(w)
		d[(s, w)] = d.get((s, w), 0) + c
	return Poly(d)


def inner(a, b):
	return matmul(transpose(orient_col(a)), orient_col(b))


class NF:
	"""leaf(t) -> Poly or None;  batch: names of letters whose rows are points"""

	def __init__(self, leaf, interp=None, limit=96, elem=None, var=None):
		self.leaf = leaf
		self.limit = limit
		self.I = interp
		self.var = var or set()     # names of letters that are the free point (kept expanded)
		self.env = {}
		self.memo = {}
		self.opq = {}

	# ---- regions
	def regions(self, fn, init=None):
		"""all (env, fn()) over assignments of the atoms fn branches on; fn may raise Vacuous -> value None"""
		out = []
		stack = [dict(init or {})]
		while stack:
			env = stack.pop()
			self.env = env
			self.memo = {}
			try:
				out.append((env, fn()))
			except Vacuous:
				out.append((env, None))
			except Branch as b:
				if len(out) + len(stack) > self.limit:
					raise TooMany()
				for v in reversed(b.values):
					e = dict(env)
					e[b.atom] = v
					if self.feasible(e):
						stack.append(e)
		return out

	def feasible(self, env):
		parts = [k for k in env if not isinstance(k, T)]
		return True

	def decide(self, c):
		"""truth of a boolean term in the current region"""
		if c.op == 'const':
			return bool(c.args[0])
		if c.op == 'not':
			return not self.decide(c.args[0])
		if c.op in ('and', 'allof'):
			return all(self.decide(a) for a in c.args)
		if c.op == 'or':
			return any(self.decide(a) for a in c.args)
		if c.op == 'ne':
			return not self.decide(mk('eq', *c.args))
		if c.op == 'ge':
			return not self.decide(mk('lt', *c.args))
		if c.op == 'gt':
			return not self.decide(mk('le', *c.args))
		if c.op == 'isnot':
			return not self.decide(mk('is', *c.args))
		if c.op == 'notin':
			return not self.decide(mk('in', *c.args))
		if c.op == 'call':
			n = c.args[0].args[0] if c.args[0].op == 'ext' else ''
			if n == 'numpy.logical_and':
				return self.decide(c.args[1][0]) and self.decide(c.args[1][1])
			if n == 'numpy.logical_or':
				return self.decide(c.args[1][0]) or self.decide(c.args[1][1])
			if n in ('numpy.logical_not', 'numpy.invert'):
				return not self.decide(c.args[1][0])
			if n in ('numpy.isfinite', 'numpy.isinf'):
				r = self.finite(c.args[1][0])
				return r if n == 'numpy.isfinite' else not r
			if n in ('builtins.bool', 'numpy.array', 'numpy.asarray', 'numpy.astype', 'numpy.flatten', 'numpy.reshape'):
				return self.decide(c.args[1][0])
		if c.op == 'phi' or c.op == 'update':
			return self.decide(self.resolve(c))
		if c.op == 'index':
			b, i = c.args
			if b.op in BOOLOP or b.op == 'call' and b.args[0].op == 'ext' and b.args[0].args[0] in BOOLFN:
				return self.decide(b)
		if c in self.env:
			return self.env[c]
		raise Branch(c, [True, False])

	def finite(self, t):
		t0 = t
		while True:
			if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in IDENT and t.args[1]:
				t = t.args[1][0]
			elif t.op in ('phi', 'update'):
				t = self.resolve(t)
			elif t.op == 'neg':
				t = t.args[0]
			elif t.op == 'index' and t.args[1].op == 'idx':
				t = t.args[0]
			else:
				break
		p = self.poly(t)
		if any('inf' == a[1] for (s, w), c in p.d.items() for a, e in s if a[0] == 's'):
			return False
		if p.number is not None:
			return True
		ls = sorted(p.letters())
		cond = sorted(l for l in ls if '?' not in l)
		key = mk('finite', const(','.join(cond) or '?%d' % t.id))
		# finite iff each letter is: one atom per letter
		if cond and len(cond) == len(ls):
			return all(self.fin_atom(l) for l in self.finite_letters(p))
		if key in self.env:
			return self.env[key]
		raise Branch(key, [True, False])

	def finite_letters(self, p):
		ls = set()
		for (s, w), c in p.d.items():
			for l in w:
				if l[0] == 'v':
					ls.add(l[1])
		return sorted(ls) or sorted(p.letters())

	def fin_atom(self, l):
		k = mk('finite', const(l))
		if k in self.env:
			return self.env[k]
		raise Branch(k, [True, False])

	def resolve(self, t):
		"""one step: pick the alternative of a phi / update / where in the current region"""
		if t.op == 'phi':
			vals = t.args
			if len({v for _, v in vals}) == 1:
				return vals[0][1]
			keys = []
			try:
				keys = [self.quiet(v) for _, v in vals]
			except (Branch, Vacuous):
				keys = []
			if keys and all(k is not None and k == keys[0] for k in keys):
				return vals[0][1]
			for pc, v in vals:
				if all(self.decide(c) == bool(p) for c, p in pc):
					return v
			return vals[-1][1]
		if t.op == 'update':
			base, idx, val = t.args[:3]
			if is_mask(idx):
				return self.masked(val, idx) if self.decide(idx) else base
		return t

	def masked(self, val, mask):
		return val

	def quiet(self, t):
		p = self.poly(t)
		return None if p.opaque() else p

	# ---- polynomials
	def poly(self, t):
		r = self.memo.get(t)
		if r is None:
			r = self._poly(t)
			self.memo[t] = r
		return r

	def opaque(self, t):
		self.opq[t] = True
		return Poly({((), (('o', '?%d' % t.id, False),)): 1})

	def _poly(self, t):
		r = self.leaf(t)
		if r is not None:
			return r
		op = t.op
		if op == 'const':
			if isinstance(t.args[0], (int, float)):
				return num(t.args[0])
			return self.opaque(t)
		if op == 'ext':
			if t.args[0] in ('numpy.inf', 'math.inf'):
				return num(float('inf'))
			if t.args[0] in ('numpy.pi', 'math.pi'):
				return sc('pi')
			return self.opaque(t)
		if op == 'add':
			return self.poly(t.args[0]).add(self.poly(t.args[1]))
		if op == 'sub':
			return self.poly(t.args[0]).add(self.poly(t.args[1]), -1)
		if op == 'neg':
			return self.poly(t.args[0]).scale(-1)
		if op == 'pos':
			return self.poly(t.args[0])
		if op == 'matmul':
			return self.mm(self.poly(t.args[0]), self.poly(t.args[1]))
		if op == 'mul':
			return self.had(self.poly(t.args[0]), self.poly(t.args[1]))
		if op == 'div':
			return self.had(self.poly(t.args[0]), dg(self.poly(t.args[1]), -1)) if not self.poly(t.args[1]).zero else self.opaque(t)
		if op == 'pow':
			n = self.poly(t.args[1]).number
			return self.power(self.poly(t.args[0]), n, t)
		if op in ('phi', 'update'):
			u = self.resolve(t)
			if u is not t:
				return self.poly(u)
			if op == 'update':
				return self.place(t)
		if op == 'index':
			return self.index(t)
		if op == 'call':
			return self.call(t)
		if op == 'list' or op == 'tuple':
			ps = [self.poly(a) for a in t.args]
			if ps and all(p == ps[0] for p in ps):
				return ps[0]
			if len(ps) > 1:
				return ps[self.part(len(ps))]
			return self.opaque(t)
		if op == 'map':
			body, key, its, conds = t.args
			return self.poly(body)
		if op == 'anyof':
			return self.poly(t.args[1 + self.part(len(t.args) - 1)])
		return self.opaque(t)

	def mm(self, a, b):
		# orientation of vectors is not tracked: x @ M reads M' x
		return matmul(a, b)

	def part(self, n):
		k = ('part', n) if not self.depth else ('part', n, self.depth)
		if k in self.env:
			return self.env[k]
		raise Branch(k, list(range(n)))

	depth = 0

	def deeper(self, t):
		"""the chosen piece; pieces of pieces are chosen separately"""
		self.depth += 1
		try:
			return self.poly(t)
		finally:
			self.depth -= 1

	def had(self, a, b):
		"""elementwise product (a scalar factor scales)"""
		if a.scalar or b.scalar:
			return matmul(a, b)
		if all(all(l[0] == 'dg' for l in w) for _, w in a.d):
			return matmul(a, b)
		if all(all(l[0] == 'dg' for l in w) for _, w in b.d):
			return matmul(b, a)
		va, vb = a.letters() & self.var, b.letters() & self.var
		if vb and not va:
			return matmul(dg(a), b)
		if va and not vb:
			return matmul(dg(b), a)
		out = Poly()
		for (s1, w1), c1 in a.d.items():
			for (s2, w2), c2 in b.d.items():
				u, v = sorted((canonw(w1), canonw(w2)), key=repr)
				if not u:
					u, v = v, u
				if not v:
					out = out.add(Poly({mono(s1 + s2, u): c1 * c2}))
					continue
				out = out.add(matmul(dg(Poly({(mono(s1 + s2, ())[0], u): c1 * c2})), Poly({((), v): 1})))
		return out

	def power(self, p, n, t):
		if n is None:
			return self.opaque(t)
		if p.scalar:
			if p.zero:
				return p
			if len(p.d) == 1:
				(s, w), c = next(iter(p.d.items()))
				if n == int(n):
					return Poly({(mono([(a, e * int(n)) for a, e in s], ())[0], ()): c ** int(n)})
				cc = float(c) ** float(n) if c > 0 else None
				if cc is not None:
					f = Fraction(cc).limit_denominator(10 ** 6)
					return Poly({(mono([(a, simp(e * n)) for a, e in s], ())[0], ()): f})
			if n == int(n) and 0 < n <= 4:
				r = p
				for _ in range(int(n) - 1):
					r = matmul(r, p)
				return r
			return dg(p, simp(n))
		if n == int(n) and 0 < n <= 3 and len(p.d) <= 4:
			r = p
			for _ in range(int(n) - 1):
				r = self.had(r, p)
			return r
		return dg(p, simp(n))

	def norm(self, p, e=1):
		if p.zero:
			return p
		p = canon(p)
		c, q = factor(p)
		if len(q.d) == 1:
			(s, w), cc = next(iter(q.d.items()))
			if not w:
				return Poly({(mono([(a, x * e) for a, x in s], ())[0], ()): abs(c) ** e})
		return Poly({(((('nrm', q.key()), e),), ()): abs(c) ** e})

	def index(self, t):
		b, i = t.args
		if b.op == 'mu':
			e = self.mu_elem(b, i)
			if e is not None:
				return self.deeper(e)
		if b.op in ('lext', 'lapp'):
			e = self.list_elem(b, i)
			if e is not None:
				return self.deeper(e)
		if b.op == 'map' and i.op == 'idx':
			return self.poly(subst_idx(b.args[0], b.args[1], i))
		if b.op == 'list' and i.op == 'idx' and b.args:
			return self.deeper(b.args[self.part(len(b.args)) if len(b.args) > 1 else 0])
		if b.op in ('list', 'tuple') and i.op == 'const' and isinstance(i.args[0], int):
			try:
				return self.poly(b.args[i.args[0]])
			except IndexError:
				pass
		if i.op == 'tuple':
			its = i.args
			if all(x.op == 'slice' and all(a is NONE for a in x.args) or x is NONE or is_const(x, Ellipsis) or x.op == 'ext' and x.args[0] == 'numpy.newaxis' for x in its):
				return self.poly(b)
			masks = [x for x in its if is_mask(x)]
			if masks and all(is_mask(x) or full(x) for x in its):
				for m in masks:
					if not self.decide(m):
						raise Vacuous()
				return self.poly(b)
			if len(its) == 2 and full(its[0]):
				return self.select(self.poly(b), self.selkey(its[1]))
			if len(its) == 2 and full(its[1]) and its[0].op == 'idx':
				return self.row(b, its[0])
			return self.opaque(t)
		if full(i):
			return self.poly(b)
		if is_mask(i):
			if not self.decide(i):
				raise Vacuous()
			return self.poly(b)
		if i.op == 'call' and i.args[0].op == 'ext' and i.args[0].args[0] in ('numpy.nonzero', 'numpy.where', 'numpy.flatnonzero', 'numpy.argwhere') and len(i.args[1]) == 1:
			m = i.args[1][0]
			if is_mask(m):
				if not self.decide(m):
					raise Vacuous()
				return self.poly(b)
			return self.poly(b)
		if i.op == 'index' and is_const(i.args[1], 0) and i.args[0].op == 'call':
			return self.index(mk('index', b, i.args[0]))
		if i.op == 'idx':
			return self.row(b, i)
		if self.mumask(i):
			return self.poly(b)
		if i.op in ('slice', 'const', 'add', 'sub'):
			return self.select(self.poly(b), self.selkey(i))
		return self.opaque(t)

	batch = frozenset()

	def mumask(self, t):
		d = MU.get(t) if t.op == 'mu' else None
		i = d and d['init']
		return bool(i is not None and i.op == 'call' and i.args[0].op == 'ext' and i.args[0].args[0] in ('numpy.ones', 'numpy.zeros') and any(n == 'dtype' and 'bool' in show(v) for n, v in i.args[2]))

	def row(self, b, i):
		p = self.poly(b)
		if p.letters() & self.batch:
			return p
		return self.select(p, self.selkey(i))

	def select(self, p, key):
		d = {}
		for (s, w), c in p.d.items():
			if w:
				if w[0][0] == 'v' and w[-1][0] != 'v':
					w = revT(w)
				w = (('sel', key),) + w
			k = (s, w)
			d[k] = d.get(k, 0) + c
		return Poly(d)

	def selkey(self, i):
		if i.op == 'idx':
			return 'i%d' % i.id
		return 's%d' % i.id

	def mu_elem(self, mu, i):
		d = MU.get(mu)
		if not d or d['init'] is None or d['back'] is None:
			return None
		init, back = d['init'], d['back']
		if back.op == 'lapp' and back.args[0] is mu and i.op == 'idx':
			if init.op == 'list' and not init.args:
				return self.mu_item(mu, i)
			return self.list_elem(mu, i)
		return None

	def mu_item(self, mu, i):
		v = MU[mu]['back'].args[1]
		for k in {x for x in walk(v) if x.op == 'idx'}:
			v = subst_idx(v, k.args[0], i)
		return v

	def list_elem(self, b, i):
		"""element of a concatenation of lists: choose the piece (same choice for every list indexed by i)"""
		pieces = []
		x = b
		while True:
			if x.op in ('lext', 'lapp'):
				pieces.append((x.op, x.args[1]))
				x = x.args[0]
				continue
			d = MU.get(x) if x.op == 'mu' else None
			if d and d['init'] is not None and d['back'] is not None and d['back'].op == 'lapp' and d['back'].args[0] is x:
				pieces.append(('lapp', self.mu_item(x, i)))
				x = d['init']
				continue
			break
		pieces.append(('lext', x))
		pieces.reverse()
		pieces = [p for p in pieces if not (p[1].op == 'list' and not p[1].args)]
		if not pieces:
			return None
		k = self.part(len(pieces)) if len(pieces) > 1 else 0
		kind, v = pieces[k]
		return v if kind == 'lapp' else mk('index', v, i)

	def place(self, t):
		return self.opaque(t)

	def call(self, t):
		f, a, k = t.args
		kw = dict(k)
		name = f.args[0] if f.op == 'ext' else None
		if f.op == 'meth' or f.op == 'field':
			m = f.args[1]
			if m in ('__rmatmul__',) and len(a) == 1:
				return self.mm(self.poly(a[0]), self.poly(f.args[0]))
			if m in ('__matmul__', 'dot') and len(a) == 1:
				return self.mm(self.poly(f.args[0]), self.poly(a[0]))
			return self.opaque(t)
		if name is None:
			return self.opaque(t)
		short = name.split('.')[-1]
		if name in IDENT and a:
			return self.poly(a[0])
		if short == 'transpose' and len(a) == 1:
			return transpose(self.poly(a[0]))
		if short in ('dot', 'matmul', 'inner', 'multi_dot') and len(a) == 2:
			return self.mm(self.poly(a[0]), self.poly(a[1]))
		if short in ('multiply',) and len(a) == 2:
			return self.had(self.poly(a[0]), self.poly(a[1]))
		if short in ('divide', 'true_divide') and len(a) == 2:
			return self.had(self.poly(a[0]), dg(self.poly(a[1]), -1))
		if short in ('power',) and len(a) == 2:
			return self.power(self.poly(a[0]), self.poly(a[1]).number, t)
		if short == 'square' and a:
			return self.power(self.poly(a[0]), 2, t)
		if short in ('ones', 'ones_like') or short == 'eye' or short == 'identity':
			return ONE
		if short in ('zeros', 'zeros_like'):
			return Poly()
		if short == 'full' and len(a) == 2:
			return self.poly(a[1])
		if short == 'diag' and len(a) == 1:
			p = self.poly(a[0])
			if p.d and all(all(l[0] == 'dg' for l in w) for _, w in p.d):
				return p      # diagonal of a diagonal matrix, as the matrix itself
			return dg(p)
		if short == 'norm' and a:
			o = kw.get('ord', a[1] if len(a) > 1 else None)
			if o is not None and o is not NONE and not is_const(o, 2) and not (o.op == 'const' and o.args[0] == 'fro'):
				return self.opaque(t)
			return self.norm(self.poly(a[0]))
		if name in ('cvxpy.norm2', 'cvxpy.pnorm'):
			return self.norm(self.poly(a[0]))
		if short == 'sum_squares' and a:
			return self.norm(self.poly(a[0]), 2)
		if short == 'sum' and a and name in ('numpy.sum', 'cvxpy.sum', 'builtins.sum'):
			x = a[0]
			if x.op == 'pow' and self.poly(x.args[1]).number == 2:
				return self.norm(self.poly(x.args[0]), 2)
			if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0].split('.')[-1] in ('power', 'square', 'multiply'):
				y = x.args[1]
				if x.args[0].args[0].endswith('square') or x.args[0].args[0].endswith('power') and self.poly(y[1]).number == 2:
					return self.norm(self.poly(y[0]), 2)
				if x.args[0].args[0].endswith('multiply'):
					return self.dotp(self.poly(y[0]), self.poly(y[1]))
			if x.op == 'mul':
				return self.dotp(self.poly(x.args[0]), self.poly(x.args[1]))
			p = self.poly(x)
			if len(p.d) == 1:
				(s, w), c = next(iter(p.d.items()))
				return Poly({(mono(s + ((('sum', Poly({((), canonw(w)): 1}).key()), 1),), ())[0], ()): c})
			return Poly({(((('sum', canon(p).key()), 1),), ()): 1})
		if short == 'sqrt' and a:
			p = self.poly(a[0])
			return self.power(p, Fraction(1, 2), t)
		if short in ('abs', 'absolute', 'fabs') and a:
			p = self.poly(a[0])
			if p.zero:
				return p
			if p.number is not None:
				return num(abs(p.number))
			c, q = factor(canon(p))
			return Poly({(((('abs', q.key()), 1),), ()): abs(c)})
		if short in ('exp', 'log', 'floor', 'ceil', 'sign', 'cos', 'sin', 'round', 'tan', 'tanh', 'log10') and a:
			return Poly({(((('fn', short, canon(self.poly(a[0])).key()), 1),), ()): 1})
		if short in ('max', 'amax', 'min', 'amin', 'prod', 'mean', 'det', 'std', 'var') and len(a) >= 1 and not (short in ('max', 'min') and len(a) > 1 and name.startswith('builtins')):
			return Poly({(((('fn', short.replace('amax', 'max').replace('amin', 'min'), canon(self.poly(a[0])).key()), 1),), ()): 1})
		if short in ('maximum', 'minimum', 'max', 'min') and len(a) == 2:
			ks = tuple(sorted((canon(self.poly(x)).key() for x in a), key=repr))
			return Poly({(((('fn2', short[:3], ks), 1),), ()): 1})
		if short == 'where' and len(a) == 3 and a[0].op in ('gt', 'ge', 'lt', 'le'):
			l, r, x, y = [canon(self.poly(q)) for q in a[0].args[:2] + a[1:]]
			if not any(q.opaque() for q in (l, r, x, y)) and {l.key(), r.key()} == {x.key(), y.key()} and l != r:
				k = 'max' if (a[0].op in ('gt', 'ge')) == (x == l) else 'min'
				return Poly({(((('fn2', k, tuple(sorted((l.key(), r.key()), key=repr))), 1),), ()): 1})
		if short == 'where' and len(a) == 3:
			return self.poly(a[1]) if self.decide(a[0]) else self.poly(a[2])
		if name in STACK and a:
			x = a[0]
			if x.op in ('list', 'tuple') and x.args:
				if len(x.args) == 1:
					return self.poly(x.args[0])
				return self.deeper(x.args[self.part(len(x.args))])
			if x.op == 'map':
				return self.poly(x)
			return self.opaque(t)
		if short == 'inv' and a:
			p = self.poly(a[0])
			if p.d and all(all(l[0] == 'dg' for l in w) for _, w in p.d) and len(p.d) == 1:
				return dg(p, -1)
			return self.opaque(t)
		if short == 'solve' and len(a) == 2:
			p = self.poly(a[0])
			if len(p.d) == 1 and all(all(l[0] == 'dg' for l in w) for _, w in p.d):
				return self.mm(dg(p, -1), self.poly(a[1]))
			return self.opaque(t)
		if short == 'outer' and len(a) == 2:
			p, q = self.poly(a[0]), self.poly(a[1])
			if p.scalar or q.scalar:
				return matmul(p, q)
		return self.opaque(t)

	def dotp(self, p, q):
		if p == q:
			return self.norm(p, 2)
		if p.scalar or q.scalar:
			return Poly({(((('sum', canon(matmul(p, q)).key()), 1),), ()): 1})
		return inner(p, q)


def simp(e):
	e = Fraction(e)
	return int(e) if e.denominator == 1 else e


def full(x):
	return x.op == 'slice' and all(a is NONE for a in x.args) or is_const(x, Ellipsis)


def is_mask(t):
	if t.op in BOOLOP:
		return True
	if t.op == 'call' and t.args[0].op == 'ext':
		n = t.args[0].args[0]
		if n in BOOLFN:
			return True
		if n in IDENT and t.args[1]:
			return is_mask(t.args[1][0])
		if n in ('numpy.invert',):
			return True
	if t.op == 'update':
		return is_mask(t.args[2]) or t.args[2].op == 'const' and isinstance(t.args[2].args[0], bool)
	return False


def strip_sel(p):
	"""remove a selection common to all vector words; None if they disagree"""
	while True:
		ws = [w for _, w in p.d if w]
		heads = set()
		for w in ws:
			c = [l for l in (w[0], w[-1]) if l[0] == 'sel']
			heads.add(c[0] if c else None)
		if not ws or heads == {None}:
			return p
		if len(heads) > 1:
			return None
		h = heads.pop()
		d = {}
		for (s, w), c in p.d.items():
			if w:
				w = w[1:] if w[0] == h else w[:-1]
			d[(s, w)] = d.get((s, w), 0) + c
		p = Poly(d)


def without(p, names):
	"""p with the given scalar letters set to zero"""
	d = {}

	def has(x):
		if isinstance(x, tuple):
			if len(x) >= 2 and x[0] == 's' and x[1] in names:
				return True
			return any(has(y) for y in x)
		return False
	for k, c in p.d.items():
		if not has(k):
			d[k] = c
	return Poly(d)


def ratio(p, q):
	"""c with p == c*q, or None"""
	if p.zero or q.zero or set(p.d) != set(q.d):
		return None
	cs = {v / q.d[k] for k, v in p.d.items()}
	return cs.pop() if len(cs) == 1 else None


import re


def rename(p):
	"""rename loop positions so that the normal form does not depend on which loop they come from"""
	names = set()

	def col(x):
		if isinstance(x, tuple):
			for y in x:
				col(y)
		elif isinstance(x, str):
			names.update(re.findall(r'\[(i\d+)\]', x))
	for k in p.d:
		col(k)
	if not names:
		return p
	m = {n: 'k' if len(names) == 1 else 'k%d' % j for j, n in enumerate(sorted(names))}

	def sub(x):
		if isinstance(x, tuple):
			return tuple(sub(y) for y in x)
		if isinstance(x, str) and '[' in x:
			return re.sub(r'\[(i\d+)\]', lambda g: '[%s]' % m[g.group(1)], x)
		return x
	return Poly({sub(k): v for k, v in p.d.items()})


def final(p):
	"""canonical form of a finished scalar or vector value"""
	q = strip_sel(p)
	if q is None:
		return None
	return rename(canon(q))


def substitute(p, name, q):
	"""replace vector letter `name` by the vector polynomial q (words only)"""
	out = Poly()
	for (s, w), c in p.d.items():
		t = Poly({(s, ()): c})
		hit = [i for i, l in enumerate(w) if l == ('v', name)]
		if not hit:
			out = out.add(Poly({(s, w): c}))
			continue
		i = hit[0]
		w2 = w if i == len(w) - 1 else revT(w)
		pre = Poly({((), w2[:-1]): 1}) if len(w2) > 1 else num(1)
		out = out.add(matmul(t, matmul(pre, q)))
	return out


def objscalar(p):
	"""a linear objective written as an elementwise product, as an inner product"""
	d = Poly()
	for (s, w), c in p.d.items():
		if w and isvecw(w):
			w = w if w[-1][0] == 'v' else revT(w)
			for i, l in enumerate(w[:-1]):
				if l[0] == 'dg' and l[2] == 1 and len(l[1]) == 1:
					(ls, lw), lc = l[1][0]
					if len(lw) == 1 and lw[0][0] == 'v' and not ls:
						d = d.add(inner(Poly({((), lw): lc}), Poly({(s, w[:i] + w[i + 1:]): c})))
						break
			else:
				d = d.add(Poly({(s, w): c}))
		else:
			d = d.add(Poly({(s, w): c}))
	return d


def drop_broadcast(p, alpha, matrix):
	"""c . alpha for a vector c broadcast over the rows of the vertex matrix is c * sum(alpha) = c"""
	out = Poly()
	for (s, w), c in p.d.items():
		s2, w2 = [], w
		for a, e in s:
			if a[0] == 'w' and e == 1 and any(l == ('v', alpha) for l in a[1]) and not any(l[0] == 'm' and l[1] == matrix for l in a[1]) and not w2:
				ww = a[1] if a[1][-1] == ('v', alpha) else revT(a[1])
				w2 = ww[:-1]
				continue
			s2.append((a, e))
		out = out.add(Poly({(tuple(s2), w2): c}))
	return out
