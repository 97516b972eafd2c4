"""Which comparisons must be true whenever a boolean value is true (necessary conditions)."""
from __future__ import annotations
from .terms import *
from .interp import subst_idx
from .alg import NEG, IDENT, is_mask

CMP = {'lt', 'le', 'gt', 'ge', 'eq', 'ne'}


class Atoms:
	"""necessary comparisons: {comparison term: [path conditions under which it is skipped]}"""

	def __init__(self, d=None, opaque=(), false=False):
		self.d = d or {}
		self.opaque = set(opaque)
		self.false = false      # the value is constantly False: everything holds vacuously


def conj(a, b):
	if a.false or b.false:
		return Atoms(false=True)
	d = {k: list(v) for k, v in a.d.items()}
	for k, v in b.d.items():
		if k in d:
			# imposed by either: keep the better one
			if not v or not d[k]:
				d[k] = []
		else:
			d[k] = list(v)
	return Atoms(d, a.opaque | b.opaque)


def disj(alts):
	"""alts: [(pc, Atoms)]"""
	live = [(pc, a) for pc, a in alts if not a.false]
	if not live:
		return Atoms(false=True)
	keys = {}
	for pc, a in live:
		for k in a.d:
			keys[k] = True
	d = {}
	for k in keys:
		sk = []
		for pc, a in live:
			if k in a.d:
				sk.extend(a.d[k])
			else:
				sk.append(pc)
		d[k] = sk
	return Atoms(d, set().union(*[a.opaque for _, a in live]))


class Nec:
	def __init__(self, canon=lambda c: c):
		self.canon = canon     # comparison term -> hashable key
		self.mus = {}
		self.stack = []
		self.memo = {}

	def atom(self, op, a, b):
		return Atoms({self.canon(mk(op, a, b)): []})

	def pos(self, t):
		return self.go(t, True)

	def neg(self, t):
		return self.go(t, False)

	def go(self, t, pol):
		k = (t, pol)
		if k in self.memo and not self.stack:
			return self.memo[k]
		r = self._go(t, pol)
		if not self.stack:
			self.memo[k] = r
		return r

	def _go(self, t, pol):
		op = t.op
		if op == 'const':
			v = bool(t.args[0]) == pol
			return Atoms(false=not v)
		if op == 'not':
			return self.go(t.args[0], not pol)
		if op in ('and', 'or', 'allof', 'mul') and op != 'mul' or op == 'mul' and is_mask(t.args[0]) and is_mask(t.args[1]):
			parts = [self.go(a, pol) for a in t.args]
			if (op == 'or') != pol:
				r = Atoms()
				for p in parts:
					r = conj(r, p)
				return r
			return disj([((('alt', i),), p) for i, p in enumerate(parts)])
		if op in CMP:
			a, b = t.args
			# sum(cond) == len etc.
			if not pol:
				op = NEG[op]
			c = self.count(op, a, b)
			if c is not None:
				return c
			return self.atom(op, a, b)
		if op == 'phi':
			alts = []
			for pc, v in t.args:
				r = self.go(v, pol)
				# a path taken only when the value itself is all False
				if pol and any(self.allfalse(c, p, v) for c, p in pc):
					r = Atoms(false=True)
				alts.append((tuple(pc), r))
			return disj(alts)
		if op == 'mu':
			return self.mu(t, pol)
		if op == 'update':
			base, idx, val = t.args[:3]
			if idx.op == 'idx' or idx.op == 'tuple' and any(x.op == 'idx' for x in idx.args):
				# element-wise filling: elements written obey val, others base
				rb = self.go(base, pol)
				rv = self.go(val, pol)
				if base.op == 'mu' and self.is_self(base):
					return Atoms({}, rv.opaque) if rv.false else self.fill(base, rv)
				return disj([((('elem', idx),), rb), ((('notelem', idx),), rv)])
			if is_mask(idx):
				rb = self.go(base, pol)
				rv = self.go(val, pol)
				if rv.false:
					return conj(rb, self.go(idx, False))
				rv = conj(rv, self.go(idx, True))
				rb2 = conj(rb, self.go(idx, False))
				return disj([(((idx, True),), rv), (((idx, False),), rb2)])
			return Atoms({}, [t])
		if op == 'map':
			return self.go(t.args[0], pol)
		if op == 'index':
			b, i = t.args
			if i.op == 'idx' or i.op == 'slice' or is_mask(i):
				return self.go(b, pol)
			return Atoms({}, [t])
		if op in ('list', 'tuple') and t.args:
			return disj([((('elem', i),), self.go(a, pol)) for i, a in enumerate(t.args)]) if len(t.args) > 1 else self.go(t.args[0], pol)
		if op == 'call' and t.args[0].op == 'ext':
			n = t.args[0].args[0]
			a = t.args[1]
			short = n.split('.')[-1]
			if n in IDENT or n == 'builtins.bool' or short in ('bool', 'bool_', 'asarray'):
				return self.go(a[0], pol)
			if short in ('all', 'prod') and a:
				return self.seq(a[0], pol, True)
			if short == 'any' and a:
				return self.seq(a[0], pol, False)
			if n == 'numpy.logical_and' or n == 'numpy.logical_or':
				return self.go(mk('and' if n.endswith('and') else 'or', a[0], a[1]), pol)
			if n in ('numpy.logical_not', 'numpy.invert'):
				return self.go(a[0], not pol)
			if n in ('numpy.logical_and.reduce', 'numpy.all'):
				return self.seq(a[0], pol, True)
			if n in ('numpy.logical_or.reduce',):
				return self.seq(a[0], pol, False)
			if short in ('ones', 'full') and n.startswith('numpy'):
				if short == 'full':
					return self.go(a[1], pol)
				return Atoms(false=not pol)
			if short == 'zeros' and n.startswith('numpy'):
				return Atoms(false=pol)
			if short == 'isclose' or short == 'allclose':
				if pol:
					return self.atom('eq', a[0], a[1])
				return Atoms({}, [])
			if short == 'where' and len(a) == 3:
				return disj([(((a[0], True),), conj(self.go(a[1], pol), self.go(a[0], True))), (((a[0], False),), conj(self.go(a[2], pol), self.go(a[0], False)))])
		if op == 'call' and t.args[0].op in ('field', 'meth') and t.args[0].args[1] in ('all', 'any', 'astype', 'flatten', 'copy'):
			m = t.args[0].args[1]
			if m in ('all', 'any'):
				return self.seq(t.args[0].args[0], pol, m == 'all')
			return self.go(t.args[0].args[0], pol)
		return Atoms({}, [t])

	def seq(self, t, pol, is_all):
		if t.op in ('list', 'tuple') and t.args:
			parts = [self.go(a, pol) for a in t.args]
			if is_all == pol:
				r = Atoms()
				for p in parts:
					r = conj(r, p)
				return r
			return disj([((('alt', i),), p) for i, p in enumerate(parts)])
		if is_all == pol:
			return self.go(t, pol)
		# some element only: nothing is necessary of every element
		r = self.go(t, pol)
		return Atoms({}, r.opaque)

	def count(self, op, a, b):
		return None

	def allfalse(self, c, p, v):
		"""does condition (c == p) say that no element of v is true?"""
		if c.op == 'not':
			return self.allfalse(c.args[0], not p, v)
		if c.op == 'call' and c.args[0].op == 'ext' and c.args[0].args[0] in ('numpy.any', 'builtins.any') and not p:
			return c.args[1][0] is v
		if c.op == 'eq' and p and is_const(c.args[1], 0) or c.op == 'ne' and not p and is_const(c.args[1], 0):
			x = c.args[0]
			return x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('numpy.sum', 'numpy.count_nonzero') and x.args[1] and x.args[1][0] is v
		return False

	def is_self(self, mu):
		return any(m is mu for m, _ in self.stack)

	def fill(self, mu, rv):
		return Atoms(dict(rv.d), rv.opaque)

	def mu(self, t, pol):
		for m, p in self.stack:
			if m is t:
				return Atoms({('self', t): []})
		if (t, pol) in self.mus:
			return self.mus[(t, pol)]
		d = MU.get(t)
		if not d or d['init'] is None or d['back'] is None:
			return Atoms({}, [t])
		back = d['back']
		filled = False
		x = back
		while x.op == 'phi' and len(x.args) == 1:
			x = x.args[0][1]
		if x.op == 'update' and x.args[0] is t and (x.args[1].op == 'idx'):
			# array filled element by element over a full loop
			v = x.args[2]
			base = d['init']
			r = self.go(v, pol)
			self.mus[(t, pol)] = r
			return r
		init = self.go(d['init'], pol)
		self.stack.append((t, pol))
		try:
			b = self.go(back, pol)
		finally:
			self.stack.pop()
		if b.false:
			return Atoms(false=True) if init.false else Atoms({k: v for k, v in init.d.items() if False})
		keep = ('self', t) in b.d and not b.d[('self', t)]
		nb = {k: v for k, v in b.d.items() if k != ('self', t)}
		op = set(b.opaque) | set(init.opaque)
		if keep:
			r = dict(nb)
			for k, v in init.d.items():
				r[k] = [] if (k in r and not r[k]) else v
			res = Atoms(r, op)
			if init.false:
				res = Atoms(false=True)
		else:
			# only the last pass is known to be necessary
			res = Atoms({k: v + [(('only-last', t),)] for k, v in nb.items()}, op)
		self.mus[(t, pol)] = res
		return res


def constraint_list(n, t):
	"""necessary comparisons imposed by a list of constraints (a built value term)"""
	op = t.op
	if op in ('list', 'tuple'):
		r = Atoms()
		for a in t.args:
			r = conj(r, constraint_list(n, a) if a.op in ('list', 'tuple') else n.pos(a) if a.op != 'phi' else disj([(tuple(pc), constraint_list(n, v)) for pc, v in a.args]))
		return r
	if op == 'lapp':
		return conj(constraint_list(n, t.args[0]), n.pos(t.args[1]))
	if op == 'lext':
		return conj(constraint_list(n, t.args[0]), constraint_list(n, t.args[1]))
	if op == 'phi':
		return disj([(tuple(pc), constraint_list(n, v)) for pc, v in t.args])
	if op in ('map', 'flat'):
		b = t.args[0]
		if op == 'map':
			r = n.pos(b) if b.op not in ('list', 'tuple', 'lapp', 'lext') else constraint_list(n, b)
			if t.args[3]:
				r = Atoms({k: v + [tuple((c, False) for c in t.args[3])] for k, v in r.d.items()}, r.opaque)
			return r
		return constraint_list(n, b)
	if op == 'mu':
		for m, p in n.stack:
			if m is t:
				return Atoms({('self', t): []})
		d = MU.get(t)
		if not d or d['init'] is None or d['back'] is None:
			return Atoms({}, [t])
		init = constraint_list(n, d['init'])
		n.stack.append((t, True))
		try:
			b = constraint_list(n, d['back'])
		finally:
			n.stack.pop()
		keep = ('self', t) in b.d and not b.d[('self', t)]
		nb = {k: v for k, v in b.d.items() if k != ('self', t)}
		op_ = set(b.opaque) | set(init.opaque)
		if not keep:
			return Atoms({k: v + [(('only-last', t),)] for k, v in nb.items()}, op_)
		r = dict(nb)
		for k, v in init.d.items():
			r[k] = [] if k in r and not r[k] else v
		return Atoms(r, op_)
	if op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('builtins.list', 'builtins.tuple'):
		return constraint_list(n, t.args[1][0])
	if op in CMP or op in ('and',):
		return n.pos(t)
	return Atoms({}, [t])
