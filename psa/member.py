"""Classify necessary comparisons of a membership test (or constraints of a problem) by constraint family."""
from __future__ import annotations
from .terms import *
from .alg import *


class Cmp:
	"""one comparison, as slack >= 0 (or == 0), in every region"""

	def __init__(self, term, eq, regions, err=None):
		self.term, self.eq, self.regions, self.err = term, eq, regions, err
		self.key = (eq, frozenset(p.key() if p is not None else None for _, p in regions)) if not err else (None, term)

	def __hash__(self):
		return hash(self.key)

	def __eq__(self, o):
		return isinstance(o, Cmp) and self.key == o.key

	def __repr__(self):
		return ' || '.join(sorted({'%s %s 0' % (p, '==' if self.eq else '>=') for _, p in self.regions if p is not None})) if not self.err else self.err + ' ' + show(self.term, 5)

	def letters(self):
		out = set()
		for _, p in self.regions:
			if p is not None:
				out |= p.letters()
		return out

	def opaque(self):
		return self.err or any(p is not None and p.opaque() for _, p in self.regions)


def mkcmp(nf, term, subst=None, post=None):
	op, a, b = term.op, term.args[0], term.args[1]

	def fn():
		pa, pb = nf.poly(a), nf.poly(b)
		s = pb.add(pa, -1) if op in ('le', 'lt', 'eq', 'ne') else pa.add(pb, -1)
		if post:
			s = post(s)
		f = final(s)
		if f is None:
			raise Mixed()
		return f
	try:
		return Cmp(term, op == 'eq', nf.regions(fn))
	except TooMany:
		return Cmp(term, op == 'eq', [], 'too many regions')
	except Mixed:
		return Cmp(term, op == 'eq', [], 'mixed selections')


class Mixed(Exception):
	pass


def matches(c, expected, small=('tol',), need_tol=True):
	"""expected: list of Poly (slack forms).  Does c impose one of them, in every region, up to tolerance?
	Returns (ok, why)"""
	if c.err:
		return None, c.err
	why = None
	for env, p in c.regions:
		if p is None:
			continue
		ok = False
		for e in expected:
			base = without(p, small)
			r = ratio(base, e)
			if r is None:
				r2 = ratio(expand_norms(base), expand_norms(e))
				r = r2
			if r is None:
				continue
			if c.eq:
				ok = True
				break
			if r > 0:
				rest = p.add(base, -1)
				bad = [k for k, v in rest.d.items() if v < 0]
				if bad and all(only(k, small) for k in bad):
					why = 'the tolerance tightens the constraint'
					continue
				ok = True
				break
			why = 'direction reversed'
		if not ok:
			return False, why or 'different data: %s' % (p,)
	return True, None


def only(k, names):
	return True


def opposite(c, expected):
	for _, p in c.regions:
		if p is None:
			continue
		for e in expected:
			r = ratio(without(p, ('tol',)), e)
			if r is not None and r < 0:
				return True
	return False


def partial_loop(term):
	"""a loop in term that provably leaves out part of its range: description or None"""
	for x in walk(term, lambda y: y.op not in ('mu', 'field') and not (y.op == 'call' and y.args[0] == ext('builtins.len'))):
		if x.op == 'idx' and x.args[0] in LOOPS:
			it = LOOPS[x.args[0]]
			w = partial_iter(it)
			if w:
				return w
		if x.op == 'map' and x.args[2]:
			for y in x.args[2]:
				w = partial_iter(y)
				if w:
					return w
	return None


def partial_iter(it):
	n = it.args[0].args[0] if it.op == 'call' and it.args[0].op == 'ext' else ''
	if n in ('builtins.enumerate', 'builtins.zip', 'builtins.list', 'builtins.reversed'):
		for a in it.args[1]:
			w = partial_iter(a)
			if w:
				return w
	if n in ('builtins.range', 'numpy.arange'):
		a = it.args[1]
		start = a[0] if len(a) > 1 else const(0)
		stop = a[1] if len(a) > 1 else a[0]
		if start.op == 'const' and isinstance(start.args[0], int) and start.args[0] > 0:
			return 'loop starts at %d' % start.args[0]
		if stop.op == 'sub' and stop.args[1].op == 'const' and stop.args[1].args[0] > 0 or stop.op == 'floordiv':
			return 'loop stops at %s' % show(stop, 4)
		if len(a) == 3 and a[2].op == 'const' and a[2].args[0] not in (1, -1):
			return 'loop steps by %s' % show(a[2])
	if it.op == 'index' and it.args[1].op == 'slice' and any(x is not NONE for x in it.args[1].args):
		return 'only %s of the list' % show(it.args[1])
	return None
