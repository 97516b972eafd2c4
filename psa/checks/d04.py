"""D04: combining domains keeps every constraint of both operands."""
from ..terms import *
from ..interp import Interp, AbsRaise, AbsDead, State
from ..alg import *
from ..doms import *
from ..loader import AnalysisBroken
from .d01 import skip_ok, cond_letters

LQ = KINDS[0][2]
KIND = {k[0]: (k[1], k[2]) for k in KINDS}
ROWS = [('ineq', ('A', 'b')), ('eq', ('A_eq', 'b_eq')), ('quad', ('Ls', 'ys', 'rhos'))]
EXTRA.update({'h.A': 'm', 'h.b': 'v', 'h.A_eq': 'm', 'h.b_eq': 'v', 'h.v': 'm'})


class PlaceNF(NF):
	"""writing a block into the columns of zeros embeds it: A_tmp[:, I] = A is A E_I"""
	slice_of = None

	def place(self, t):
		b, i, v = t.args[:3]
		if self.slice_of and name_of(b) == 'numpy.zeros':
			if i.op == 'tuple' and len(i.args) == 2 and full(i.args[0]) and i.args[1].op == 'slice':
				k = self.slice_of(i.args[1])
				if k is not None:
					return matmul(self.poly(v), mat('E%s' % k))
			if i.op == 'slice':
				k = self.slice_of(i)
				if k is not None:
					return matmul(transpose(mat('E%s' % k)), self.poly(v))
		return self.opaque(t)


class World:
	def __init__(self, P):
		self.P = P
		self.I = Interp(P)
		frozen(self.I)
		self.I.hooks['.is_linquad_domain'] = lambda I, st, a, k: TRUE

		def hull(I, st, a, k):
			self.hull_arg = a[0] if a else None
			return mk('tuple', param('h.A', 'array'), param('h.b', 'array'), param('h.A_eq', 'array'), param('h.b_eq', 'array'), param('h.v', 'array'))
		self.I.hooks['psdr.domains.convexhull._hull_to_linineq'] = hull
		self.st = None
		self.lf = DomLeaf()
		self.nf = PlaceNF(self.lf, self.I, limit=3000)
		self.lf.nf = self.nf
		self.parts = []
		self.nf.env = {}

	def make(self, label, pre):
		cls, names = KIND[label]
		m = make(self.P, label, cls, names, I=self.I, st=self.st, prefix=pre)
		self.st = m.st
		return m.obj

	def product(self, objs, tag):
		o, self.st = self.I.new(self.P.cls('psdr.TensorProductDomain'), (), {'domains': mk('list', *objs)}, self.st, tag=tag)
		return o

	def slices(self, objs):
		cum = [num(0)]
		nf = self.nf
		for o in objs:
			nf.env = {}
			cum.append(cum[-1].add(nf.poly(self.I.method(o, '__len__', [], {}, self.st))))

		def slice_of(sl):
			lo = num(0) if sl.args[0] is NONE else nf.poly(sl.args[0])
			hi = cum[-1] if sl.args[1] is NONE else nf.poly(sl.args[1])
			for k in range(len(objs)):
				if lo == cum[k] and hi == cum[k + 1]:
					return k
			if lo.opaque() or hi.opaque():
				return None
			return '<%r:%r>' % (lo, hi)
		nf.slice_of = slice_of

	def attr(self, o, n):
		return self.I.snap(self.I.getattr(o, n, self.st, None), self.st)

	def el(self, t):
		return self.I.snap(self.I.index(t, mk('idx', 'k'), self.st), self.st)

	def rows(self, o, names):
		"""alternatives of a family of rows: [(env, (poly, ...))]; empty lists give none"""
		ts = [self.attr(o, n) for n in names]
		if names[0] == 'Ls':
			if any(t.op == 'list' and not t.args for t in ts):
				return []
			ts = [self.el(t) for t in ts]
		elif any(is_empty(t) for t in ts):
			return []
		nf = self.nf
		return [(e, p) for e, p in nf.regions(lambda: tuple(canon(rename(nf.poly(t))) for t in ts))]

	def bound(self, o, n):
		t = self.attr(o, n)
		nf = self.nf
		return [(e, p) for e, p in nf.regions(lambda: nf.poly(t))]


def is_empty(t):
	"""statically zero rows"""
	n = name_of(t)
	if n in ('numpy.zeros', 'numpy.empty') and t.args[1]:
		s = t.args[1][0]
		return is_const(s, 0) or s.op in ('list', 'tuple') and s.args and is_const(s.args[0], 0)
	return n in IDENT and t.args[1] and is_empty(t.args[1][0])


def opq(ps):
	return any(p.opaque() for p in ps)


def maxparts(p, which):
	"""{bound letters} if p is a max/min of letters (nested) or a letter, else None"""
	if len(p.d) != 1:
		return None
	(s, w), c = next(iter(p.d.items()))
	if not w and len(s) == 1 and s[0] == (('s', 'inf'), 1) and c == (-1 if which == 'max' else 1):
		return set()
	if c != 1:
		return None
	if not s and len(w) == 1 and w[0][0] == 'v':
		return {w[0][1]}
	if not w and len(s) == 1 and s[0][1] == 1 and s[0][0][0] == 'fn2':
		kind = s[0][0][1]
		out = set()
		for k in s[0][0][2]:
			q = maxparts(Poly(dict(k)), which)
			if q is None:
				return None
			out |= q
		return out if kind == which else ('wrong', kind)
	return None


def fields(w, obj):
	"""what an operand declares: rows per family, bounds, vertices"""
	d = {}
	for fam, names in ROWS:
		d[fam] = {p for _, p in w.rows(obj, names)}
	for n in ('lb', 'ub'):
		d[n] = {p for _, p in w.bound(obj, n)}
	cls = w.I.objclass[obj.args[0]].name
	if cls == 'ConvexHullDomain':
		d['hull'] = {canon(w.nf.poly(w.attr(obj, 'X')))}
	return d


def merge_bounds(ops, n):
	"""letters that must all take part in bound n"""
	out = set()
	for o in ops:
		for p in o[n]:
			m = maxparts(p, 'max' if n == 'lb' else 'min')
			if m is not None:
				out |= m
	return out


def compare(ck, rule, con, where, w, result, ops, hulls=()):
	"""every alternative of the result keeps exactly the rows of the operands"""
	alts = [((), result)] if result.op != 'phi' else [(pc, o) for pc, o in result.args if not impossible(pc)]
	names_of_rows = {}
	for fam, names in ROWS:
		names_of_rows[fam] = set()
		for o in ops:
			names_of_rows[fam] |= {ps for ps in o[fam] if not all(p.zero for p in ps)}
	for fam, names in ROWS:
		want = names_of_rows[fam]
		verdict, det = True, '%d groups of rows' % len(want)
		for pc, o in alts:
			if o.op != 'ref':
				verdict, det = (None, show(o, 4)) if verdict else (verdict, det)
				continue
			try:
				got = w.rows(o, names)
			except TooMany:
				verdict, det = (None, 'too many regions') if verdict else (verdict, det)
				continue
			except (AbsRaise, AbsDead):
				verdict, det = (None, 'attribute raises') if verdict else (verdict, det)
				continue
			gs = {p for _, p in got if p is not None}
			cls = w.I.objclass[o.args[0]].name
			for ps in want - gs:
				if opq(ps):
					verdict = None if verdict else verdict
					det = 'operand not understood: %r' % (ps,)
					continue
				own = set()
				for p in ps:
					own |= {l for l in p.letters()}
				own = {l.split('[')[0] for l in own if not l.startswith('E')}
				if skip_ok(pc, own, w.nf) or empties(pc, own, w.nf):
					continue
				if any(opq(g) for g in gs):
					verdict = None if verdict else verdict
					det = 'result not understood: %s' % (sorted(map(repr, gs))[:2])
					continue
				verdict, det = False, '%s: the resulting %s lacks the %s rows (%s) of an operand; it has %s' % (where, cls, fam, ', '.join(map(repr, ps)), ['(%s)' % ', '.join(map(repr, g)) for g in sorted(gs, key=repr)][:3])
			for ps in gs - want:
				if opq(ps):
					verdict = None if verdict else verdict
					continue
				if all(p.zero for p in ps):
					continue
				if verdict is not False:
					verdict, det = False, '%s: the resulting %s has %s rows that belong to no operand: (%s)' % (where, cls, fam, ', '.join(map(repr, ps)))
		ck.verdict(rule, con + '.' + fam, verdict, det)
	for n, which in (('lb', 'max'), ('ub', 'min')):
		want = merge_bounds(ops, n)
		verdict, det = True, 'the %s of %s' % ('largest' if n == 'lb' else 'smallest', ', '.join(sorted(want)))
		for pc, o in alts:
			if o.op != 'ref':
				continue
			try:
				bs = w.bound(o, n)
			except (TooMany, AbsRaise, AbsDead):
				verdict = None if verdict else verdict
				continue
			parts = set()
			for e, p in bs:
				if p is None:
					continue
				m = maxparts(p, which)
				if m is None:
					if p.opaque():
						verdict, det = (None, repr(p)) if verdict else (verdict, det)
					elif want:
						verdict, det = False, '%s: the %s of the result is %r, not the %s of both' % (where, n, p, which)
				elif isinstance(m, tuple):
					verdict, det = False, '%s: the %s of the result is the %s of both, which relaxes it' % (where, n, m[1])
				elif not product_parts(e) and want - m:
					verdict, det = False, '%s: the %s of the result ignores %s' % (where, n, ', '.join(sorted(want - m)))
				elif m - want:
					verdict, det = False, '%s: the %s of the result uses %s' % (where, n, ', '.join(sorted(m - want)))
				else:
					parts |= m
			if verdict and want - parts:
				verdict, det = False, '%s: the %s of the result ignores %s' % (where, n, ', '.join(sorted(want - parts)))
		ck.verdict(rule, con + '.' + n, verdict, det)
	wantX = set()
	for o in hulls:
		wantX |= o.get('hull', set())
	if wantX:
		verdict, det = True, 'vertices kept'
		for pc, o in alts:
			if o.op != 'ref':
				verdict = None
				continue
			cls = w.I.objclass[o.args[0]].name
			if cls != 'ConvexHullDomain':
				verdict, det = False, '%s builds a %s without the hull' % (where, cls)
				continue
			x = canon(w.nf.poly(w.attr(o, 'X')))
			if x not in wantX:
				verdict, det = (None, repr(x)) if x.opaque() else (False, '%s: the vertices become %r' % (where, x))
		ck.verdict(rule, con + '.hull', verdict, det)


def impossible(pc):
	"""the path condition says that a list with literal entries is empty"""
	for item in pc:
		if isinstance(item, tuple) and len(item) == 2 and isinstance(item[0], T):
			c, pol = item
			if (c.op == 'gt' and not pol or c.op == 'le' and pol) and is_const(c.args[1], 0) and name_of(c.args[0]) == 'builtins.len' and literal(c.args[0].args[1][0]):
				return True
	return False


def literal(t):
	if t.op == 'lapp':
		return True
	if t.op == 'lext':
		return literal(t.args[0]) or literal(t.args[1])
	return t.op in ('list', 'tuple') and bool(t.args)


def product_parts(env):
	return any(isinstance(k, tuple) and k[0] == 'part' for k in env)


def empties(pc, own, nf):
	"""the path condition says a list or array built from these rows has no entries"""
	for item in pc:
		if not (isinstance(item, tuple) and len(item) == 2 and isinstance(item[0], T)):
			continue
		c, pol = item
		if zero_len(c, pol, own, nf):
			return True
	return False


def zero_len(c, pol, own, nf):
	while c.op == 'not':
		c, pol = c.args[0], not pol
	if c.op in ('or',) and not pol:
		return any(zero_len(x, False, own, nf) for x in c.args)
	if c.op in ('and',) and pol:
		return any(zero_len(x, True, own, nf) for x in c.args)
	if c.op in ('gt', 'ne', 'ge', 'eq', 'le', 'lt') and c.args[1].op == 'const':
		a, k = c.args[0], c.args[1].args[0]
		none = (c.op in ('gt', 'ne') and k == 0 or c.op == 'ge' and k == 1) and not pol or (c.op in ('eq', 'le') and k == 0 or c.op == 'lt' and k == 1) and pol
		if none and (name_of(a) == 'builtins.len' or a.op == 'index'):
			ls = {l.split('[')[0] for l in cond_letters(nf, a)}
			return bool(ls & own)
	if not pol and (name_of(c) == 'builtins.len' or c.op in ('lext', 'mu')):
		return bool({l.split('[')[0] for l in cond_letters(nf, c)} & own)
	return False


def addc(w, pre='c.', names=LQ):
	kw = {}
	for n in names:
		kw[n] = param(pre + n, ARG[n][0])
	return kw


def declared(pre, names=LQ):
	d = {'ineq': set(), 'eq': set(), 'quad': set(), 'lb': set(), 'ub': set()}
	if 'A' in names:
		d['ineq'] = {(mat(pre + 'A'), vec(pre + 'b'))}
	if 'A_eq' in names:
		d['eq'] = {(mat(pre + 'A_eq'), vec(pre + 'b_eq'))}
	if 'Ls' in names:
		d['quad'] = {(mat(pre + 'Ls[k]'), vec(pre + 'ys[k]'), sc(pre + 'rhos[k]'))}
	for n in ('lb', 'ub'):
		if n in names:
			d[n] = {vec(pre + n)}
	d['ineq'] = {tuple(canon(p) for p in t) for t in d['ineq']}
	d['eq'] = {tuple(canon(p) for p in t) for t in d['eq']}
	d['quad'] = {tuple(canon(p) for p in t) for t in d['quad']}
	return d


def run(ck, P, tier):
	ck.rule('intersection', 'the rows, bounds and vertices of A & B are those of A together with those of B, matrices matched with their right-hand sides', 60)
	ck.rule('add-constraints', 'adding constraints keeps every constraint already there and adds exactly the given ones', 30)
	ck.rule('product', 'a product lists its factors in order, flattening nested products, and reports each factor\'s rows on that factor\'s coordinates', 8)
	ck.rule('hull-to-inequalities', 'writing a hull as inequalities keeps the facets and the other constraints of the hull', 5)
	ck.rule('facets', 'the hull of points is written as the facets of the projected points together with the equalities fixing the remaining directions', 4)
	ck.rule('declared', 'a domain reports the data it was constructed with', 15)
	kinds = ['LinQuadDomain', 'LinIneqDomain', 'BoxDomain', 'ConvexHullDomain', 'Product']
	more = ['UniformDomain', 'PointDomain', 'NormalDomain.truncated']
	for label in kinds[:4] + ['UniformDomain', 'NormalDomain.truncated', 'LogNormalDomain']:
		ck.guard('declared', label, lambda: decl(ck, P, label))
	for a in kinds:
		for b in kinds + more:
			ck.guard('intersection', '%s&%s' % (a, b), lambda: inter(ck, P, a, b))
	for a in more:
		for b in kinds[:3]:
			ck.guard('intersection', '%s&%s' % (a, b), lambda: inter(ck, P, a, b))
	for a in kinds + more:
		ck.guard('add-constraints', a, lambda: add(ck, P, a))
		for given in (('lb',), ('ub',), ('A', 'b'), ('A_eq', 'b_eq'), ('Ls', 'ys', 'rhos')):
			ck.guard('add-constraints', a, lambda: add(ck, P, a, given))
	ck.guard('product', 'Product', lambda: prod(ck, P))
	ck.guard('hull-to-inequalities', 'hull', lambda: hull(ck, P))
	ck.guard('facets', 'hull', lambda: facets(ck, P))
	from . import shape
	shape.combos(ck, P)
	ck.assumptions = ['array shapes agree', 'scipy.spatial.ConvexHull gives outward facets n.x + offset <= 0 of the points it is given', 'membership is decided from the reported data: D01']
	selftests(ck)


def operand(w, label, pre):
	if label == 'Product':
		a, b = w.make('LinQuadDomain', pre + '0.'), w.make('BoxDomain', pre + '1.')
		o = w.product([a, b], 'prod' + pre)
		w.slices([a, b])
		return o
	return w.make(label, pre)


def decl(ck, P, label):
	w = World(P)
	cls, names = KIND[label]
	if label.startswith('Normal'):
		return
	o = w.make(label, 'p0.')
	if label.startswith('LogNormal'):
		return
	compare(ck, 'declared', label, cls, w, o, [declared('p0.', names)])


def hullrows(d):
	"""a hull on the right-hand side enters through its facets"""
	e = dict(d)
	e['ineq'] = d['ineq'] | {(canon(mat('h.A')), canon(vec('h.b')))}
	e['eq'] = d['eq'] | {(canon(mat('h.A_eq')), canon(vec('h.b_eq')))}
	return e


def inter(ck, P, a, b):
	w = World(P)
	x, y = operand(w, a, 'p0.'), operand(w, b, 'p1.')
	con = '%s&%s' % (a, b)
	try:
		if w.I.objclass[x.args[0]].lookup('__and__') is None:
			r = w.I.method(y, '__rand__', [x], {}, w.st)
		else:
			r = w.I.method(x, '__and__', [y], {}, w.st)
	except (AbsRaise, AbsDead) as e:
		ck.unknown('intersection', con, 'always raises %s' % getattr(e, 'exc', ''))
		return
	fa, fb = fields(w, x), fields(w, y)
	ha, hb = 'hull' in fa, 'hull' in fb
	hulls = [fa] if ha else [fb] if hb else []
	if ha and hb:
		fb = hullrows(fb)
	compare(ck, 'intersection', con, con, w, r, [fa, fb], hulls)


def add(ck, P, a, given=LQ):
	w = World(P)
	x = operand(w, a, 'p0.')
	con = '%s.add_constraints(%s)' % (a, 'all' if given is LQ else ','.join(given))
	try:
		r = w.I.method(x, 'add_constraints', [], addc(w, 'c.', given), w.st)
	except (AbsRaise, AbsDead) as e:
		ck.unknown('add-constraints', con, 'always raises %s' % getattr(e, 'exc', ''))
		return
	fa = fields(w, x)
	compare(ck, 'add-constraints', con, con, w, r, [fa, declared('c.', given)], [fa])


def prod(ck, P):
	for nm in ('A*B', '(A*B)*C', 'C*(A*B)'):
		w = World(P)
		a, b, c = w.make('LinQuadDomain', 'p0.'), w.make('BoxDomain', 'p1.'), w.make('LinIneqDomain', 'p2.')
		x, y, want = {'A*B': lambda: (a, b, [a, b]), '(A*B)*C': lambda: (w.product([a, b], 'ab'), c, [a, b, c]), 'C*(A*B)': lambda: (c, w.product([a, b], 'ab'), [c, a, b])}[nm]()
		r = w.I.method(x, '__mul__', [y], {}, w.st)
		if r.op != 'ref':
			ck.unknown('product', nm, show(r, 4))
			continue
		items = w.I.concrete_items(w.I.getattr(r, 'domains', w.st, None), w.st)
		if items is None:
			ck.unknown('product', nm, 'factors not recognised')
			continue
		ck.verdict('product', nm, list(items) == want, 'factors %s' % [show(i, 2) for i in items])
	w = World(P)
	a, b, c = w.make('LinQuadDomain', 'p0.'), w.make('LinIneqDomain', 'p1.'), w.make('LinQuadDomain', 'p2.')
	o = w.product([a, b, c], 'prod')
	w.slices([a, b, c])
	for fam, names in ROWS:
		want = set()
		for j, nm in ((0, LQ), (1, KIND['LinIneqDomain'][1]), (2, LQ)):
			if names[0] not in nm:
				continue
			d = declared('p%d.' % j, nm)[fam]
			E = mat('E%d' % j)
			for t in d:
				if fam == 'quad':
					want.add((canon(matmul(t[0], E)), canon(matmul(transpose(E), t[1])), t[2]))
				else:
					want.add((canon(matmul(t[0], E)), t[1]))
		try:
			got = {p for _, p in w.rows(o, names) if p is not None}
		except (TooMany, AbsRaise, AbsDead):
			ck.unknown('product', 'rows.' + fam, '')
			continue
		miss = want - got
		if not miss and not got - want:
			ck.ok('product', 'rows.' + fam, '%d factors' % len(want))
		elif any(opq(g) for g in got):
			ck.unknown('product', 'rows.' + fam, '%s' % sorted(map(repr, got - want))[:2])
		else:
			ck.bad('product', 'rows.' + fam, 'a product reports %s instead of %s' % (sorted(map(repr, got - want))[:2], sorted(map(repr, miss))[:2]))
	for n in ('lb', 'ub'):
		got = [p for e, p in w.bound(o, n)]
		want = [vec('p%d.%s' % (j, n)) for j in range(3)]
		order = {e.get(('part', 3)): p for e, p in w.bound(o, n)}
		if [order.get(j) for j in range(3)] == want:
			ck.ok('product', n, 'factor order')
		elif any(p is None or p.opaque() for p in got):
			ck.unknown('product', n, repr(got))
		else:
			ck.bad('product', n, 'the %s of a product is %r' % (n, got))


def hull(ck, P):
	w = World(P)
	x = w.make('ConvexHullDomain', 'p0.')
	try:
		r = w.I.method(x, 'to_linineq', [], {}, w.st)
	except (AbsRaise, AbsDead):
		ck.unknown('hull-to-inequalities', 'ConvexHullDomain', 'raises')
		return
	f = hullrows(fields(w, x))
	f.pop('hull', None)
	compare(ck, 'hull-to-inequalities', 'ConvexHullDomain', 'ConvexHullDomain.to_linineq', w, r, [f])
	p = w.nf.poly(w.hull_arg) if getattr(w, 'hull_arg', None) is not None else None
	if p is None or p.opaque():
		ck.unknown('hull-to-inequalities', 'points', repr(p))
	else:
		ck.verdict('hull-to-inequalities', 'points', canon(p) == canon(mat('p0.X')), 'facets of %r' % p)


FACETS = 'psdr.domains.convexhull._hull_to_linineq'


def overall(t, Y, nf):
	"""one mean over all points and all coordinates alike"""
	if name_of(t) != 'numpy.mean' or len(t.args) < 3 or not t.args[1]:
		return False
	kw = dict(t.args[2])
	ax = kw.get('axis', t.args[1][1] if len(t.args[1]) > 1 else NONE)
	return is_const(ax, None) and canon(nf.poly(t.args[1][0])) == Y


def facets(ck, P):
	"""inequalities n.y <= -offset of the hull of the projected points, equalities W'x = W'(any vertex)"""
	f = P.func(FACETS)
	I = Interp(P)
	st = State()
	X = param('X', 'array')
	r = I.snap(I.call_func(I.func_value(f, None), [X], {}, st, None), st)
	cols, hulls = {}, []

	def leaf(t):
		if t is X:
			return mat('X')
		if t.op == 'index' and t.args[1].op == 'tuple' and len(t.args[1].args) == 2 and full(t.args[1].args[0]):
			s = t.args[1].args[1]
			if t.args[0].op == 'field' and t.args[0].args[1] == 'equations':
				h = t.args[0].args[0]
				if h not in hulls:
					hulls.append(h)
				k = hulls.index(h)
				if s.op == 'slice' and s.args[0] is NONE and is_const(s.args[1], -1):
					return mat('N%d' % k)
				if is_const(s, -1):
					return vec('o%d' % k)
			b = t.args[0]
			if s.op == 'slice' and s.args[2] is NONE and b.op == 'index' and is_const(b.args[1], 0) and name_of(b.args[0]) in ('numpy.linalg.qr', 'scipy.linalg.qr'):
				cols[t] = (b, s.args[0], s.args[1])
				return mat('Q%d' % t.id)
		return None
	nf = NF(leaf, I)

	def proj(W):
		"""points in the coordinates W: rows X W, written as a product of transposes"""
		return canon(matmul(mat('X'), W))
	alts = [((), r)] if r.op != 'phi' else r.args
	for j, (pc, x) in enumerate(alts):
		con = 'alternative%d' % j
		if x.op != 'tuple' or len(x.args) < 4:
			ck.unknown('facets', con, show(x, 3))
			continue
		A, b, Ae, be = x.args[:4]
		nf.env = {}
		if A is NONE:
			e, p = nf.poly(Ae), nf.poly(be)
			if name_of(Ae) == 'numpy.eye':
				e = num(1)
			if e.opaque() or p.opaque():
				ck.unknown('facets', con, '%r, %r' % (e, p))
			else:
				ck.verdict('facets', con, e == num(1) and canon(p) in (mat('X'), canon(transpose(mat('X')))), 'a single point is written as %r x = %r' % (e, p))
			continue
		# equalities
		e, p = nf.poly(Ae), nf.poly(be)
		name = name_of(be)
		W = transpose(e)
		ok = None
		if not e.opaque() and not p.opaque():
			Y = proj(W)
			if name == 'numpy.mean':
				kw = dict(be.args[2])
				ax = kw.get('axis', be.args[1][1] if len(be.args[1]) > 1 else NONE)
				inner = canon(nf.poly(be.args[1][0]))
				ok = inner == Y and is_const(ax, 0)
			elif p.number is not None:
				ok = False
			elif be.op == 'index':
				ok = True if canon(nf.poly(be.args[0])) == Y and be.args[1].op == 'const' else None
			elif p.d and all(w for _, w in p.d):
				ok = True if canon(p) == Y else None
			if ok is None and any(overall(t, Y, nf) for t in subterms(be)):
				ok = False
		ck.verdict('facets', con + '.equalities', ok, 'rows %r with right-hand side %r' % (e, p))
		try:
			regs = nf.regions(lambda: (nf.poly(A), nf.poly(b)))
		except TooMany:
			ck.unknown('facets', con, 'regions')
			continue
		used = set()
		for k, (env, ps) in enumerate(regs):
			if ps is None:
				continue
			a, c = ps
			cc = '%s.inequalities%d' % (con, k)
			if a.opaque() or c.opaque() or len(a.d) != 1:
				ck.unknown('facets', cc, '%r, %r' % (a, c))
				continue
			(s, w), co = next(iter(a.d.items()))
			if w and w[0][0] == 'm' and w[0][1].startswith('N'):
				h = hulls[int(w[0][1][1:])]
				Wt = Poly({(s, w[1:]): 1})
				used |= set(Wt.letters())
				arg = canon(nf.poly(h.args[1][0])) if h.op == 'call' and name_of(h) == 'scipy.spatial.ConvexHull' else None
				if arg is None or arg.opaque():
					ck.unknown('facets', cc, show(h, 3))
					continue
				ok = co == 1 and c == vec('o' + w[0][1][1:]).scale(-1) and arg == proj(transpose(Wt))
				ck.verdict('facets', cc, ok, 'the hull of %r gives the facets %r x <= %r' % (arg, a, c))
			else:
				Wt = Poly({(s, w): 1})
				used |= set(Wt.letters())
				keys = canon(proj(transpose(Wt))).key()
				want = []
				if co == 1:
					want = [Poly({(((('fn', 'max', keys), 1),), ()): 1}), Poly({(((('fn', 'min', canon(proj(transpose(Wt)).scale(-1)).key()), 1),), ()): -1})]
				elif co == -1:
					want = [Poly({(((('fn', 'min', keys), 1),), ()): -1}), Poly({(((('fn', 'max', canon(proj(transpose(Wt)).scale(-1)).key()), 1),), ()): 1})]
				ck.verdict('facets', cc, c in want, 'an interval is written as %r x <= %r' % (a, c))
		# the equalities fix exactly the directions the inequalities leave out
		par = [(t, v) for t, v in cols.items() if 'Q%d' % t.id in used]
		perp = [(t, v) for t, v in cols.items() if 'Q%d' % t.id in e.letters()]
		ok = None
		if len(par) == 1 and len(perp) == 1 and par[0][1][0] is perp[0][1][0]:
			(q, lo, hi), (_, lo2, hi2) = par[0][1], perp[0][1]
			mode = dict(q.args[0].args[2]).get('mode') or (q.args[0].args[1][1] if len(q.args[0].args[1]) > 1 else None)
			if lo is NONE or is_const(lo, 0):
				ok = hi is lo2 and hi2 is NONE
		ck.verdict('facets', con + '.complement', ok, 'columns %s and %s of one basis' % tuple(show(x[0][0], 1) if x else '-' for x in (par, perp)))


def selftests(ck):
	l, u = vec('p0.lb'), vec('p1.lb')
	nf = NF(lambda t: {'a': l, 'b': u}.get(t.args[0]) if t.op == 'param' else None)
	t = mk('call', ext('numpy.maximum'), (param('a'), param('b')), ())
	s = mk('call', ext('numpy.minimum'), (param('a'), param('b')), ())
	ck.selftest('maximum of both', maxparts(nf.poly(t), 'max') == {'p0.lb', 'p1.lb'})
	ck.selftest('minimum flagged', maxparts(nf.poly(s), 'max') == ('wrong', 'min'))
