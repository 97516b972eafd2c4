"""D01: the membership test honours every declared constraint, in the right direction."""
from ..terms import *
from ..interp import Interp, AbsRaise, AbsDead
from ..alg import *
from ..nec import Nec, Atoms
from ..member import *
from ..doms import *

WHAT = {'lb': 'lower bound', 'ub': 'upper bound', 'ineq': 'linear inequality', 'eq': 'linear equality', 'quad': 'quadratic constraint', 'hull': 'convex hull',
	'chi': 'truncation ellipsoid', 'point': 'the point itself'}


def families(label, args, x='XX', pre=''):
	"""{family: (list of equivalent slack forms >= 0, two-sided?, letters of its own data)}"""
	X = vec(x)
	f = {}
	P = lambda n: pre + n
	if 'lb' in args:
		f['lb'] = ([X.add(vec(P('lb')), -1)], False, {P('lb')})
	if 'ub' in args:
		f['ub'] = ([vec(P('ub')).add(X, -1)], False, {P('ub')})
	if 'A' in args:
		f['ineq'] = ([canon(vec(P('b')).add(matmul(mat(P('A')), X), -1))], False, {P('A'), P('b')})
	if 'A_eq' in args:
		f['eq'] = ([canon(matmul(mat(P('A_eq')), X).add(vec(P('b_eq')), -1))], True, {P('A_eq'), P('b_eq')})
	if 'Ls' in args:
		L, y, r = mat(P('Ls[k]')), vec(P('ys[k]')), sc(P('rhos[k]'))
		f['quad'] = (ball(L, X, y, r), False, {P('Ls'), P('ys'), P('rhos')})
	if label.startswith('ConvexHull'):
		res = canon(X.add(matmul(transpose(mat(P('X'))), vec('alpha')), -1))
		nf = NF(lambda t: None)
		f['hull'] = ([nf.norm(res).scale(-1)], False, {P('X')})
	if label.startswith('NormalDomain') and 'truncate' in args:
		L, y = mat('ichol(%s)' % P('cov')), vec(P('mean'))
		f['chi'] = (ball(L, X, y, Poly({(((('s', 'clip(%s)' % P('truncate')), Fraction(1, 2)),), ()): 1})), False, {P('mean'), P('cov'), P('truncate')})
	if label.startswith('PointDomain'):
		f['point'] = ([vec(P('x')).add(X, -1)], True, {P('x')})
	return f


def ball(L, X, y, r):
	nf = NF(lambda t: None)
	P = matmul(L, X).add(matmul(L, y), -1)
	return [r.add(nf.norm(P), -1), matmul(r, r).add(nf.norm(P, 2), -1)]


def two_sided(forms):
	"""slack forms accepted for |P| <= tol"""
	nf = NF(lambda t: None)
	out = []
	for p in forms:
		c, q = factor(canon(p))
		out.append(Poly({(((('abs', q.key()), 1),), ()): -abs(c)}))
		out.append(nf.norm(q).scale(-1))
		out.append(Poly({(((('fn', 'max', out[-2].scale(-1).key()), 1),), ()): -1}))
	return out


def base_letters(ls):
	return {l.split('[')[0] for l in ls}


def cond_letters(nf, c):
	"""the data a condition is about; sizes only count when the condition itself compares a size"""
	out, seen = set(), set()

	def go(x, top):
		if isinstance(x, tuple):
			for y in x:
				go(y, top)
			return
		if not isinstance(x, T) or (x, top) in seen:
			return
		seen.add((x, top))
		if x.op in ('param', 'frozen'):
			out.add(x.args[0])
		elif x.op == 'finite':
			out.update(x.args[0].args[0].split(','))
		elif x.op == 'mu':
			d = MU.get(x)
			if d:
				go(tuple(v for v in (d['init'], d['back']) if v is not None), False)
			return
		elif x.op == 'phi':
			for pc, v in x.args:
				go(v, top)
				for item in pc:
					if isinstance(item, tuple) and len(item) == 2:
						go(item[0], False)
			return
		if x.op == 'call' and x.args[0].op == 'ext':
			n = x.args[0].args[0]
			if n in SIZED:
				go(x.args[1][1:], False)
				return
			if n == 'builtins.len' and not top:
				return
			if n == 'numpy.reshape':
				go(x.args[1][:1], False)
				return
			go(x.args, top and n in THRU or n == 'builtins.len')
			return
		if x.op == 'field' and x.args[1] in ('shape', 'size', 'ndim') and not top:
			return
		go(x.args, top and x.op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'not', 'and', 'or', 'allof', 'index', 'is', 'isnot'))
	go(c, True)
	return out


THRU = ('builtins.bool', 'builtins.any', 'builtins.all', 'builtins.sum', 'numpy.any', 'numpy.all', 'numpy.sum', 'numpy.count_nonzero', 'numpy.isfinite')
SIZED = ('numpy.ones', 'numpy.zeros', 'numpy.eye', 'numpy.empty', 'numpy.identity', 'numpy.full')


def inapplicable(c, pol, own, nf):
	"""the condition (c == pol) says the family has nothing to impose here (no finite bound, no rows, no points)"""
	if c.op == 'not':
		return inapplicable(c.args[0], not pol, own, nf)
	if c.op == 'call' and name_of(c) in ('builtins.bool', 'numpy.any', 'numpy.sum', 'numpy.count_nonzero', 'builtins.any', 'builtins.sum', 'builtins.len', 'numpy.all') and c.args[1]:
		n = name_of(c)
		if n == 'builtins.len':
			return not pol and bool(cond_letters(nf, c)) and own_cond(cond_letters(nf, c), own)
		if n == 'numpy.all':
			if not pol:
				x = c.args[1][0]
				return False
			x = c.args[1][0]
			return inapplicable(x, True, own, nf)
		return inapplicable(c.args[1][0], pol, own, nf)
	ls = cond_letters(nf, c)
	if c.op == 'finite':
		return not pol and own_cond(ls, own)
	if c.op == 'call' and name_of(c) in ('numpy.isfinite', 'numpy.isinf', 'math.isinf', 'math.isfinite'):
		return own_cond(ls, own) and pol == ('isinf' in name_of(c)) or not ls
	if c.op == 'index' and c.args[0].op == 'field' and c.args[0].args[1] == 'shape':
		return not pol and own_cond(ls, own)
	if c.op in ('eq', 'ne', 'gt', 'lt', 'ge', 'le', 'is', 'isnot'):
		a, b = c.args
		if a.op == 'const' and b.op != 'const':
			a, b = b, a
			op = {'gt': 'lt', 'lt': 'gt', 'ge': 'le', 'le': 'ge'}.get(c.op, c.op)
		else:
			op = c.op
		if not own_cond(ls - {'XX'}, own) and not ls == {'XX'}:
			return False
		if 'XX' in ls and not (a.op == 'index' and is_const(a.args[1], 0) or name_of(a) == 'builtins.len'):
			return False
		if b.op == 'const' and isinstance(b.args[0], int) and not isinstance(b.args[0], bool):
			k = b.args[0]
			sizey = name_of(a) in ('builtins.len', 'numpy.sum', 'numpy.count_nonzero', 'builtins.sum') or a.op == 'index' or a.op == 'field'
			if not sizey or not ls:
				return False
			empty = {('eq', 0): True, ('ne', 0): False, ('gt', 0): False, ('le', 0): True, ('lt', 1): True, ('ge', 1): False}.get((op, k))
			return empty is not None and empty == pol
		if b is NONE:
			return (op == 'is') == pol
	return False


def sizes_left(pc, own, nf):
	"""sizes 0..4 of the family's own data consistent with the path condition"""
	facts = {}
	for item in pc:
		if not (isinstance(item, tuple) and len(item) == 2 and isinstance(item[0], T)):
			continue
		c, pol = item
		while c.op == 'not':
			c, pol = c.args[0], not pol
		if c.op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and c.args[1].op == 'const' and isinstance(c.args[1].args[0], int):
			a, k = c.args[0], c.args[1].args[0]
			if name_of(a) == 'builtins.len' or a.op == 'index' and a.args[0].op == 'field':
				if own_cond(cond_letters(nf, a), own):
					f = {'eq': lambda n: n == k, 'ne': lambda n: n != k, 'lt': lambda n: n < k, 'le': lambda n: n <= k, 'gt': lambda n: n > k, 'ge': lambda n: n >= k}[c.op]
					facts.setdefault(a, []).append((f, pol))
	for a, fs in facts.items():
		if all(n == 0 for n in range(5) if all(f(n) == bool(p) for f, p in fs)):
			return True
	return False


NEUTRAL = {'nlb', 'nub', 'X', 'dimension'}


def own_cond(ls, own):
	return bool(ls & own) and all(l in own or l.split('.')[-1] in NEUTRAL for l in ls)


def skip_ok(pc, own, nf):
	if sizes_left(pc, own, nf):
		return True
	for item in pc:
		if isinstance(item, tuple) and len(item) == 2 and isinstance(item[0], T):
			if inapplicable(item[0], item[1], own, nf):
				return True
	return False


def skip_known(pc):
	for item in pc:
		if not (isinstance(item, tuple) and len(item) == 2 and isinstance(item[0], T)):
			return False
	return True


def check_families(ck, rule, label, where, atoms, fams, nf, hullcheck=None, small=('tol',)):
	"""each family must be among the necessary comparisons"""
	if atoms.false:
		ck.bad(rule, label, '%s: the test can never accept a point' % where)
		return
	opq = set()
	for o in atoms.opaque:
		for x in walk(o):
			if x.op == 'param':
				opq.add(x.args[0])
	used = set()
	for fam, (forms, two, own) in fams.items():
		c = '%s.%s' % (label, fam)
		acc = two_sided(forms) if two else forms
		hit, skips, close, und = None, None, [], []
		for a, sk in atoms.d.items():
			if not isinstance(a, Cmp):
				continue
			ls = base_letters(a.letters())
			if a.err:
				tl = cond_letters(nf, a.term)
				if tl & own:
					und.append(a)
				continue
			if not ls & own:
				continue
			ok, why = matches(a, acc, small)
			if not ok and two:
				ok2, _ = matches(a, forms, small) if a.eq else (False, None)
				if ok2:
					ok = True
			if ok:
				used.add(a)
				bad = [s for s in sk if not skip_ok(s, own, nf)]
				vac = [e for e, p in a.regions if p is None and not skip_ok(tuple(e.items()), own, nf)]
				if hit is None or len(bad) + len(vac) < len(skips):
					hit, skips = a, bad + vac
			elif ok is None or a.opaque():
				und.append(a)
			else:
				close.append((a, why))
		if two and hit is None:
			# two one-sided comparisons
			P = forms[0]
			pos = [a for a in atoms.d if isinstance(a, Cmp) and not a.err and not a.eq and matches(a, [P], small)[0] and not [s for s in atoms.d[a] if not skip_ok(s, own, nf)]]
			neg = [a for a in atoms.d if isinstance(a, Cmp) and not a.err and not a.eq and matches(a, [P.scale(-1)], small)[0] and not [s for s in atoms.d[a] if not skip_ok(s, own, nf)]]
			if pos and neg:
				hit, skips = pos[0], []
		pl = partial_loop(hit.term) if hit is not None else None
		if pl:
			ck.bad(rule, c, '%s: the %s is not tested for all components: %s' % (where, WHAT.get(fam, fam), pl))
		elif hit is not None and not skips:
			ck.ok(rule, c, '%s requires %r' % (where, hit))
		elif hit is not None:
			# the same comparison may be imposed by different terms on complementary paths
			others = [s for s in skips]
			known = all(skip_known(s) for s in others if isinstance(s, tuple))
			det = '; '.join(show_pc(s) for s in others[:3])
			if known:
				ck.bad(rule, c, '%s imposes the %s only on some paths: not when %s' % (where, WHAT.get(fam, fam), det))
			else:
				ck.bad(rule, c, '%s imposes the %s only for some elements: %s' % (where, WHAT.get(fam, fam), det))
		elif close and not und:
			ck.bad(rule, c, '%s: the %s is tested wrongly: %r (%s)' % (where, WHAT.get(fam, fam), close[0][0], close[0][1]))
		elif und or opq & own:
			ck.unknown(rule, c, '%s: could not interpret %s' % (where, (und or list(atoms.opaque))[:2]))
		else:
			ck.bad(rule, c, '%s: the %s (%s) is never required' % (where, WHAT.get(fam, fam), ', '.join(sorted(own))))
	return used


def show_pc(s):
	if isinstance(s, tuple):
		return ' and '.join(('' if (len(i) > 1 and i[1] is True) else 'not ') + (show(i[0], 4) if isinstance(i[0], T) else str(i[0])) for i in s if isinstance(i, tuple))
	return show(s, 4) if isinstance(s, T) else str(s)


def analyse(nf, r):
	n = Nec(lambda t: mkcmp(nf, t))
	return n.pos(r)


def merge_dups(atoms):
	return atoms


def run(ck, P, tier):
	ck.rule('accept-implies-constraint', 'every path on which isinside accepts has established, for each constraint family the domain kind was declared with, the comparison "slack >= -tolerance" in normal form over the declared data', 25)
	ck.rule('tolerance-direction', 'a larger tolerance only enlarges every comparison of the membership test', 8)
	ck.rule('hull-weights', 'hull membership uses nonnegative weights that sum to one', 1)
	ck.rule('product-slices', 'a product tests each factor on its own slice of the coordinates', 3)
	n_atoms = 0
	for label, cls, names in KINDS:
		d = make(P, label, cls, names)
		lf = DomLeaf()
		nf = NF(lf, d.I, var={'XX'})
		lf.nf = nf
		nf.batch = {'XX'}
		try:
			r = d.I.method(d.obj, 'isinside', [param('XX', 'array')], {'tol': param('tol', 'scalar')}, d.st)
		except (AbsRaise, AbsDead) as e:
			ck.unknown('accept-implies-constraint', cls + '.isinside', 'no path of isinside returns: %s' % type(e).__name__)
			continue
		a = analyse(nf, r)
		n_atoms += len(a.d)
		fams = families(label, names)
		check_families(ck, 'accept-implies-constraint', label, cls + '.isinside', a, fams, nf)
		if 'hull' in fams:
			hull_weights(ck, label, lf, nf)
		tol_dir(ck, label, a)
	products(ck, P)
	ck.stats['comparisons'] = n_atoms
	ck.stats['domain_kinds'] = len(KINDS)
	from . import shape
	shape.membership(ck, P)
	ck.assumptions = ['array shapes agree (a shape error raises instead of returning)', 'norm_lb/norm_ub are frozen symbols here; D05 relates them to the data']
	selftests(ck)


def tol_dir(ck, label, a):
	for c in a.d:
		if not isinstance(c, Cmp) or c.err:
			continue
		for _, p in c.regions:
			if p is None or 'tol' not in p.letters():
				continue
			lin = [(k, v) for k, v in p.d.items() if any(s == ('s', 'tol') for s, e in k[0])]
			bad = [k for k, v in lin if v < 0]
			if bad:
				ck.bad('tolerance-direction', label + '.' + '+'.join(sorted(base_letters(c.letters()) - {'tol', 'XX'})), 'a larger tolerance rejects more: %r' % c)
			else:
				ck.ok('tolerance-direction', label + '.' + '+'.join(sorted(base_letters(c.letters()) - {'tol', 'XX'})), repr(c))


def has_ones_row(t):
	return contains(t, lambda x: name_of(x) in ('numpy.ones', 'numpy.ones_like', 'numpy.full'))


def one_entry(nf, b):
	items = []
	for x in (b.args[1][0].args if b.op == 'call' and b.args[1] and b.args[1][0].op in ('list', 'tuple') else b.args[1] if b.op == 'call' else [b]):
		items.extend(x.args if x.op in ('list', 'tuple') else [x])
	for x in items:
		try:
			if all(p is not None and p.number == 1 for _, p in nf.regions(lambda: nf.poly(x))):
				return True
		except TooMany:
			pass
	return False


def hull_weights(ck, label, lf, nf):
	for call in lf.nnls:
		A, b = call.args[1][:2]
		c = label + '.nnls'
		if name_of(A) in STACK or name_of(b) in STACK:
			if has_ones_row(A) and one_entry(nf, b):
				ck.ok('hull-weights', c, 'nnls on the vertices with a row of ones')
			elif has_ones_row(A) or name_of(A) in STACK:
				ck.bad('hull-weights', c, 'the weights are not constrained to sum to one: right-hand side %s' % show(b, 4))
			else:
				ck.unknown('hull-weights', c, show(call, 4))
		else:
			try:
				rs = nf.regions(lambda: canon(nf.poly(A)))
				opq = any(p is None or p.opaque() for _, p in rs)
			except TooMany:
				opq = True
			if opq:
				ck.unknown('hull-weights', c, show(call, 4))
			else:
				ck.bad('hull-weights', c, 'nonnegative weights without the sum-to-one row: a cone, not the hull')


def products(ck, P):
	I = Interp(P)
	frozen(I)
	st = None
	parts = []
	kinds = [('LinQuadDomain', KINDS[0][2]), ('LinIneqDomain', KINDS[1][2]), ('BoxDomain', KINDS[2][2])]
	for j, (cls, names) in enumerate(kinds):
		m = make(P, cls, cls, names, I=I, st=st, prefix='p%d.' % j)
		st = m.st
		parts.append((m, cls, names))
	inner_, st = I.new(P.cls('psdr.TensorProductDomain'), (), {'domains': mk('list', parts[0][0].obj, parts[1][0].obj)}, st, tag='prod1')
	outer, st = I.new(P.cls('psdr.TensorProductDomain'), (), {'domains': mk('list', inner_, parts[2][0].obj)}, st, tag='prod2')
	lf = DomLeaf()
	nf = NF(lf, I, var={'XX', 'XX0', 'XX1', 'XX2'})
	lf.nf = nf
	nf.batch = {'XX', 'XX0', 'XX1', 'XX2'}
	nf.env = {}
	lens = []
	for m, cls, names in parts:
		ln = I.method(m.obj, '__len__', [], {}, st)
		lens.append(nf.poly(ln))
	cum = [num(0)]
	for l in lens:
		cum.append(cum[-1].add(l))
	wrong = []

	def slice_of(sl):
		lo = num(0) if sl.args[0] is NONE else nf.poly(sl.args[0])
		hi = cum[-1] if sl.args[1] is NONE else nf.poly(sl.args[1])
		for k in range(3):
			if lo == cum[k] and hi == cum[k + 1]:
				return k
		if not (lo.opaque() or hi.opaque()):
			wrong.append('%s:%s' % (lo, hi))
		return None
	lf.slice_of = slice_of
	r = I.method(outer, 'isinside', [param('XX', 'array')], {'tol': param('tol', 'scalar')}, st)
	a = analyse(nf, r)
	for j, (m, cls, names) in enumerate(parts):
		fams = families(cls, names, x='XX%d' % j, pre='p%d.' % j)
		check_families(ck, 'accept-implies-constraint', 'Product.%d.%s' % (j, cls), 'TensorProductDomain.isinside', a, fams, nf)
		seen = any(isinstance(c, Cmp) and not c.err and ('XX%d' % j) in c.letters() for c in a.d)
		if seen:
			ck.ok('product-slices', 'factor%d' % j, 'tested on %s:%s' % (cum[j], cum[j + 1]))
		elif wrong:
			ck.bad('product-slices', 'factor%d' % j, 'tested on the wrong slice: %s instead of %s:%s' % (wrong[0], cum[j], cum[j + 1]))
		else:
			ck.unknown('product-slices', 'factor%d' % j, 'slices not recognised')
	tol_dir(ck, 'Product', a)


def selftests(ck):
	x, lb, tol = param('XX', 'array'), param('lb', 'array'), param('tol', 'scalar')
	nf = NF(leaf)
	nf.batch = {'XX'}
	forms = families('B', ('lb',))['lb'][0]
	good = mkcmp(nf, mk('ge', x, mk('sub', lb, tol)))
	rev = mkcmp(nf, mk('le', x, mk('add', lb, tol)))
	tight = mkcmp(nf, mk('ge', x, mk('add', lb, tol)))
	ck.selftest('lower bound accepted', matches(good, forms)[0] is True)
	ck.selftest('reversed bound flagged', matches(rev, forms)[0] is False)
	ck.selftest('tightening tolerance flagged', matches(tight, forms)[0] is False)
	n = Nec(lambda t: mkcmp(nf, t))
	ck.selftest('any() imposes nothing', not n.pos(mk('call', ext('numpy.any'), (mk('ge', x, lb),), ())).d)
	ck.selftest('all() imposes', len(n.pos(mk('call', ext('numpy.all'), (mk('ge', x, lb),), ())).d) == 1)
