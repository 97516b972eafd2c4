"""D05: normalised and user coordinates are exact inverses and agree on all data."""
from ..terms import *
from ..interp import Interp, AbsRaise, AbsDead
from ..alg import *
from ..doms import *
from ..loader import AnalysisBroken

EXTRA.update({'x1': 'v', 'x2': 'v'})


def regs(nf, fn, init=None):
	try:
		return [(e, p) for e, p in nf.regions(fn, init)]
	except TooMany:
		return None


def judge(ck, rule, con, nf, fn, what, init=None, keep=None):
	"""fn() gives a difference (or list of alternatives) that must vanish in every region"""
	rs = regs(nf, fn, init)
	if rs is None:
		ck.unknown(rule, con, what + ': too many regions')
		return
	n, bad, und = 0, None, None
	for env, p in rs:
		if p is None or keep and not keep(env):
			continue
		n += 1
		ps = [rename(q) for q in (p if isinstance(p, list) else [p])]
		if any(q.zero for q in ps):
			continue
		if all(q.opaque() for q in ps):
			und = und or (env, ps[0])
		elif any(q.opaque() for q in ps):
			und = und or (env, ps[0])
		else:
			bad = bad or (env, ps[0])
	if bad:
		ck.bad(rule, con, '%s: off by %r%s' % (what, bad[1], when(bad[0])))
	elif und:
		ck.unknown(rule, con, '%s: %r' % (what, und[1]))
	elif not n:
		ck.unknown(rule, con, what + ': no region')
	else:
		ck.ok(rule, con, '%s in %d regions' % (what, n))


def when(env):
	s = ['%s%s' % ('' if v else 'not ', show(k, 4) if isinstance(k, T) else k) for k, v in env.items()]
	return ' when ' + ', '.join(s)[:160] if s else ''


class Setup:
	def __init__(self, P, label, cls, names, unit=False):
		self.label, self.cls, self.names = label, cls, names
		self.d = make(P, label, cls, names)
		self.d.I.hooks['.is_linquad_domain'] = lambda I, st, a, k: TRUE
		self.lf = DomLeaf()
		self.nf = NF(self.lf, self.d.I, var={'x1', 'x2', 'XX'})
		self.lf.nf = self.nf
		self.init = None
		if label.startswith('Unbounded'):
			self.init = {mk('finite', const('%s#%s' % (n, self.d.obj.args[0]))): False for n in ('nlb', 'nub')}

	def call(self, m, *a, **k):
		obj = k.pop('obj', self.d.obj)
		r = self.d.I.method(obj, m, list(a), k, self.d.st)
		return self.d.I.snap(r, self.d.st)

	def attr(self, name, obj=None):
		r = self.d.I.getattr(obj or self.d.obj, name, self.d.st, None)
		return self.d.I.snap(r, self.d.st)


def fin(nf, t):
	return final(nf.poly(t))


def run(ck, P, tier):
	ck.rule('inverse', 'unnormalize after normalize is the identity, in every combination of finite and equal bounds, and normalize after unnormalize too', 18)
	ck.rule('derivative', 'the reported derivatives are the matrices of the two affine maps', 18)
	ck.rule('finite-only', 'normalisation bounds enter the maps only where they are finite', 18)
	ck.rule('unit-box', 'finite, distinct normalisation bounds are mapped to -1 and 1', 15)
	ck.rule('data', 'each piece of normalised constraint data is the image of the declared one: bound, row, centre and factor give the same slack at the image of a point', 15)
	ck.rule('normalized-domain', 'normalized_domain() builds a domain of the image data, of the same kind, with every family', 30)
	ck.rule('normalisation-bounds', 'the lower (upper) normalisation bound of a coordinate is its declared bound when finite, otherwise that coordinate of the extreme point in the negative (positive) direction, otherwise infinite', 4)
	ck.rule('per-point', 'normalising an array acts on each row alike', 18)
	for label, cls, names in KINDS:
		one(ck, P, label, cls, names)
	product(ck, P)
	norm_bounds(ck, P)
	from . import shape
	shape.coordinates(ck, P)
	ck.assumptions = ['array shapes agree', 'floating-point rounding is not modelled: identities are over the reals']
	selftests(ck)


def one(ck, P, label, cls, names):
	s = Setup(P, label, cls, names)
	nf, st = s.nf, s.d.st
	X, Y = param('x1', 'array'), param('XX', 'array')
	D = s.call('_normalize_der')
	Dinv = s.call('_unnormalize_der')

	def rt(a, b, pt):
		return s.call(b, s.call(a, pt))
	for a, b in (('normalize', 'unnormalize'), ('unnormalize', 'normalize')):
		t = rt(a, b, X)
		judge(ck, 'inverse', '%s.%s' % (label, b + '(' + a + ')'), nf, lambda: fin2(nf, t).add(vec('x1'), -1), '%s.%s(%s(x)) is x' % (cls, b, a), s.init)
	if label.startswith('Unbounded'):
		der = (('normalize', D),)
	for a, M in (('normalize', D), ('unnormalize', Dinv)):
		t1, t2 = s.call(a, param('x1', 'array')), s.call(a, param('x2', 'array'))

		def fn(t1=t1, t2=t2, M=M):
			p = fin2(nf, t1).add(fin2(nf, t2), -1)
			return canon(p.add(canon(matmul(nf.poly(M), vec('x1').add(vec('x2'), -1))), -1))
		usable(ck, '%s.%s' % (label, a), nf, lambda t1=t1: fin2(nf, t1), s.init)
		judge(ck, 'derivative', '%s.%s' % (label, a), nf, fn, 'the derivative of %s is %s' % (a, '_%s_der' % a), s.init)
	# rows alike: the expression for a 2-d array equals that for a single point
	for a in ('normalize', 'unnormalize'):
		t1, t2 = s.call(a, param('x1', 'array')), s.call(a, param('XX', 'array'))

		def fn(t1=t1, t2=t2):
			return canon(fin2(nf, t1).add(substitute(fin2(nf, t2), 'XX', vec('x1')), -1))
		nf.batch = {'XX'}
		judge(ck, 'per-point', '%s.%s' % (label, a), nf, fn, '%s of an array of points is row by row' % a, s.init)
	if not label.startswith('Unbounded'):
		oid = s.d.obj.args[0]
		nlb, nub = 'nlb#%s' % oid, 'nub#%s' % oid
		bl, bu = mk('frozen', 'nlb', s.d.obj), mk('frozen', 'nub', s.d.obj)

		def keep(env):
			for k, v in env.items():
				if isinstance(k, T) and k.op == 'finite' and not v:
					return False
				if isinstance(k, T) and k.op == 'eq' and v:
					return False
			return True
		t = s.call('normalize', X)
		for nm, want in ((nlb, -1), (nub, 1)):
			def fn(nm=nm, want=want):
				q = substitute(fin2(nf, t), 'x1', vec(nm))
				if label.startswith('NormalDomain'):    # the truncation is symmetric about the mean
					q = substitute(q, 'mean', vec(nlb).add(vec(nub)).scale(Fraction(1, 2)))
				return canon(unitdiag(q)).add(num(want), -1)
			judge(ck, 'unit-box', '%s.%s' % (label, nm.split('#')[0]), nf, fn, 'the %s normalisation bound maps to %d' % ('lower' if want < 0 else 'upper', want), s.init, keep)
	data(ck, s, label, cls, names, s.d.obj, 'data', suffix='_norm')
	try:
		nd = s.d.I.method(s.d.obj, 'normalized_domain', [], {}, s.d.st)
	except (AbsRaise, AbsDead) as e:
		ck.unknown('normalized-domain', label, 'always raises %s' % getattr(e, 'exc', e))
		return
	objs = [((), nd)] if nd.op != 'phi' else list(nd.args)
	for pc, o in objs:
		if o.op != 'ref':
			ck.unknown('normalized-domain', label, show(o, 4))
			continue
		if o == s.d.obj:
			ck.verdict('normalized-domain', label + '.identity', label in ('UnboundedDomain', 'LogNormalDomain'), 'normalized_domain returns the domain itself')
			continue
		k = s.d.I.objclass[o.args[0]].name
		want = 'BoxDomain' if label == 'PointDomain' else cls
		if k != want and not (label == 'UniformDomain' and k == 'BoxDomain') and not (k == 'LinQuadDomain' and label in ('LinIneqDomain', 'BoxDomain')):
			ck.bad('normalized-domain', label + '.kind', '%s.normalized_domain builds a %s' % (cls, k))
			continue
		ck.ok('normalized-domain', label + '.kind', k)
		data(ck, s, label, cls, names, o, 'normalized-domain', suffix='')


def usable(ck, con, nf, fn, init):
	"""infinite normalisation bounds never enter the coordinate map"""
	rs = regs(nf, fn, init)
	if rs is None:
		ck.unknown('finite-only', con, 'too many regions')
		return
	bad = und = None
	for env, p in rs:
		if p is None:
			continue
		fin = {k.args[0].args[0]: v for k, v in env.items() if isinstance(k, T) and k.op == 'finite'}
		for l in p.letters():
			if l.startswith(('nlb#', 'nub#')):
				if fin.get(l) is False:
					bad = bad or (l, env)
				elif l not in fin:
					und = und or (l, env)
	if bad:
		ck.bad('finite-only', con, 'the map uses %s although it is infinite%s' % (bad[0].split('#')[0].replace('n', 'norm_', 1), when(bad[1])))
	elif und:
		ck.unknown('finite-only', con, '%s is used untested' % und[0])
	else:
		ck.ok('finite-only', con, '%d regions' % len(rs))


def fin2(nf, t):
	p = final(nf.poly(t))
	if p is None:
		return nf.opaque(t)
	return canon(p)


def unitdiag(p):
	"""dg(e)^-1 (a - b) where a - b is proportional to e: number"""
	return collapse(p)


def collapse(p):
	"""group the terms dg(e, -1) v : (sum of c v) / e"""
	groups, rest = {}, Poly()
	for (s, w), c in p.d.items():
		if not s and len(w) == 2 and w[0][0] == 'dg' and w[1][0] == 'v':
			g = groups.setdefault(w[0], Poly())
			groups[w[0]] = g.add(Poly({((), (w[1],)): c}))
		else:
			rest = rest.add(Poly({(s, w): c}))
	for l, q in groups.items():
		den = Poly(dict(l[1]))
		r = ratio(q, canon(den)) if l[2] == -1 else None
		if r is not None:
			rest = rest.add(num(r))
		else:
			for (s, w), c in q.d.items():
				rest = rest.add(Poly({(s, (l,) + w): c}))
	return rest


def data(ck, s, label, cls, names, obj, rule, suffix, pre='', clab=None):
	"""compare slacks of the (normalised) data of obj at normalize(x) with the declared ones at x"""
	nf = s.nf
	sub = s.d.obj
	x = vec('x1')
	X = param('x1', 'array')
	zt = s.call('normalize', X)
	Dt = s.call('_normalize_der')
	P = lambda n: pre + n
	is_norm = rule == 'normalized-domain'

	def attr(n):
		try:
			return s.attr(n + suffix, obj)
		except (AbsRaise, AbsDead):
			return None
	def with_data(con, fn, what):
		judge(ck, rule, con, nf, fn, what, s.init)
	z = lambda: fin2(nf, zt)
	D = lambda: nf.poly(Dt)
	con = (clab or label) + '.'
	for fam, nm in (('lb', 'lb'), ('ub', 'ub')):
		if nm not in names:
			continue
		t = attr(nm)
		if t is None:
			ck.unknown(rule, con + nm, 'no attribute')
			continue

		def fn(t=t, nm=nm):
			u = fin2(nf, t)
			want = z().add(canon(matmul(D(), x.add(vec(P(nm)), -1))), -1)
			return canon(u.add(canon(want), -1))
		fixinf(ck, rule, con + nm, s, fn, t, P(nm))
	for M, v, kind in (('A', 'b', 'ineq'), ('A_eq', 'b_eq', 'eq')):
		if M not in names:
			continue
		tM, tv = attr(M), attr(v)
		if tM is None or tv is None:
			ck.unknown(rule, con + kind, 'no attribute')
			continue

		def fn(tM=tM, tv=tv, M=M, v=v):
			slack = nf.poly(tv).add(matmul(nf.poly(tM), z()), -1)
			want = vec(P(v)).add(matmul(mat(P(M)), x), -1)
			return canon(canon(slack).add(canon(want), -1))
		with_data(con + kind, fn, 'slack of %s x, %s' % (M, v))
	if 'Ls' in names:
		lists = [attr(n) for n in ('Ls', 'ys', 'rhos')]
		if any(t is None for t in lists):
			ck.unknown(rule, con + 'quad', 'no attribute')
		else:
			k = mk('idx', 'k')
			el = [s.d.I.snap(s.d.I.index(t, k, s.d.st), s.d.st) for t in lists]
			lf = s.lf

			def fn(el=el):
				L, y, r = [nf.poly(e) for e in el]
				res = matmul(L, z().add(final(y) or y, -1))
				want = matmul(mat(P('Ls[k]')), x.add(vec(P('ys[k]')), -1))
				d1 = canon(rename(canon(res)).add(canon(want), -1))
				d2 = canon(rename(r).add(sc(P('rhos[k]')), -1))
				return d1 if not d1.zero else d2
			with_data(con + 'quad', fn, 'L (x - y) and radius of each quadratic constraint')
	if 'X' in names and is_norm:
		t = attr('X')
		if t is None:
			ck.unknown(rule, con + 'hull', 'no vertices')
		else:
			zX = s.call('normalize', param(P('X'), 'array'))

			def fn(t=t):
				return canon(fin2(nf, t).add(fin2(nf, zX), -1))
			judge(ck, rule, con + 'hull', nf, fn, 'vertices are normalised', s.init)
	if 'mean' in names and is_norm and not label.startswith('LogNormal'):
		t, tc = attr('mean'), attr('cov')
		if t is None or tc is None:
			ck.unknown(rule, con + 'mean', 'no attribute')
		else:
			judge(ck, rule, con + 'mean', nf, lambda: canon(fin2(nf, t).add(substitute(z(), 'x1', vec(P('mean'))), -1)), 'the mean is normalised', s.init)
			judge(ck, rule, con + 'cov', nf, lambda: canon(nf.poly(tc).add(canon(matmul(matmul(D(), mat(P('cov'))), transpose(D()))), -1)), 'the covariance is D cov D^T', s.init)
	if 'truncate' in names and is_norm and not label.startswith('LogNormal'):
		t = attr('truncate')
		if t is None or t is NONE:
			ck.bad(rule, con + 'truncate', 'the truncation is dropped')
			return
		judge(ck, rule, con + 'truncate', nf, lambda: nf.poly(t).add(sc(P('truncate')), -1), 'the truncation is kept', s.init)
	if label.startswith('LogNormal') and is_norm:
		for nm, want in (('offset', lambda: substitute(z(), 'x1', sc('offset'))), ('scaling', lambda: canon(matmul(D(), sc('scaling'))))):
			t = attr(nm)
			if t is None:
				ck.unknown(rule, con + nm, 'no attribute')
				continue
			judge(ck, rule, con + nm, nf, lambda t=t, want=want: canon(lift(fin2(nf, t)).add(lift(want()), -1)), '%s is normalised' % nm, s.init)
		for nm in ('mean', 'cov', 'truncate'):
			t = attr(nm)
			o = s.attr(nm, s.d.obj)
			judge(ck, rule, con + nm, nf, lambda t=t, o=o: canon(fin2(nf, t).add(fin2(nf, o), -1)), '%s is kept' % nm, s.init)


def fixinf(ck, rule, con, s, fn, t, nm):
	"""lb_norm may be minus infinity exactly where lb is"""
	nf = s.nf
	rs = regs(nf, fn, s.init)
	if rs is None:
		ck.unknown(rule, con, 'too many regions')
		return
	bad = und = None
	n = 0
	for env, p in rs:
		if p is None:
			continue
		n += 1
		if p.zero:
			continue
		isinf = any(isinstance(a, tuple) and len(a) and a[0] == 's' and a[1] == 'inf' for (sc_, w), c in p.d.items() for a, e in sc_)
		if isinf:
			lbinf = any(isinstance(k, T) and k.op == 'finite' and k.args[0].args[0] == nm and not v for k, v in env.items())
			sign = [c for (sc_, w), c in p.d.items() if any(a[1] == 'inf' for a, e in sc_)]
			if lbinf and all((c < 0) == nm.endswith('lb') for c in sign):
				continue
			bad = bad or (env, p)
		elif p.opaque():
			und = und or (env, p)
		else:
			bad = bad or (env, p)
	if bad:
		ck.bad(rule, con, 'bound %s: off by %r%s' % (nm, bad[1], when(bad[0])))
	elif und:
		ck.unknown(rule, con, 'bound %s: %r' % (nm, und[1]))
	elif n:
		ck.ok(rule, con, 'bound %s is the image of the declared bound in %d regions' % (nm, n))
	else:
		ck.unknown(rule, con, 'no region')


def lift(p):
	"""one-dimensional: a 1x1 matrix, its entry and a number are the same thing"""
	out = Poly()
	for (s, w), c in p.d.items():
		d = num(c)
		for a, e in s:
			d = matmul(d, Poly({(((a, e),), ()): 1}))
		sc_ = []
		for l in w:
			sc_.append(l)
		ws = tuple(sorted((l for l in sc_ if l[0] == 'dg'), key=repr)) + tuple(sorted((('v', l[1]) if l[0] in 'vm' else l for l in sc_ if l[0] != 'dg'), key=repr))
		out = out.add(Poly({(tuple(sorted(s, key=repr)), ws): c}))
	return out


class Part:
	"""one factor of a product, sharing the interpreter of the whole"""

	def __init__(self, s, obj):
		self.__dict__.update(s.__dict__)
		self.d = Made(s.label, s.d.I, obj, s.d.st, {})
		self.init = None

	call, attr = Setup.call, Setup.attr


def product(ck, P):
	I = Interp(P)
	frozen(I)
	I.hooks['.is_linquad_domain'] = lambda I, st, a, k: TRUE
	st = None
	parts = []
	kinds = [('LinQuadDomain', KINDS[0][2]), ('BoxDomain', KINDS[2][2]), ('LinIneqDomain', KINDS[1][2])]
	for j, (cls, names) in enumerate(kinds):
		m = make(P, cls, cls, names, I=I, st=st, prefix='p%d.' % j)
		st = m.st
		parts.append((m, cls, names))
	obj, st = I.new(P.cls('psdr.TensorProductDomain'), (), {'domains': mk('list', *[m.obj for m, _, _ in parts])}, st, tag='prod')
	s = Setup.__new__(Setup)
	s.label, s.cls, s.names = 'Product', 'TensorProductDomain', ()
	s.d = Made('Product', I, obj, st, {})
	s.lf = DomLeaf()
	s.lf.point = 'x1'
	s.nf = nf = NF(s.lf, I, var={'x1', 'x10', 'x11', 'x12'})
	s.lf.nf = nf
	s.init = None
	cum = [num(0)]
	for m, _, _ in parts:
		cum.append(cum[-1].add(nf.poly(I.method(m.obj, '__len__', [], {}, st))))
	wrong = []

	def slice_of(sl):
		lo = num(0) if sl.args[0] is NONE else nf.poly(sl.args[0])
		hi = cum[-1] if sl.args[1] is NONE else nf.poly(sl.args[1])
		for k in range(3):
			if lo == cum[k] and hi == cum[k + 1]:
				return k
		return None
	s.lf.slice_of = slice_of
	X = param('x1', 'array')
	for a in ('normalize', 'unnormalize'):
		t = s.call(a, X)
		der = s.call('_%s_der' % a)
		for j, (m, cls, names) in enumerate(parts):
			ts = I.snap(I.method(m.obj, a, [X], {}, st), st)
			ds = I.snap(I.method(m.obj, '_%s_der' % a, [], {}, st), st)

			def fn(ts=ts, j=j):
				want = substitute(fin2(nf, ts), 'x1', vec('x1%d' % j))
				return canon(fin2(nf, t).add(want, -1))
			judge(ck, 'inverse', 'Product.%d.%s' % (j, a), nf, fn, '%s of a product acts on factor %d as the factor does' % (a, j), {('part', 3): j})

			def fd(ds=ds):
				return canon(canon(nf.poly(der)).add(canon(nf.poly(ds)), -1))
			judge(ck, 'derivative', 'Product.%d.%s' % (j, a), nf, fd, 'the derivative of %s of a product is that of its factors' % a, {('part', 3): j})
	r = I.method(obj, 'normalized_domain', [], {}, st)
	if r.op != 'ref':
		ck.unknown('normalized-domain', 'Product', show(r, 4))
		return
	doms = I.concrete_items(I.getattr(r, 'domains', st, None), st)
	if doms is None or len(doms) != 3:
		if doms is not None:
			ck.bad('normalized-domain', 'Product', 'a product of 3 factors is normalised to %d' % len(doms))
		else:
			ck.unknown('normalized-domain', 'Product', 'factors of the result not recognised')
		return
	for j, (m, cls, names) in enumerate(parts):
		if doms[j].op != 'ref':
			ck.unknown('normalized-domain', 'Product.%d' % j, show(doms[j], 4))
			continue
		q = Part(s, m.obj)
		q.lf.slice_of = None
		data(ck, q, cls, cls, names, doms[j], 'normalized-domain', '', pre='p%d.' % j, clab='Product.%d.%s' % (j, cls))


def unit_sign(t):
	"""+1/-1 and the position for a term +-e_i built by writing a constant into zeros"""
	s = 1
	while True:
		if t.op == 'neg':
			s, t = -s, t.args[0]
		elif t.op == 'mul' and t.args[0].op == 'const' and isinstance(t.args[0].args[0], (int, float)):
			s, t = s * t.args[0].args[0], t.args[1]
		elif t.op == 'mul' and t.args[1].op == 'const' and isinstance(t.args[1].args[0], (int, float)):
			s, t = s * t.args[1].args[0], t.args[0]
		elif name_of(t) in ('numpy.copy', 'numpy.array') and t.args[1]:
			t = t.args[1][0]
		else:
			break
	if t.op == 'index' and name_of(t.args[0]) in ('numpy.eye', 'numpy.identity'):
		return s, t.args[1]
	if t.op == 'update':
		v = t.args[2]
		while v.op == 'neg':
			s, v = -s, v.args[0]
		b = t.args[0]
		while b.op == 'update' and b.args[1] == t.args[1]:
			b = b.args[0]
		if v.op == 'const' and isinstance(v.args[0], (int, float)) and name_of(b) == 'numpy.zeros':
			return s * v.args[0], t.args[1]
	return None, None


def inf_sign(t):
	s = 1
	while True:
		if t.op == 'neg':
			s, t = -s, t.args[0]
		elif t.op == 'mul' and t.args[0].op == 'const' and isinstance(t.args[0].args[0], (int, float)):
			s, t = s * t.args[0].args[0], t.args[1]
		elif t.op == 'mul' and name_of(t.args[1]) in ('numpy.ones', 'numpy.ones_like'):
			t = t.args[0]
		elif name_of(t) in ('numpy.full', 'numpy.full_like') and len(t.args[1]) > 1:
			t = t.args[1][1]
		else:
			break
	if t.op == 'ext' and t.args[0] in ('numpy.inf', 'math.inf') or t.op == 'const' and t.args[0] == float('inf'):
		return s
	return None


def norm_bounds(ck, P):
	d = make(P, 'LinQuadDomain', 'LinQuadDomain', KINDS[0][2], freeze=False)
	def corner(I, st, a, k):
		if I.raise_stack:
			I.raise_stack[-1].append((st.copy(), 'psdr.exceptions.UnboundedDomainException'))
		return mk('cornerof', a[1])
	d.I.hooks['.corner'] = corner
	for nm, sg in (('lb', -1), ('ub', 1)):
		r = d.I.snap(d.I.getattr(d.obj, 'norm_' + nm, d.st, None), d.st)
		con = 'EuclideanDomain.norm_' + nm
		vals = set()
		for x in walk(r):
			if x.op == 'update':
				vals.add((x.args[1], x.args[2]))
			if inf_sign(x) is not None and x.op != 'ext':
				vals.add((None, x))
		seen = set()
		und = []
		bad = []

		def one(i, v):
			if v.op == 'phi':
				for _, u in v.args:
					one(i, u)
				return
			n = name_of(v)
			if n in ('builtins.min', 'builtins.max', 'numpy.minimum', 'numpy.maximum') and len(v.args[1]) == 2:
				lets = {x.args[0] for x in walk(v) if x.op == 'param'}
				want = 'min' if sg < 0 else 'max'
				if want not in n:
					bad.append('%s of the two bounds' % n.split('.')[-1])
				return
			s = inf_sign(v)
			if s is not None:
				seen.add('inf')
				if s * sg < 0:
					bad.append('%sinf' % ('-' if s < 0 else ''))
				return
			if v.op == 'index' and v.args[0].op == 'cornerof':
				cs, ci = unit_sign(v.args[0].args[0])
				if cs is None:
					und.append(v)
				elif cs * sg < 0:
					bad.append('the extreme point in the opposite direction')
				elif ci != v.args[1] or i is not None and ci != i:
					bad.append('coordinate %s of the extreme point for %s' % (show(v.args[1]), show(ci)))
				else:
					seen.add('corner')
				return
			b = v
			while name_of(b) in IDENT and b.args[1]:
				b = b.args[1][0]
			if b.op == 'index':
				o = b.args[0]
				while name_of(o) in IDENT and o.args[1]:
					o = o.args[1][0]
				if o.op == 'param' and o.args[0] in ('lb', 'ub'):
					if o.args[0] != nm:
						bad.append('the declared %s' % o.args[0])
					elif i is not None and b.args[1] != i:
						bad.append('%s[%s] for coordinate %s' % (nm, show(b.args[1]), show(i)))
					else:
						seen.add('bound')
					return
			if v.op == 'const' and v.args[0] in (0, 1, -1) or v.op == 'neg' and v.args[0].op == 'const':
				return      # unit vectors
			und.append(v)
		for i, v in vals:
			one(i, v)
		if bad:
			ck.bad('normalisation-bounds', con, 'norm_%s may be %s' % (nm, bad[0]))
		elif und or not {'bound', 'corner'} <= seen:
			ck.unknown('normalisation-bounds', con, 'not recognised: %s' % ([show(u, 4) for u in und[:2]] or seen))
		else:
			ck.ok('normalisation-bounds', con, ', '.join(sorted(seen)))
	d = make(P, 'ConvexHullDomain', 'ConvexHullDomain', KINDS[3][2], freeze=False)
	for nm in ('lb', 'ub'):
		con = 'ConvexHullDomain.norm_' + nm
		try:
			r = d.I.snap(d.I.getattr(d.obj, 'norm_' + nm, d.st, None), d.st)
		except (AbsRaise, AbsDead):
			ck.unknown('normalisation-bounds', con, 'raises')
			continue
		n = name_of(r)
		if n not in ('numpy.min', 'numpy.amin', 'numpy.max', 'numpy.amax'):
			ck.unknown('normalisation-bounds', con, show(r, 3))
			continue
		ax = dict(r.args[2]).get('axis', r.args[1][1] if len(r.args[1]) > 1 else NONE)
		if ('min' in n) != (nm == 'lb'):
			ck.bad('normalisation-bounds', con, 'norm_%s is the %s over the vertices' % (nm, n))
		elif not is_const(ax, 0):
			ck.bad('normalisation-bounds', con, 'norm_%s is not taken over the vertices: axis %s' % (nm, show(ax)))
		else:
			ck.ok('normalisation-bounds', con, show(r, 3))


def selftests(ck):
	e = vec('nub').add(vec('nlb'), -1)
	p = matmul(dg(e, -1), vec('nub').add(vec('nlb'), -1)).scale(3)
	ck.selftest('diagonal quotient collapses', collapse(canon(p)) == num(3) or collapse(p) == num(3))
	q = matmul(dg(e, -1), vec('nub').add(vec('nlb')))
	ck.selftest('wrong quotient does not', collapse(canon(q)) != num(3))
