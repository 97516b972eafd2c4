"""D03: the reported distance to the boundary is the smallest one over all constraints."""
import itertools
from ..terms import *
from ..interp import Interp, AbsRaise, AbsDead
from ..alg import *
from ..doms import *
from ..signs import *
from ..signs import TOL as STOL
from .d02 import problems, VarLeaf, check_problem, fams_at, name_vars, nonneg_fix, hooks, answers

K = {k[0]: k for k in KINDS}
x0, p = param('x0', 'array'), param('p', 'array')

# abstract situations of one row of each family
# (slack -1: outside by less than the tolerance of the membership test)
BOX = [(su, sl, d) for su in (-1, 0, 1, 2) for sl in (-1, 0, 1, 2) for d in (-1, 0, 1) if (su >= 0 or sl >= 1) and (sl >= 0 or su >= 1)]
INEQ = [(s, d) for s in (-1, 0, 1) for d in (-1, 0, 1) if (s, d) != (-1, 1)]
# (moving further out of an inequality already exceeded is left open: the test suite relies on it being possible)
EQ = [-1, 0, 1]
QUAD = ['cross', 'leave', 'enter', 'tangent', 'still']
FAMS = {'box': BOX, 'ineq': INEQ, 'eq': EQ, 'quad': QUAD}
TEXT = {'box': 'bounds', 'ineq': 'linear inequality', 'eq': 'linear equality', 'quad': 'quadratic constraint'}


def lv(k, n):
	return ZERO if k == 0 else INF if k == 2 else atom(n, k)


def limit(fam, sit, r):
	"""the step the row allows"""
	if fam == 'box':
		su, sl, d = sit
		if d == 0:
			return INF
		if (su if d > 0 else sl) < 0:
			return ZERO
		return mul(lv(su, 'su%s' % r), atom('p%s' % r), -1) if d > 0 else mul(lv(sl, 'sl%s' % r), atom('p%s' % r), -1)
	if fam == 'ineq':
		s, d = sit
		return INF if d <= 0 else ZERO if s < 0 else mul(lv(s, 's%s' % r), atom('r%s' % r), -1)
	if fam == 'eq':
		return INF if sit == 0 else ZERO
	return {'cross': atom('t%s' % r), 'leave': ZERO, 'enter': atom('t%s' % r), 'tangent': ZERO, 'still': INF}[sit]


def quantities(fam, sit, r, which):
	if fam == 'box':
		su, sl, d = sit
		return {'su': lv(su, 'su%s' % r), 'sl': lv(sl, 'sl%s' % r), 'p': atom('p%s' % r, d)}[which]
	if fam == 'ineq':
		s, d = sit
		return {'s': lv(s, 's%s' % r), 'r': atom('r%s' % r, d)}[which]
	if fam == 'eq':
		return {'r': atom('e%s' % r, sit), 's': ZERO}[which]


def describe(rows):
	out = []
	for fam, rs in rows.items():
		for r, sit in rs:
			if fam == 'box':
				su, sl, d = sit
				w = {-1: 'just beyond the %s bound', 0: 'at the %s bound', 1: 'strictly inside the %s bound', 2: 'without %s bound'}
				out.append('a coordinate %s and %s, direction %s' % (w[su] % 'upper', w[sl] % 'lower', {-1: 'down', 0: 'zero', 1: 'up'}[d]))
			elif fam == 'ineq':
				out.append('a linear inequality %s, %s' % ({-1: 'exceeded within the tolerance', 0: 'active', 1: 'inactive'}[sit[0]], {-1: 'moving away', 0: 'moving along', 1: 'moving towards'}[sit[1]]))
			elif fam == 'eq':
				out.append('a linear equality %s' % ('kept' if sit == 0 else 'left'))
			else:
				out.append('a quadratic constraint (%s)' % sit)
	return '; '.join(out)


class Sit:
	def __init__(self, nf, rows, pre=''):
		self.rows = {f: [r for r, _ in rs] for f, rs in rows.items()}
		sit = {(f, r): s for f, rs in rows.items() for r, s in rs}
		P = lambda n: pre + n
		X, D = vec('x0'), vec('p')

		def q(fam, which):
			return lambda r: quantities(fam, sit[(fam, r)], r, which)
		forms = [
			(canon(vec(P('ub')).add(X, -1)), 'box', q('box', 'su')),
			(canon(X.add(vec(P('lb')), -1)), 'box', q('box', 'sl')),
			(canon(D), 'box', q('box', 'p')),
			(canon(vec(P('b')).add(matmul(mat(P('A')), X), -1)), 'ineq', q('ineq', 's')),
			(canon(matmul(mat(P('A')), D)), 'ineq', q('ineq', 'r')),
			(canon(matmul(mat(P('A_eq')), D)), 'eq', q('eq', 'r')),
			(canon(vec(P('b_eq')).add(matmul(mat(P('A_eq')), X), -1)), 'eq', q('eq', 's')),
			(sc('tol'), None, lambda r: STOL),
		]
		L, y, rho = mat(P('Ls[k]')), vec(P('ys[k]')), sc(P('rhos[k]'))
		Lp, Ly = matmul(L, D), matmul(L, X.add(y, -1))
		a, b, c = inner(Lp, Lp), inner(Lp, Ly).scale(2), inner(Ly, Ly).add(nf.power(rho, 2, None), -1)
		self.abc = [canon(a), canon(b), canon(c)]

		def roots(E, t):
			l = t.args[1][0]
			if l.op not in ('list', 'tuple') or len(l.args) != 3:
				raise Undecided('polynomial')
			ps = [E.pcache(z) for z in l.args]
			if any(z is None for z in ps):
				raise Undecided('coefficients')
			rs = [ratio(canon(expand_norms(canon(rename(z)))), canon(expand_norms(w))) for z, w in zip(ps, self.abc)]
			if None in rs or len(set(rs)) != 1:
				bad = [(z, w) for z, w, k in zip(ps, self.abc, rs) if k is None or k != rs[0]] or [(ps[0], self.abc[0])]
				raise Wrong('the step at which the quadratic constraint becomes active solves a polynomial with coefficient %r where %r is due' % bad[0])
			if E.row is None:
				raise Undecided('row')
			r = E.row[1]
			return {'cross': Vec([(0, atom('q%s' % r, -1)), (1, atom('t%s' % r))]), 'leave': Vec([(0, atom('q%s' % r, -1)), (1, ZERO)]),
				'enter': Vec([(0, ZERO), (1, atom('t%s' % r))]), 'tangent': Vec([(0, ZERO), (1, ZERO)]), 'still': Vec([])}[sit[('quad', r)]]

		def isreal(E, t):
			return E.broadcast(lambda v: True, E.ev(t.args[1][0]))
		self.E = SignEval(nf, forms, self.rows, calls={'numpy.roots': roots, 'numpy.isreal': isreal, 'numpy.isrealobj': isreal})
		self.want = INF
		for f, rs in rows.items():
			for r, s in rs:
				self.want = ext(self.want, limit(f, s, r), 'min')


def consistent(fam, rows):
	return True


def run(ck, P, tier):
	ck.rule('one-family', 'with every other family absent, the step reported is the smallest one allowed by the rows of the family, for every sign of slack and rate', 8)
	ck.rule('all-families', 'with a row of every family, the step is limited by the tightest one, whichever family it belongs to', 3)
	ck.rule('product', 'a product limits the step by the distance of every factor along its own slice', 1)
	ck.rule('fixed', 'a point cannot be left, an unbounded domain never limits', 2)
	ck.rule('hull', 'the step along a hull maximises the step length subject to the hull and to every other constraint', 5)
	for label in ('BoxDomain', 'LinIneqDomain', 'LinQuadDomain', 'UniformDomain'):
		if label in K:
			ck.guard('one-family', label, lambda: kind(ck, P, label))
	ck.guard('product', 'TensorProductDomain', lambda: product(ck, P))
	ck.guard('fixed', 'PointDomain', lambda: fixed(ck, P))
	ck.guard('hull', 'ConvexHullDomain', lambda: hull(ck, P))
	from . import shape
	shape.steps(ck, P)
	ck.assumptions = ['a starting point outside a bound or inequality by less than the tolerance counts as inside; quadratic constraints hold exactly', 'a non-zero rate of an equality exceeds the tolerance', 'numpy.roots returns real roots of polynomials with real roots']
	selftests(ck)


def term(ck, P, label):
	d = make(P, *K[label])
	hooks(d.I)
	r = d.I.snap(d.I.method(d.obj, 'extent', [x0, p], {}, d.st), d.st)
	lf = DomLeaf()
	nf = NF(lf, d.I, limit=400)
	lf.nf = nf
	# the tolerance of the domain stands for itself
	t = d.I.snap(d.I.getattr(d.obj, 'tol', d.st, None), d.st) if label != 'BoxDomain' else None
	if t is not None:
		lf.extra[t] = sc('tol')
	return d, nf, r


def fams_of_kind(label):
	names = K[label][2]
	out = ['box']
	if 'A' in names:
		out.append('ineq')
	if 'A_eq' in names:
		out.append('eq')
	if 'Ls' in names:
		out.append('quad')
	return out


NEUTRAL = {'box': (2, 2, 1), 'ineq': (1, -1), 'eq': 0, 'quad': 'still'}


def judge(ck, rule, con, cls, nf, r, cases):
	verdict, n, und = True, 0, None
	for rows in cases:
		try:
			s = Sit(nf, rows)
			s.E.pc_cache = CACHE.setdefault(id(nf), {})
			got = s.E.ev(r)
			if isinstance(got, Vec) and len(got.rows) == 1:
				got = got.rows[0][1]
			if not isinstance(got, V):
				raise Undecided('%r' % (got,))
		except Undecided as e:
			und = und or '%s: %s' % (describe(rows), e)
			continue
		except Wrong as e:
			ck.bad(rule, con, '%s.extent: %s' % (cls, e))
			return
		n += 1
		if got != s.want:
			ck.bad(rule, con, '%s.extent: with %s the step reported is %r, but %r is allowed' % (cls, describe({f: rs for f, rs in rows.items() if any(sit != NEUTRAL[f] for _, sit in rs)} or rows), got, s.want))
			return
	if und:
		ck.unknown(rule, con, und[:300])
	else:
		ck.ok(rule, con, '%d sign situations' % n)


CACHE = {}


def kind(ck, P, label):
	try:
		d, nf, r = term(ck, P, label)
	except (AbsRaise, AbsDead) as e:
		ck.unknown('one-family', label, 'always raises %s' % getattr(e, 'exc', ''))
		return
	fams = fams_of_kind(label)
	cls = K[label][1].split('.')[-1] if isinstance(K[label][1], str) else label
	for f in fams:
		cases = []
		for a, b in itertools.product(FAMS[f], repeat=2):
			rows = {g: [] for g in fams}
			rows['box'] = [('0', NEUTRAL['box'])]
			rows[f] = [('1', a), ('2', b)]
			cases.append(rows)
		judge(ck, 'one-family', '%s.%s' % (label, f), cls, nf, r, cases)
	if len(fams) > 1:
		few = {'box': [(1, 1, 1), (1, 1, -1), (0, 1, 1), (0, 1, -1), (2, 2, 1), (1, 0, -1)], 'ineq': INEQ, 'eq': [0, 1, -1], 'quad': QUAD}
		cases = [{f: [(f[0] + '1', s)] for f, s in zip(fams, combo)} for combo in itertools.product(*[few[f] for f in fams])]
		judge(ck, 'all-families', label, cls, nf, r, cases)


def product(ck, P):
	d0 = make(P, *K['LinQuadDomain'], prefix='p0.')
	I = d0.I
	d1 = make(P, *K['BoxDomain'], I=I, st=d0.st, prefix='p1.')
	d2 = make(P, *K['BoxDomain'], I=I, st=d1.st, prefix='p2.')
	o, st = I.new(P.cls('psdr.TensorProductDomain'), (), {'domains': mk('list', d0.obj, d1.obj, d2.obj)}, d2.st)
	objs = [d0.obj, d1.obj, d2.obj]
	m = P.cls('psdr.TensorProductDomain').lookup('extent')
	calls = []

	def hk(I, st, a, k):
		if a[0] is o:
			return None
		return mk('ext_of', *a)
	f = P.cls('psdr.TensorProductDomain').lookup('_extent')
	hooks(I)
	I.hooks['.extent'] = lambda I, st, a, k: mk('ext_of', *a)
	for ob in objs:
		c = I.objclass[ob.args[0]]
		g = c.lookup('_extent')
		if g and g[0] == 'method':
			I.hooks[g[1].qualname] = lambda I, st, a, k: mk('ext_of', *a)
	r = I.snap(I.call_func(I.func_value(f[1], None), [o, x0, p], {}, st, None), st)
	lf = DomLeaf()
	nf = NF(lf, I, limit=400)
	lf.nf = nf
	cum = [num(0)]
	for ob in objs:
		nf.env = {}
		cum.append(cum[-1].add(nf.poly(I.method(ob, '__len__', [], {}, st))))

	def part(t, base):
		if t.op != 'index' or t.args[0] is not base:
			return None
		sl = t.args[1]
		if sl.op != 'slice':
			return None
		lo = num(0) if sl.args[0] is NONE else nf.poly(sl.args[0])
		hi = cum[-1] if sl.args[1] is NONE else nf.poly(sl.args[1])
		for k in range(len(objs)):
			if lo == cum[k] and hi == cum[k + 1]:
				return k
		return -1 if not lo.opaque() and not hi.opaque() else None
	terms = {x for x in walk(r) if x.op == 'ext_of'}
	seen, und = set(), None
	for t in terms:
		ob, a, b = t.args[:3]
		if ob not in objs:
			und = show(t, 4)
			continue
		j = objs.index(ob)
		ka, kb = part(a, x0), part(b, p)
		if ka is None or kb is None:
			und = show(t, 4)
		elif ka != j or kb != j:
			ck.bad('product', 'slices', 'factor %d is asked for the distance along coordinates of another factor: %s' % (j, show(t, 4)))
			return
		seen.add(j)
	if und:
		ck.unknown('product', 'slices', und)
		return
	ck.verdict('product', 'slices', seen == {0, 1, 2}, 'the distance of factors %s is used of 3' % sorted(seen))
	# the smallest
	E = SignEval(nf, [], {}, I=I)
	verdict, det = True, ''
	try:
		for combo in itertools.product((0, 1, 2), repeat=3):
			E = SignEval(nf, [], {}, I=I)
			vals = [lv(k, 'd%d' % j) for j, k in enumerate(combo)]
			for t in terms:
				E.bind[t] = vals[objs.index(t.args[0])]
			want = vals[0]
			for v in vals[1:]:
				want = ext(want, v, 'min')
			got = E.ev(r)
			if got != want:
				verdict, det = False, 'factors allowing %s give %r' % (vals, got)
				break
	except Undecided as e:
		verdict, det = None, str(e)
	ck.verdict('product', 'smallest', verdict, det or 'minimum over the factors')


def fixed(ck, P):
	for label, want in (('PointDomain', ZERO), ('UnboundedDomain', INF)):
		if label not in K:
			continue
		d = make(P, *K[label])
		hooks(d.I)
		r = d.I.snap(d.I.method(d.obj, 'extent', [x0, p], {}, d.st), d.st)
		nf = NF(DomLeaf(), d.I)
		try:
			got = SignEval(nf, [], {}).ev(r)
		except Undecided as e:
			if label == 'PointDomain':
				ck.unknown('fixed', label, str(e))
				continue
			got = None
		if got is None:
			ck.unknown('fixed', label, show(r, 3))
		else:
			ck.verdict('fixed', label, got == want, '%s.extent is %r' % (label, got))


def hull(ck, P):
	label = 'ConvexHullDomain'
	d = make(P, *K[label])
	hooks(d.I)
	start = len(d.I.events)
	ret = d.I.snap(d.I.method(d.obj, 'extent', [x0, p], {}, d.st), d.st)
	prs = problems(d.I, start)
	if not prs:
		ck.unknown('hull', label, 'no convex problem')
		return
	for pr in prs:
		lf = VarLeaf()
		nf = NF(lf, d.I, var={'u', 'alpha', 'beta'})
		lf.nf = nf
		main = name_vars(lf, pr, ret)
		step = [v for v in lf.vars if any(x.op == 'optval' and x.args[0] is v for x in walk(ret))]
		if len(step) != 1 or pr.sense is None:
			ck.unknown('hull', label, 'step variable not recognised')
			continue
		for v in lf.vars:
			lf.vars[v] = 'beta' if v is step[0] else 'alpha'
		lf.kinds[step[0]] = 's'
		for a, v in pr.inst.args[1]:
			try:
				nf.env = {}
				lf.extra[a] = Lazy(nf, v)
			except (Branch, Vacuous):
				pass
		lf.extra = LazyDict(nf, dict(pr.inst.args[1]), lf.extra)
		R_of = lambda: vec('x0').add(matmul(vec('p'), sc('beta')))
		check_problem(ck, 'hull', label, 'ConvexHullDomain.extent', d, lf, nf, pr, R_of, lambda R: nonneg_fix(lf, fams_at(label, K[label][2], R)), hull='X')
		o = nf.quiet(pr.obj)
		if o is None:
			ck.unknown('hull', label + '.objective', show(pr.obj, 3))
		else:
			r = ratio(canon(o), sc('beta'))
			ck.verdict('hull', label + '.objective', r is not None and (r > 0) == (pr.sense == 'max'), '%s %r' % (pr.sense, o))
		for pc, v in answers(ret):
			if not any(x.op == 'optval' for x in walk(v)):
				ck.verdict('hull', label + '.fallback', True if is_const(v, 0) else None, show(v, 3))
				continue
			q = None
			try:
				nf.env = {}
				q = nf.poly(v)
			except (Branch, Vacuous):
				pass
			if q is None or q.opaque():
				while name_of(v) in ('builtins.float', 'numpy.float64'):
					v = v.args[1][0]
				q = nf.poly(v)
			ck.verdict('hull', label + '.answer', None if q.opaque() else q == sc('beta'), 'returns %r' % q)


class Lazy:
	def __init__(self, nf, v):
		pass


class LazyDict(dict):
	"""parameters stand for the value they carry when the problem is solved"""

	def __init__(self, nf, vals, base):
		self.nf, self.vals = nf, vals

	def get(self, t, default=None):
		v = self.vals.get(t)
		return default if v is None else self.nf.poly(v)


def selftests(ck):
	a, b = atom('a'), atom('b')
	ck.selftest('minimum of two symbols', ext(a, b, 'min') == ext(b, a, 'min') and ext(a, ZERO, 'min') == ZERO and ext(a, INF, 'min') == a)
	ck.selftest('minimum is not maximum', ext(a, b, 'min') != ext(a, b, 'max'))
	ck.selftest('division', mul(ZERO, ZERO, -1) == NAN and mul(a, ZERO, -1) == INF and mul(a, INF, -1) == ZERO)
