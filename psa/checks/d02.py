"""D02: convex problems over a domain impose every constraint and answer in user coordinates."""
from ..terms import *
from ..interp import Interp, AbsRaise, AbsDead
from ..alg import *
from ..nec import Nec, Atoms, constraint_list, disj
from ..member import *
from ..doms import *
from .d01 import families, two_sided, base_letters, cond_letters, skip_ok, WHAT, show_pc, ball


class Problem:
	def __init__(self, sense, obj, cons, inst, pc):
		self.sense, self.obj, self.cons, self.inst, self.pc = sense, obj, cons, inst, pc


def problems(I, start):
	out = []
	for e in I.events[start:]:
		if e['kind'] != 'solve':
			continue
		inst = e['data']
		prob = inst.args[0]
		alts = [((), prob)] if prob.op != 'phi' else [(pc, v) for pc, v in prob.args]
		for pc, p in alts:
			if name_of(p) != 'cvxpy.Problem':
				out.append(Problem(None, None, None, inst, pc))
				continue
			a = p.args[1]
			o = a[0]
			cons = a[1] if len(a) > 1 else dict(p.args[2]).get('constraints', mk('list'))
			oalts = [((), o)] if o.op != 'phi' else list(o.args)
			for opc, oo in oalts:
				sense = {'cvxpy.Minimize': 'min', 'cvxpy.Maximize': 'max'}.get(name_of(oo))
				out.append(Problem(sense, oo.args[1][0] if sense else None, cons, inst, tuple(pc) + tuple(opc)))
	return out


def variables(t):
	return sorted({x for x in walk(t) if x.op == 'alloc' and x.args[0] == 'cvxpy.Variable'}, key=lambda x: x.id)


class VarLeaf(DomLeaf):
	"""optimisation variables: 'u' is the one the answer is computed from, others by role"""

	def __init__(self):
		DomLeaf.__init__(self)
		self.vars = {}      # alloc term -> name
		self.opt = {}       # alloc term -> name, for its optimal value
		self.kinds = {}

	def __call__(self, t):
		if t.op == 'alloc' and t in self.vars:
			return mkl(self.kinds.get(t, 'v'), self.vars[t])
		if t.op == 'optval' and t.args[0] in self.vars:
			return mkl(self.kinds.get(t.args[0], 'v'), self.vars[t.args[0]])
		if t.op == 'index' and self.slice_of is not None:
			i = t.args[1]
			sl = i if i.op == 'slice' else i.args[1] if i.op == 'tuple' and len(i.args) == 2 and full(i.args[0]) and i.args[1].op == 'slice' else None
			if sl is not None and not full(sl):
				p = self.nf.poly(t.args[0])
				for nm in ('u', 'x0', 'p'):
					if p == vec(nm):
						k = self.slice_of(sl)
						if k is not None:
							return vec('%s%s' % (nm, k))
		return DomLeaf.__call__(self, t)


def answers(v):
	"""alternatives of the returned value: (pc, term)"""
	if v is None:
		return []
	return [((), v)] if v.op != 'phi' else list(v.args)


def setup(d, lf, probs, ret, weight_like=True):
	"""name the variables: u = the one in the returned value, alpha = the other vector variable"""
	vs = set()
	for p in probs:
		vs |= set(variables(p.cons)) | set(variables(p.obj))
	inret = {x.args[0] for x in walk(ret) if x.op == 'optval'} if ret is not None else set()
	return vs, inret


def check_problem(ck, rule, label, where, d, lf, nf, prob, R_of, fams_of, own_extra=(), small=(), init=None, alpha='alpha', hull=None):
	"""every family among the constraints; fams_of(R) gives families in terms of the point R"""
	if prob.cons is None:
		ck.unknown(rule, label, '%s: problem not recognised' % where)
		return
	proto = fams_of(vec('u'))

	def canon_cmp(t):
		op, a, b = t.op, t.args[0], t.args[1]

		def fn():
			pa, pb = nf.poly(a), nf.poly(b)
			s = pb.add(pa, -1) if op in ('le', 'lt', 'eq', 'ne') else pa.add(pb, -1)
			if hull:
				s = drop_broadcast(s, alpha, hull)
			f = final(s)
			if f is None:
				raise Mixed()
			R = R_of()
			return Both(f, R)
		try:
			return Cmp(t, op == 'eq', nf.regions(fn, init))
		except TooMany:
			return Cmp(t, op == 'eq', [], 'too many regions')
		except Mixed:
			return Cmp(t, op == 'eq', [], 'mixed selections')
	n = Nec(canon_cmp)
	at = constraint_list(n, prob.cons)
	opq = set()
	for o in at.opaque:
		for x in walk(o):
			if x.op == 'param':
				opq.add(x.args[0])
	for fam, (forms, two, own) in proto.items():
		c = '%s.%s' % (label, fam)
		best, und, close = None, [], []
		halves = [None, None]
		for a, sk in at.d.items():
			if not isinstance(a, Cmp):
				continue
			if a.err:
				if cond_letters(nf, a.term) & own:
					und.append(a)
				continue
			if not base_letters(a.letters()) & own:
				continue
			v, why, regs = agree(a, fam, fams_of, two, small)
			bad = [s for s in sk if not skip_ok(s, own, nf)]
			bad += [tuple(e.items()) for e, p in regs if p is None and not skip_ok(tuple(e.items()), own, nf)]
			if v is True:
				if best is None or len(bad) < len(best[1]):
					best = (a, bad)
			elif v in ('+', '-') and not bad:
				halves[v == '-'] = a
			elif v is None or a.opaque():
				und.append(a)
			else:
				close.append((a, why))
		if best is None and all(halves):
			best = (halves[0], [])
		pl = partial_loop(best[0].term) if best else None
		if best and pl:
			ck.bad(rule, c, '%s: the %s is not imposed for all components: %s' % (where, WHAT[fam], pl))
		elif best and not best[1]:
			ck.ok(rule, c, '%s imposes %r' % (where, best[0]))
		elif best:
			ck.bad(rule, c, '%s imposes the %s only on some paths: not when %s' % (where, WHAT[fam], '; '.join(show_pc(s) for s in best[1][:2])))
		elif close and not und:
			ck.bad(rule, c, '%s: the %s is imposed wrongly: %r (%s)' % (where, WHAT[fam], close[0][0], close[0][1]))
		elif und or opq & own:
			ck.unknown(rule, c, '%s: could not interpret %s' % (where, [show(x.term, 7) if isinstance(x, Cmp) else show(x, 6) for x in (und or list(at.opaque))[:2]]))
		else:
			ck.bad(rule, c, '%s: the %s (%s) is not among the constraints of the problem' % (where, WHAT[fam], ', '.join(sorted(own))))
	return at


class Both:
	"""slack together with the point it constrains"""

	def __init__(self, slack, R):
		self.slack, self.R = slack, R

	def key(self):
		return self.slack.key()

	def letters(self):
		return self.slack.letters()

	def opaque(self):
		return self.slack.opaque()

	def __repr__(self):
		return repr(self.slack)


def posdg(p, forms):
	"""diagonal scalings by (upper - lower) normalisation bounds that occur: known positive"""
	out = []

	def look(x):
		if isinstance(x, tuple):
			if len(x) == 3 and x[0] == 'dg':
				out.append(x[1])
			for y in x:
				look(y)
	for q in [p] + list(forms):
		for k in q.d:
			look(k)
	res = []
	for key in out:
		q = Poly(dict(key))
		up = [c for (s, w), c in q.d.items() if any(l[0] == 'v' and str(l[1]).startswith('nub') for l in w)]
		lo = [c for (s, w), c in q.d.items() if any(l[0] == 'v' and str(l[1]).startswith('nlb') for l in w)]
		if len(q.d) == 2 and len(up) == 1 and len(lo) == 1 and up[0] == -lo[0]:
			e = Poly({((), (('dg', key, 1),)): 1 if up[0] > 0 else -1})
			if e not in res:
				res.append(e)
	return res


def scaled(slack, forms):
	"""the slack and its multiples by positive diagonal scalings"""
	out = [slack]
	try:
		for e in posdg(slack, forms):
			out.append(canon(matmul(e, orient_col(slack))))
	except Exception:
		pass
	return out


def agree(a, fam, fams_of, two, small):
	"""does comparison a impose family fam in every region of some piece of it?"""
	groups = {}
	for env, b in a.regions:
		groups.setdefault(tuple(sorted((k[1], v) for k, v in env.items() if isinstance(k, tuple) and k[0] == 'part')), []).append((env, b))
	res = [agree1(a, [b for _, b in g], fam, fams_of, two, small) + (g,) for g in groups.values()]
	for want in (True, '+', '-', None):
		for r in res:
			if r[0] is want or r[0] == want and want is not None:
				return r
	return res[0] if res else (False, 'vacuous', [])


def agree1(a, regions, fam, fams_of, two, small):
	res = None
	for b in regions:
		if b is None:
			continue
		if b.R is None:
			return None, 'answer not understood'
		forms = fams_of(b.R)[fam][0]
		cands = scaled(without(b.slack, small), forms)
		if two:
			if a.eq:
				if any(ratio(c, canon(f)) is not None for f in forms for c in cands):
					v = True
				else:
					return False, 'different data: %r' % b.slack
			else:
				acc = two_sided(forms)
				if any((ratio(c, f) or 0) > 0 for f in acc for c in cands):
					v = True
				else:
					rs = [r for r in (ratio(c, canon(f)) for f in forms for c in cands) if r is not None]
					if not rs:
						return False, 'different data: %r' % b.slack
					v = '+' if rs[0] > 0 else '-'
		else:
			if a.eq:
				return False, 'imposed as an equality'
			v = None
			why = 'different data: %r' % b.slack
			for f in forms:
				for c in cands:
					r = ratio(c, canon(f))
					if r is None:
						r = ratio(canon(expand_norms(c)), canon(expand_norms(f)))
					if r is None:
						continue
					if r > 0:
						v = True
					else:
						why = 'direction reversed'
			if v is None:
				return False, why
		if res is not None and res != v:
			return False, 'regions disagree'
		res = v
	return (res, None) if res is not None else (False, 'vacuous')


def hullfam(f, R, pre):
	f['hull'] = ([canon(R.add(matmul(transpose(mat(pre + 'X')), vec('alpha')), -1))], True, {pre + 'X', 'alpha'})
	f['hull.nonneg'] = ([vec('alpha')], False, {'alpha'})
	f['hull.sum'] = ([Poly({(((('sum', vec('alpha').key()), 1),), ()): 1}).add(num(1), -1)], True, {'alpha'})


WHAT['hull.nonneg'] = 'nonnegativity of the hull weights'
WHAT['hull.sum'] = 'sum-to-one of the hull weights'


def fams_at(label, names, R, pre=''):
	f = families(label, names, pre=pre)
	out = {}
	for k, (forms, two, own) in f.items():
		if k in ('hull', 'point'):
			continue
		out[k] = (None, two, own)
	X = R
	P = lambda n: pre + n
	if 'lb' in out:
		out['lb'] = ([X.add(vec(P('lb')), -1)], False, {P('lb')})
	if 'ub' in out:
		out['ub'] = ([vec(P('ub')).add(X, -1)], False, {P('ub')})
	if 'ineq' in out:
		out['ineq'] = ([vec(P('b')).add(matmul(mat(P('A')), X), -1)], False, {P('A'), P('b')})
	if 'eq' in out:
		out['eq'] = ([matmul(mat(P('A_eq')), X).add(vec(P('b_eq')), -1)], True, {P('A_eq'), P('b_eq')})
	if 'quad' in out:
		out['quad'] = (ball(mat(P('Ls[k]')), X, vec(P('ys[k]')), sc(P('rhos[k]'))), False, {P('Ls'), P('ys'), P('rhos')})
	if 'chi' in out:
		out['chi'] = (ball(mat('ichol(%s)' % P('cov')), X, vec(P('mean')), Poly({(((('s', 'clip(%s)' % P('truncate')), Fraction(1, 2)),), ()): 1})), False, {P('mean'), P('cov'), P('truncate'), 'ichol(%s)' % P('cov'), 'clip(%s)' % P('truncate')})
	out = {k: ([canon(x) for x in v[0]], v[1], v[2]) for k, v in out.items()}
	if label.startswith('ConvexHull'):
		hullfam(out, X, pre)
	return out


def name_vars(lf, prob, ret):
	"""u: the variable the answer comes from; alpha: another vector variable"""
	vs = set(variables(prob.cons)) | set(variables(prob.obj))
	inret = {x.args[0] for x in walk(ret) if x.op == 'optval'} & vs if ret is not None else set()
	lf.vars.clear()
	main = None
	for v in sorted(vs, key=lambda x: x.id):
		if v in inret and main is None:
			main = v
	if main is None:
		for v in sorted(vs, key=lambda x: x.id):
			main = main or v
	for v in vs:
		lf.vars[v] = 'u' if v is main else 'alpha' if v not in inret else 'u2'
	for v in vs:
		kw = dict(v.args[3]) if len(v.args) > 3 else {}
		if is_const(kw.get('nonneg', FALSE), True):
			lf.nonneg = True
	return main


def queries(label):
	return [('closest_point', [param('x0', 'array')], {'L': param('L', 'array')}),
		('closest_point(default)', [param('x0', 'array')], {}),
		('corner', [param('p', 'array')], {}),
		('constrained_least_squares', [param('LA', 'array'), param('lb0', 'array')], {})]


EXTRA.update({'LA': 'm', 'lb0': 'v'})


def run(ck, P, tier):
	ck.rule('constraint-imposed', 'the convex problem posed by a domain query has, for each constraint family of the domain, a constraint whose normal form (after substituting the answer\'s coordinates) is that family, in the same direction', 60)
	ck.rule('objective', 'the objective of the query, after the same substitution, is the documented one (up to constants and positive factors) with the right sense', 15)
	ck.rule('answer', 'the value returned is the optimal point in the caller\'s coordinates, or the query point itself when it is already inside', 15)
	ck.rule('user-coordinates', 'the constraints built for a point in user coordinates are the declared ones', 10)
	ck.rule('closed-form', 'a closed-form extreme point takes the upper bound where the direction is positive and the lower one where it is negative', 1)
	ck.rule('chebyshev', 'the largest-ball problem leaves a margin of radius times row norm in every inequality and bound and keeps equalities', 2)
	for label, cls, names in KINDS:
		one(ck, P, label, cls, names)
	product(ck, P)
	from . import shape
	shape.programs(ck, P)
	ck.assumptions = ['norm_lb/norm_ub are frozen symbols; D05 relates the coordinate maps to them', 'isinside is D01']
	selftests(ck)


def hooks(I):
	I.hooks['.isinside'] = lambda I, st, a, k: mk('frozenin', a[0], a[1])


def expected_obj(q, R, has_L):
	nf = NF(lambda t: None)
	if q.startswith('closest'):
		P = R.add(vec('x0'), -1)
		if has_L:
			P = matmul(mat('L'), P)
		return 'min', [nf.norm(P), nf.norm(P, 2)]
	if q == 'corner':
		return 'max', [inner(vec('p'), R)]
	P = matmul(mat('LA'), R).add(vec('lb0'), -1)
	return 'min', [nf.norm(P), nf.norm(P, 2)]


def drop_const(p, var):
	return Poly({k: v for k, v in p.d.items() if mentions(k, var)})


def mentions(k, var):
	if isinstance(k, tuple):
		if len(k) >= 2 and k[0] in ('v',) and isinstance(k[1], str) and k[1].rstrip('0123456789') == var:
			return True
		return any(mentions(x, var) for x in k)
	return False


def one(ck, P, label, cls, names):
	for q, args, kw in queries(label):
		d = make(P, label, cls, names)
		hooks(d.I)
		d.I.hooks['.is_linquad_domain'] = lambda I, st, a, k: TRUE
		start = len(d.I.events)
		lf = VarLeaf()
		nf = NF(lf, d.I, var={'u', 'alpha'})
		lf.nf = nf
		try:
			ret = d.I.snap(d.I.method(d.obj, q.split('(')[0], args, dict(kw), d.st), d.st)
		except (AbsRaise, AbsDead) as e:
			ck.unknown('answer', '%s.%s' % (label, q), 'always raises: %s' % getattr(e, 'exc', e))
			continue
		probs = problems(d.I, start)
		con = '%s.%s' % (label, q)
		if not probs:
			direct(ck, label, cls, q, d, lf, nf, ret)
			continue
		for pr in probs:
			init = None
			if label.startswith('Unbounded'):    # no constraint, so no finite normalisation bounds
				init = {mk('finite', const('%s#%s' % (n, d.obj.args[0]))): False for n in ('nlb', 'nub')}
			analyse_query(ck, con, label, names, cls, q, bool(kw), d, lf, nf, pr, ret, init=init)
	for q in ('_build_constraints',):
		user_coords(ck, P, label, cls, names)
	if label.startswith('LinIneq'):
		cheb(ck, P, label, cls, names)


def analyse_query(ck, con, label, names, cls, q, has_L, d, lf, nf, pr, ret, fams=None, init=None, hullX=None):
	main = name_vars(lf, pr, ret)
	rets = [(pc, v) for pc, v in answers(ret) if any(x.op == 'optval' and x.args[0] is main for x in walk(v))]
	others = [(pc, v) for pc, v in answers(ret) if not any(x.op == 'optval' for x in walk(v))]
	if not rets:
		ck.bad('answer', con, '%s.%s does not return the solution of the problem it solves: %s' % (cls, q, show(ret, 4)))
		R_of = lambda: None
	else:
		def R_of():
			ps = [strip_sel(nf.poly(v)) for pc, v in rets]
			return ps[0] if all(p == ps[0] for p in ps) else None
	for pc, v in others:
		good = q.startswith('closest') and frozen_guard(pc, v, nf)
		if good is True:
			continue
		if v.op == 'unk' or good is None:
			ck.unknown('answer', con + '.other', show(v, 4))
		else:
			ck.bad('answer', con + '.other', '%s.%s may return %s, not the optimal point' % (cls, q, show(v, 4)))
	fam_of = fams or (lambda R: nonneg_fix(lf, fams_at(label, names, R)))
	check_problem(ck, 'constraint-imposed', con, '%s.%s' % (cls, q), d, lf, nf, pr, R_of, fam_of, init=init, hull='X' if label.startswith('ConvexHull') else None)
	# objective
	try:
		def fn():
			return Both(canon(objscalar(nf.poly(pr.obj))), R_of())
		regs = nf.regions(fn, init)
	except TooMany:
		ck.unknown('objective', con, 'too many regions')
		return
	verdict, det = True, ''
	for env, b in regs:
		if b is None:
			continue
		if b.R is None or b.slack.opaque():
			verdict, det = None, 'not understood: %r' % b.slack
			break
		sense, exp = expected_obj(q, b.R, has_L)
		got = b.slack
		sgn = 1 if pr.sense == sense else -1 if pr.sense in ('min', 'max') else None
		rs = [ratio(drop_const(got, 'u'), drop_const(canon(e), 'u')) for e in exp]
		rs = [r for r in rs if r is not None]
		if not rs:
			verdict, det = False, 'objective %r, expected %r' % (got, exp[0])
			break
		if sgn is None or rs[0] * sgn < 0:
			verdict, det = False, 'wrong sense: %s of %r' % (pr.sense, got)
			break
	ck.verdict('objective', con, verdict, det or '%s %s' % (pr.sense, regs[0][1]))
	if rets:
		if all(b is None or b.R is not None and not b.R.opaque() for _, b in regs):
			ck.ok('answer', con, 'returns %r' % (regs[0][1].R if regs[0][1] else ''))
		else:
			ck.unknown('answer', con, 'coordinates of the answer not understood')


def nonneg_fix(lf, f):
	if getattr(lf, 'nonneg', False):
		f.pop('hull.nonneg', None)
	return f


def frozen_guard(pc, v, nf):
	"""the query point returned only when the membership test accepted it"""
	nf.env = {}
	nf.memo = {}
	try:
		p = nf.poly(v)
	except Branch:
		return None
	if p != vec('x0'):
		return False if not p.opaque() else None
	return any(c.op == 'frozenin' and pol for c, pol in pc) or False


def direct(ck, label, cls, q, d, lf, nf, ret):
	con = '%s.%s' % (label, q)
	try:
		regs = nf.regions(lambda: final(nf.poly(ret)))
	except TooMany:
		ck.unknown('answer', con, show(ret, 4))
		return
	if q == 'corner':
		sign_ok, und = True, False
		for env, p in regs:
			if p is None:
				continue
			pos = None
			for c, v in env.items():
				if isinstance(c, T) and c.op in ('ge', 'gt', 'lt', 'le') and cond_letters(nf, c) == {'p'} and is_const(c.args[1], 0):
					up = c.op in ('ge', 'gt')
					pos = up == v
			if label.startswith('Point'):
				if p != vec('x'):
					sign_ok = False
				continue
			if p.opaque() or pos is None:
				und = True
			elif p != (vec('ub') if pos else vec('lb')):
				sign_ok = False
		if label.startswith('LogNormal'):
			return
		if not sign_ok:
			ck.bad('closed-form', con, '%s.corner: %s' % (cls, [(show_pc(tuple(e.items())), p) for e, p in regs]))
		elif und:
			ck.unknown('closed-form', con, show(ret, 5))
		else:
			ck.ok('closed-form', con, '%d regions' % len(regs))
		return
	if q.startswith('closest'):
		want = vec('x') if label.startswith('Point') else vec('x0')
		vs = [p for _, p in regs if p is not None]
		if all(p == want for p in vs):
			ck.ok('answer', con, 'closed form')
		elif any(p.opaque() for p in vs):
			ck.unknown('answer', con, show(ret, 5))
		else:
			ck.bad('answer', con, '%s.closest_point returns %r' % (cls, vs[0]))


def user_coords(ck, P, label, cls, names):
	d = make(P, label, cls, names)
	if not P.cls('psdr.' + cls).lookup('_build_constraints'):
		return
	x = param('u', 'array')
	lf = VarLeaf()
	EXTRA['u'] = 'v'
	nf = NF(lf, d.I, var={'u', 'alpha'})
	lf.nf = nf
	try:
		r = d.I.method(d.obj, '_build_constraints', [x], {}, d.st)
	except (AbsRaise, AbsDead):
		return
	r = d.I.snap(r, d.st)
	for v in variables(r):
		lf.vars[v] = 'alpha'
		kw = dict(v.args[3]) if len(v.args) > 3 else {}
		if is_const(kw.get('nonneg', FALSE), True):
			lf.nonneg = True
	pr = Problem('min', const(0), r, None, ())
	check_problem(ck, 'user-coordinates', label, cls + '._build_constraints', d, lf, nf, pr, lambda: vec('u'), lambda R: nonneg_fix(lf, fams_at(label, names, R)), hull='X' if label.startswith('ConvexHull') else None)


def cheb(ck, P, label, cls, names):
	d = make(P, label, cls, names)
	start = len(d.I.events)
	ret = d.I.snap(d.I.method(d.obj, 'chebyshev_center', [], {}, d.st), d.st)
	probs = problems(d.I, start)
	lf = VarLeaf()
	nf = NF(lf, d.I, var={'u'})
	lf.nf = nf
	for pr in probs:
		alts = [(pc, v) for pc, v in answers(ret) if v.op in ('tuple', 'list') and len(v.args) == 2]
		con = label + '.chebyshev_center'
		if not alts:
			ck.unknown('chebyshev', con, 'returned value not a pair')
			continue
		c, r = alts[0][1].args
		vs = set(variables(pr.cons)) | set(variables(pr.obj))
		cv = {x.args[0] for x in walk(c) if x.op == 'optval'}
		rv = {x.args[0] for x in walk(r) if x.op == 'optval'}
		lf.vars.clear()
		for v in vs:
			lf.vars[v] = 'u' if v in cv else 'rad'
			lf.kinds[v] = 'v' if v in cv else 's'
		if len(cv) != 1 or len(rv) != 1 or cv == rv:
			ck.bad('chebyshev', con, 'centre and radius are not the two unknowns of the problem: %s' % show(ret, 4))
			continue
		nrm = NF(lambda t: None)

		def fams(R):
			rad = sc('rad')
			f = fams_at(label, names, R)
			f['lb'] = ([f['lb'][0][0].add(rad, -1)],) + f['lb'][1:]
			f['ub'] = ([f['ub'][0][0].add(rad, -1)],) + f['ub'][1:]
			f['ineq'] = ([f['ineq'][0][0].add(matmul(nrm.norm(mat('A')), rad), -1)],) + f['ineq'][1:]
			return f

		def R_of():
			return strip_sel(nf.poly(c))
		check_problem(ck, 'chebyshev', con, cls + '.chebyshev_center', d, lf, nf, pr, R_of, fams)
		try:
			o = [p for _, p in nf.regions(lambda: canon(nf.poly(pr.obj)))]
			good = all(p == sc('rad') for p in o) and pr.sense == 'max' or all(p == sc('rad').scale(-1) for p in o) and pr.sense == 'min'
			ck.verdict('chebyshev', con + '.objective', good, '%s %s' % (pr.sense, o))
			rr = [p for _, p in nf.regions(lambda: canon(nf.poly(r)))]
			ck.verdict('chebyshev', con + '.answer', all(p == sc('rad') for p in rr), 'radius %s' % rr)
		except TooMany:
			ck.unknown('chebyshev', con + '.objective', '')


def product(ck, P):
	kinds = [('LinQuadDomain', KINDS[0][2]), ('LinIneqDomain', KINDS[1][2]), ('BoxDomain', KINDS[2][2])]
	for q, args, kw in queries('product') + [('_build_constraints', [param('u', 'array')], {})]:
		I = Interp(P)
		frozen(I)
		hooks(I)
		I.hooks['.is_linquad_domain'] = lambda I, st, a, k: TRUE
		st = None
		parts = []
		for j, (cls, names) in enumerate(kinds):
			m = make(P, cls, cls, names, I=I, st=st, prefix='p%d.' % j)
			st = m.st
			parts.append((m, cls, names))
		obj, st = I.new(P.cls('psdr.TensorProductDomain'), (), {'domains': mk('list', *[m.obj for m, _, _ in parts])}, st, tag='prod')
		lf = VarLeaf()
		nf = NF(lf, I, var={'u', 'u0', 'u1', 'u2'})
		lf.nf = nf
		cum = [num(0)]
		for m, _, _ in parts:
			cum.append(cum[-1].add(nf.poly(I.method(m.obj, '__len__', [], {}, st))))
		wrong = []

		def slice_of(sl, cum=cum, nf=nf, wrong=wrong):
			lo = num(0) if sl.args[0] is NONE else nf.poly(sl.args[0])
			hi = cum[-1] if sl.args[1] is NONE else nf.poly(sl.args[1])
			for k in range(3):
				if lo == cum[k] and hi == cum[k + 1]:
					return k
			return None
		lf.slice_of = slice_of
		start = len(I.events)
		d = Made('Product', I, obj, st, {})
		if q == '_build_constraints':
			r = I.snap(I.method(obj, q, args, {}, st), st)
			EXTRA['u'] = 'v'
			for j, (m, cls, names) in enumerate(parts):
				pr = Problem('min', const(0), r, None, ())
				check_problem(ck, 'user-coordinates', 'Product.%d.%s' % (j, cls), 'TensorProductDomain.' + q, d, lf, nf, pr, (lambda j=j: vec('u%d' % j)), (lambda R, cls=cls, names=names, j=j: fams_at(cls, names, R, 'p%d.' % j)), init={('part', 3): j})
			continue
		try:
			ret = I.snap(I.method(obj, q.split('(')[0], args, dict(kw), st), st)
		except (AbsRaise, AbsDead) as e:
			ck.unknown('answer', 'Product.%s' % q, 'always raises')
			continue
		for pr in problems(I, start):
			main = name_vars(lf, pr, ret)
			rets = [(pc, v) for pc, v in answers(ret) if any(x.op == 'optval' and x.args[0] is main for x in walk(v))]
			for j, (m, cls, names) in enumerate(parts):
				def R_of(rets=rets, j=j):
					ps = [strip_sel(nf.poly(v)) for pc, v in rets]
					return ps[0] if ps and all(p == ps[0] for p in ps) else None
				check_problem(ck, 'constraint-imposed', 'Product.%d.%s.%s' % (j, cls, q), 'TensorProductDomain.' + q, d, lf, nf, pr, R_of,
					(lambda R, cls=cls, names=names, j=j: fams_at(cls, names, R, 'p%d.' % j)), init={('part', 3): j})


def selftests(ck):
	nf = NF(lambda t: None)
	R = matmul(dg(vec('nub').add(vec('nlb'), -1)).scale(Fraction(1, 2)), vec('u')).add(vec('c'))
	good = R.add(vec('lb'), -1)
	ck.selftest('substituted bound recognised', ratio(canon(good), canon(R.add(vec('lb'), -1))) == 1)
	ck.selftest('missing shift flagged', ratio(canon(matmul(dg(vec('nub').add(vec('nlb'), -1)).scale(Fraction(1, 2)), vec('u')).add(vec('lb'), -1)), canon(good)) is None)
