"""O01: the iterative optimisers never move to a worse or forbidden point and stay within their iteration limits.

Each optimiser is interpreted abstractly with a scripted objective: points, directions and Jacobians are formulas, the
objective of the k-th distinct point is given by the scenario (better, worse, equal, not a number, step refused, outside
the objective's bounds, solve failed).  The claim is about where the iteration may go, whatever the functions are."""
from fractions import Fraction as Fr
from ..loader import AnalysisBroken
from .. import arr
from ..arr import Interp, Fn, Obj, Arr, Cannot, Raised, CELL, symbols, to_arr, poly, num, dot, solved, decision
from ..formula import Poly, ZERO, ONE, equal, TooBig, Undefined
from ..conv import Conv, matrices, unknowns, value
from .f02 import Values
from .r01 import constraints, objective, Stand, tried, FAIL

RULES = [
	('descent', 'the point returned is the start or a point whose objective is no larger', 50),
	('monotone', 'every iterate the derivative is taken at has an objective no larger than the one before', 50),
	('taken', 'a clear improvement is not thrown away', 8),
	('bounds', 'a point outside the given bounds of the objective is never accepted', 12),
	('limit', 'no more outer iterations are made than asked for', 40),
	('inner', 'no more trial steps are made in one iteration than asked for', 30),
	('model', 'each step minimises the named norm of the linearised objective', 8),
	('step', 'each step is constrained by the domain, the linearised constraints and the constraints on the search direction', 16),
	('status', 'convergence is reported only when the gradient at the returned point is small', 12),
	('pair', 'the line search returns a point together with its own objective', 8),
]
INF = arr.math.inf
BAD = 'refused'


class Script:
	"""an objective known only at the points visited: the k-th new point gets the k-th value"""

	def __init__(self, vals, form=None):
		self.vals, self.seen, self.log, self.form = vals, {}, [], form or (lambda v: Arr((2,), [Poly.const(Fr(v)), ZERO]))
		self.jac = []

	def key(self, x):
		return tuple(round(value(poly(v), CELL[0]), 9) for v in to_arr(x).flat)

	def at(self, x):
		k = self.key(x)
		if k not in self.seen:
			self.seen[k] = self.vals[min(len(self.seen), len(self.vals) - 1)]
		return self.seen[k]

	def f(self, x, *a, **k):
		v = self.at(x)
		self.log.append(('f', self.key(x)))
		if v == BAD:
			raise Raised('BadStep')
		return self.form(v)

	def derivative(self, make):
		def go(x):
			k = self.key(x)
			self.log.append(('jac', k))
			self.jac.append(k)
			return make(len(self.jac))
		return go

	def known(self, x):
		return self.seen.get(self.key(x))


def size(v):
	return INF if v == BAD else abs(v) if not isinstance(v, tuple) else None


SCRIPTS = [
	('improves', [5, 4, 3, 2, 1]),
	('worsens', [5, 6, 7, 8, 9]),
	('overshoots, then improves', [5, 6, 4, 3, 2]),
	('stays equal', [5, 5, 5, 5]),
	('step refused, then improves', [5, BAD, 3, 2]),
	('improves, then worsens', [5, 2, 3, 4, 6, 8]),
	('improves, then is refused', [5, 2, BAD, BAD, BAD]),
	('goes up and down', [5, 9, 8, 4, 7, 3, 6, 2]),
	('improves once, then up and down', [5, 4, 9, 4, 3, 9, 9, 2]),
	('always refused', [5, BAD]),
	('barely worsens', [5, Fr(5004, 1000), Fr(5003, 1000), Fr(5002, 1000), Fr(5001, 1000)]),
	('improves, then barely worsens', [5, 3, Fr(3003, 1000), Fr(3002, 1000), Fr(3001, 1000), Fr(30005, 10000)]),
]


def judge(ck, con, S, x, measure=size):
	"""where did the iteration go"""
	start = measure(S.vals[0])
	k = S.key(x)
	first = next(iter(S.seen))
	got = S.seen.get(k)
	if got is None:
		ck.bad('descent', con, 'returns a point whose objective was never computed')
	else:
		ck.verdict('descent', con, k == first or measure(got) <= start, 'start %s, returned %s' % (start, measure(got)))
	vals = [measure(S.seen[j]) if j in S.seen else None for j in S.jac] + ([measure(got)] if got is not None else [])
	if None in vals:
		return ck.unknown('monotone', con, 'derivative taken at a point of unknown objective')
	worse = [i for i in range(1, len(vals)) if vals[i] > vals[i - 1]]
	ck.verdict('monotone', con, not worse, 'objective at the iterates: %s' % ', '.join(str(v) for v in vals))


def trials(S):
	"""number of objective values computed between two derivatives, for each iteration"""
	out, n = [], None
	for kind, k in S.log:
		if kind == 'jac':
			if n is not None:
				out.append(n)
			n = 0
		elif n is not None:
			n += 1
	if n is not None:
		out.append(n)
	return out


def newton(ck, P):
	f = P.func('psdr.gn.gauss_newton')
	for name, vals in SCRIPTS:
		for maxiter in (1, 3):
			con = 'gauss_newton: objective %s, maxiter %d' % (name, maxiter)

			def go():
				S = Script(vals)
				CELL[0] = Values()
				solves = []

				def solver(F, r):
					solves.append(r)
					return (symbols('step%d' % len(solves), (2,)), Arr((2,), [Poly.const(2), ONE]))
				I = Interp(P, {'builtins.print': lambda I, a, k: None}, steps=400000)
				x, info = I.call(Fn(f, f.node, None, None), [S.f, S.derivative(lambda n: symbols('J%d' % n, (2, 2))), symbols('x', (2,))], {'gnsolver': solver, 'maxiter': maxiter})
				judge(ck, con, S, x)
				ck.verdict('limit', con, len(solves) <= maxiter, '%d steps' % len(solves))
				if name == 'improves':
					ck.verdict('taken', con, S.key(x) != next(iter(S.seen)), 'the start is not returned')
				info = num(info)
				if info == 0:
					ck.bad('status', con, 'convergence reported with a large gradient')
				else:
					ck.ok('status', con, 'status %s' % info)
			tried(ck, 'descent', con, go)
	# a line search that returns a worse point
	for name, worse, small in (('a worse point', 9, False), ('a worse point where the gradient would vanish', 9, True), ('an equal point', 5, False)):
		con = 'gauss_newton: line search returns %s' % name

		def go():
			S = Script([5, worse], lambda v: Arr((2,), [Poly.const(Fr(v)) if v == v else v, ZERO]))
			CELL[0] = Values()

			def form(v):
				if v != 5 and small:
					return Arr((2,), [ZERO, Poly.const(Fr(v))])
				return Arr((2,), [Poly.const(Fr(v)) if v == v else v, ZERO])
			S.form = form

			def search(f, g, p, x, **kw):
				y = arr.elementwise(lambda a, b: poly(a) + poly(b), x, symbols('away', (2,)))
				return y, ONE, f(y)
			I = Interp(P, {'builtins.print': lambda I, a, k: None}, steps=200000)
			J = lambda n: Arr((2, 2), [Poly.const(3), ONE, ZERO, ZERO]) if small else symbols('J', (2, 2))
			x, info = I.call(Fn(f, f.node, None, None), [S.f, S.derivative(J), symbols('x', (2,))], {'gnsolver': lambda F, r: (symbols('step', (2,)), Arr((2,), [Poly.const(2), ONE])), 'maxiter': 2, 'linesearch': search})
			judge(ck, con, S, x)
			ck.verdict('status', con, num(info) != 0, 'status %s' % num(info))
		tried(ck, 'descent', con, go)
	# the gradient is reported small only when it is
	for name, jac, r, want in (('vanishing gradient', [0, 0, 0, 0], 5, True), ('orthogonal residual', [0, 0, 2, 1], 5, True), ('large gradient', [2, 1, 0, 1], 5, False)):
		con = 'gauss_newton: %s' % name

		def go():
			S = Script([5, 6])
			CELL[0] = Values()
			I = Interp(P, {'builtins.print': lambda I, a, k: None}, steps=200000)
			x, info = I.call(Fn(f, f.node, None, None), [S.f, S.derivative(lambda n: Arr((2, 2), [Poly.const(v) for v in jac])), symbols('x', (2,))], {'gnsolver': lambda F, r: (symbols('step', (2,)), Arr((2,), [Poly.const(2), ONE])), 'maxiter': 4})
			ck.verdict('status', con, (num(info) == 0) == want, 'status %s' % num(info))
		tried(ck, 'status', con, go)
	# the step of the default solver
	con = 'gauss_newton: default step'

	def go():
		S = Script([5, 4, 3])
		CELL[0] = Values()
		seen = []

		def lstsq(I, args, kw):
			A, b = to_arr(args[0]), to_arr(args[1])
			seen.append((A, b))
			return (symbols('step%d' % len(seen), (A.shape[1],)), None, 2, Arr((2,), [Poly.const(2), ONE]))
		I = Interp(P, {'builtins.print': lambda I, a, k: None, 'scipy.linalg.lstsq': lstsq, 'numpy.linalg.lstsq': lstsq}, steps=200000)
		I.call(Fn(f, f.node, None, None), [S.f, S.derivative(lambda n: symbols('J%d' % n, (2, 2))), symbols('x', (2,))], {'maxiter': 2})
		if not seen:
			raise Cannot('no least squares')
		A, b = seen[0]
		J = symbols('J1', (2, 2))
		same = all(equal(poly(p), poly(q)) for p, q in zip(A.flat, J.flat)) and equal(poly(b.flat[0]), Poly.const(-5)) and equal(poly(b.flat[1]), ZERO)
		flip = all(equal(poly(p), -poly(q)) for p, q in zip(A.flat, J.flat)) and equal(poly(b.flat[0]), Poly.const(5))
		wrong = all(equal(poly(p), poly(q)) for p, q in zip(A.flat, J.flat)) and equal(poly(b.flat[0]), Poly.const(5))
		ck.verdict('model', con, True if same or flip else False if wrong else None, 'least squares of Jacobian times step against minus the residual')
	tried(ck, 'model', con, go)


def search(ck, P):
	f = P.func('psdr.gn.linesearch_armijo')
	for name, vals in SCRIPTS:
		for maxiter in (2, 6):
			con = 'linesearch_armijo: objective %s, maxiter %d' % (name, maxiter)

			def go():
				S = Script(vals, lambda v: Poly.const(Fr(v)))
				CELL[0] = Values()
				g = symbols('g', (2,))
				p = Arr((2,), [-x for x in g.flat])
				I = Interp(P, {}, steps=200000)
				x0 = symbols('x', (2,))
				x, alpha, fx = I.call(Fn(f, f.node, None, None), [S.f, g, p, x0], {'maxiter': maxiter, 'ftol': Poly.const(Fr(1, 10000))})
				judge(ck, con, S, x)
				k = S.key(x)
				ck.verdict('pair', con, k in S.seen and S.seen[k] != BAD and abs(value(poly(fx), CELL[0]) - S.seen[k]) < 1e-9, 'value %s' % S.seen.get(k))
				a = value(poly(alpha), CELL[0])
				moved = tuple(round(value(poly(u) + Poly.const(Fr(a).limit_denominator(10 ** 9)) * poly(v), CELL[0]), 6) for u, v in zip(x0.flat, p.flat))
				ck.verdict('pair', con + ', step length', moved == tuple(round(t, 6) for t in k), 'step %g' % a)
				n = sum(1 for t in S.log if t[0] == 'f') - 1
				ck.verdict('inner', con, n <= maxiter, '%d trials' % n)
				if name in ('improves', 'improves, then worsens'):
					ck.verdict('taken', con, k != next(iter(S.seen)), 'the start is not returned')
			tried(ck, 'descent', con, go)


class Steps(Conv):
	"""subproblems with a scripted outcome; the solution is a fresh direction each time, the smallest predicted change is negative"""

	def __init__(self, status=None):
		Conv.__init__(self)
		self.script, self.count = status, 0

	def hooks(self):
		h = Conv.hooks(self)
		make = h['cvxpy.Problem']

		def Problem(I, args, kw):
			o = make(I, args, kw)
			rec = self.problems[-1]
			inner = o.attrs['solve']

			def solve(*a, **k):
				s = self.script(self.count) if self.script else 'optimal'
				self.count += 1
				rec['index'] = self.count
				if s == 'error':
					rec['solved'] = True
					raise Raised('SolverError')
				self.status = s
				return inner(*a, **k)
			o.attrs['solve'] = solve
			return o
		h['cvxpy.Problem'] = Problem
		h['builtins.print'] = lambda I, a, k: None
		return h


def radius(c):
	"""a trust region constraint"""
	l, r = c.attrs['l'], c.attrs['r']
	if c.attrs['op'] in ('Gt', 'GtE'):
		l, r = r, l
	return isinstance(l, Obj) and l.cls == 'atom' and l.attrs['fn'] in ('norm2', 'norm1', 'norminf') and not isinstance(r, Obj)


# objective vectors for the norm: the scripted value v is the norm
FORMS = {
	1: lambda v: Arr((2,), [Poly.const(Fr(v)) * Poly.const(Fr(1, 4)), Poly.const(-Fr(v) * Fr(3, 4))]),
	2: lambda v: Arr((2,), [Poly.const(Fr(v) * Fr(3, 5)), Poly.const(-Fr(v) * Fr(4, 5))]),
	INF: lambda v: Arr((2,), [Poly.const(-Fr(v)), Poly.const(Fr(v) / 3)]),
	'hinge': lambda v: Arr((3,), [Poly.const(Fr(v) / 4), Poly.const(-3 * Fr(v) - 40), Poly.const(Fr(v) * 3 / 4)]),
	None: lambda v: Poly.const(Fr(v)),
}
# every step moves: distinct values for each solved direction
HAIR = [('worse by a hair', [5, 5 + Fr(5, 10**11), 5 + Fr(4, 10**11), 5 + Fr(3, 10**11)])]
NUMERIC = [(n, v) for n, v in SCRIPTS if BAD not in v]


def rows(norm):
	return 3 if norm == 'hinge' else 2


def slp(P, vals, norm=2, kw=None, status=None, form=None, domain=None, maxiter=3, bt=4):
	f = P.func('psdr.seqlp.sequential_lp')
	S = Script(vals, form or FORMS[norm])
	cv = Steps(status)
	CELL[0] = Values()
	I = Interp(P, cv.hooks(), steps=600000)
	shape = (rows(norm), 3) if norm is not None else (3,)
	opts = {'norm': norm, 'maxiter': maxiter, 'bt_maxiter': bt}
	opts.update(kw or {})
	if domain is not None:
		opts['domain'] = domain(I)
	x = I.call(Fn(f, f.node, None, None), [S.f, symbols('x', (3,)), S.derivative(lambda n: symbols('J%d' % n, shape))], opts)
	return S, cv, x


def linear(ck, P):
	for norm in (1, 2, INF, 'hinge', None):
		# (the 2-norm of such values is not compared: the difference is below what the formulas resolve)
		for name, vals in NUMERIC + (HAIR if norm != 2 else []):
			con = 'sequential_lp: norm %s, objective %s' % (norm, name)

			def go():
				if norm is None:
					vals_ = [v - 7 for v in vals]
					S, cv, x = slp(P, vals_, norm)
					judge(ck, con, S, x, lambda v: v)
				else:
					S, cv, x = slp(P, vals, norm)
					judge(ck, con, S, x)
				n = len(S.jac)
				ck.verdict('limit', con, n <= 4, '%d derivatives for 3 iterations' % n)
				ck.verdict('inner', con, max(trials(S)) <= 4, 'at most %d trials of 4' % max(trials(S)))
				if name == 'improves':
					ck.verdict('taken', con, S.key(x) != next(iter(S.seen)), 'the start is not returned')
			tried(ck, 'descent', con, go)
	# values on which the norms disagree: progress is measured in the norm asked for
	measures = {1: lambda v: sum(abs(t) for t in v), 2: lambda v: float(sum(t * t for t in v)) ** .5, INF: lambda v: max(abs(t) for t in v), 'hinge': lambda v: sum(max(t, 0) for t in v)}
	triple = lambda v: Arr((len(v),), [Poly.const(Fr(t)) for t in v])
	for norm in (1, 2, INF, 'hinge'):
		for name, vals in (('flat, then steep', [(3, 3, 0), (5, 0, 0), (0, 5, 0), (5, 0, 0)]), ('steep, then flat', [(6, 0, 0), (5, 5, 5), (5, 5, 5)]), ('falls below zero', [(2, 2, 0), (-9, 1, 0), (-9, 1, -9)]),
				('in between', [(4, 4, 0), (0, 5, 0), (Fr(9, 2), 1, 1), (1, Fr(9, 2), 1)])):
			con = 'sequential_lp: norm %s, %s' % (norm, name)

			def go():
				if norm != 'hinge':
					vals_ = [v[:2] for v in vals]
				else:
					vals_ = vals
				S, cv, x = slp(P, vals_, norm, form=triple)
				m = measures[norm]
				judge(ck, con, S, x, m)
				if m(vals_[1]) < m(vals_[0]) * .99:
					ck.verdict('taken', con, S.key(x) != next(iter(S.seen)), 'the start is not returned')
			tried(ck, 'descent', con, go)
	for maxiter in (1, 2):
		con = 'sequential_lp: maxiter %d' % maxiter

		def go():
			S, cv, x = slp(P, [20 - i for i in range(20)], 2, maxiter=maxiter)
			n = len([1 for t in S.log if t[0] == 'f']) - 1
			ck.verdict('limit', con, n <= maxiter, '%d steps' % n)
			judge(ck, con, S, x)
		tried(ck, 'limit', con, go)
	# the bounds of the objective
	table = [
		('lower bound, better but below it', {'obj_lb': -1}, [(5, 0), (1, -3), (2, -4)]),
		('upper bound, better but above it', {'obj_ub': 1}, [(1, -5), (2, 0), (3, -1)]),
		('lower bound for each entry', {'obj_lb': [0, -9]}, [(5, 0), (-1, 0), (-2, 1)]),
		('upper bound for each entry', {'obj_ub': [9, 0]}, [(0, -5), (0, 1), (1, 2)]),
		('both bounds, better but below', {'obj_lb': -1, 'obj_ub': 6}, [(5, 0), (1, -2), (2, -3)]),
		('both bounds, better but above', {'obj_lb': -6, 'obj_ub': 1}, [(-5, 0), (2, 0), (3, 0)]),
		('lower bound, better but below it in the end', {'obj_lb': -1}, [(5, 0), (4, 0), (1, -3), (2, -3)]),
	]
	inside = lambda v, kw: all((not isinstance(lo, list) or t >= lo[i]) and (isinstance(lo, list) or t >= lo) for lo in [kw.get('obj_lb', -INF)] for i, t in enumerate(v)) and all((not isinstance(hi, list) or t <= hi[i]) and (isinstance(hi, list) or t <= hi) for hi in [kw.get('obj_ub', INF)] for i, t in enumerate(v))
	pair = lambda v: Arr((2,), [Poly.const(Fr(t)) for t in v])
	for name, kw, vals in table:
		for norm in (2, 1, INF):
			con = 'sequential_lp: norm %s, %s' % (norm, name)

			def go():
				k = {n: (Arr((2,), [Poly.const(t) for t in v]) if isinstance(v, list) else v) for n, v in kw.items()}
				S, cv, x = slp(P, vals, norm, k, form=pair)
				out = [j for j in S.jac + [S.key(x)] if not inside(S.seen.get(j, (0, 0)), kw)]
				ck.verdict('bounds', con, not out, 'iterates with objective %s' % ', '.join(str(S.seen.get(j)) for j in S.jac))
			tried(ck, 'bounds', con, go)
	con = 'sequential_lp: better and within the bounds'

	def go():
		S, cv, x = slp(P, [(5, 0), (1, 0), (3, 3)], 2, {'obj_lb': -1, 'obj_ub': 9}, form=pair)
		ck.verdict('taken', con, S.key(x) != next(iter(S.seen)), 'the start is not returned')
	tried(ck, 'taken', con, go)
	# solves that fail
	for name, st in (('first solve unbounded', lambda n: 'unbounded' if n == 0 else 'optimal'), ('solver error at first', lambda n: 'error' if n == 0 else 'optimal'), ('infeasible', lambda n: 'infeasible'), ('solver always fails', lambda n: 'error')):
		for sname, vals in (NUMERIC[0], NUMERIC[1]):
			con = 'sequential_lp: %s, objective %s' % (name, sname)

			def go():
				S, cv, x = slp(P, vals, 2, status=st)
				judge(ck, con, S, x)
				ck.verdict('limit', con, len(S.jac) <= 4, '%d derivatives for 3 iterations' % len(S.jac))
				if name in ('infeasible', 'solver always fails'):
					ck.verdict('step', con, S.key(x) == next(iter(S.seen)), 'no step without a solution')
			tried(ck, 'descent', con, go)
	# what is solved
	box = lambda I: I.new(P.cls('psdr.BoxDomain'), [Arr((3,), [Poly.const(-9)] * 3), Arr((3,), [Poly.const(9)] * 3)], {})
	cases = [
		('no constraints', {}, None),
		('domain', {}, box),
		('lower bound of the objective', {'obj_lb': -8}, None),
		('upper bound of the objective', {'obj_ub': 8}, None),
		('constraint above a bound', {'constraints_lb': [2], 'constraints_ub': [INF]}, None),
		('constraint below a bound', {'constraints_lb': [-INF], 'constraints_ub': [3]}, None),
		('constraint between bounds', {'constraints_lb': [-2], 'constraints_ub': [3]}, box),
		('search constraint', {'search': True}, box),
	]
	for name, kw, dom, again in [c + (False,) for c in cases] + [c + (True,) for c in cases]:
		for norm in (2, INF) if name != 'no constraints' else (1, 2, INF, 'hinge', None):
			con = 'sequential_lp: norm %s, %s%s' % (norm, name, ', tried again' if again else '')

			def go():
				opts = dict(kw)
				g = symbols('cg', (3,))
				c = Poly.var('c')
				if 'constraints_lb' in opts:
					opts['constraints'] = [lambda x: c]
					opts['constraint_grads'] = [lambda x: g]
				if opts.pop('search', None):
					def sc(x, p):
						return [Obj('constraint', {'op': 'Eq', 'l': dot(symbols('sd', (3,)), p), 'r': ZERO})]
					opts['search_constraints'] = sc
				S, cv, x = slp(P, [5, 8, 7, 6] if again else [5, 4, 3], norm, opts, domain=dom, maxiter=1, bt=3 if again else 1)
				ps = [p for p in cv.problems if p['solved']]
				if not ps:
					raise Cannot('nothing solved')
				p = variable(cv)
				J = symbols('J1', (rows(norm), 3)) if norm is not None else symbols('J1', (3,))
				fx = FORMS[norm](5)
				lin = to_arr(arr.elementwise(lambda a, b: poly(a) + poly(b), fx, dot(J, p)))
				exp = []
				xs = symbols('x', (3,))
				if dom:
					for i in range(3):
						y = poly(xs.flat[i]) + poly(p.flat[i])
						exp += [('nonneg', [y + Poly.const(9)], 1), ('nonneg', [Poly.const(9) - y], 1)]
				for t in lin.flat:
					if 'obj_lb' in kw:
						exp.append(('nonneg', [poly(t) - Poly.const(kw['obj_lb'])], 1))
					if 'obj_ub' in kw:
						exp.append(('nonneg', [Poly.const(kw['obj_ub']) - poly(t)], 1))
				if 'constraints_lb' in kw:
					y = c + poly(dot(g, p))
					lo, hi = kw['constraints_lb'][0], kw['constraints_ub'][0]
					if lo > -INF:
						exp.append(('nonneg', [y - Poly.const(lo)], 1))
					if hi < INF:
						exp.append(('nonneg', [Poly.const(hi) - y], 1))
				if kw.get('search'):
					exp.append(('zero', [poly(dot(symbols('sd', (3,)), p))], 1))
				if not again:
					took(ck, con, S, p)
				for n, pr in enumerate(ps):
					if any(radius(q) for q in pr['constraints'] if isinstance(q, Obj)) or not again or n == 0:
						which = con if n == 0 else '%s, trial %d' % (con, n + 1)
						model(ck, which, pr, norm, lin)
						# a comparison without the direction in it restrains nothing
						constraints(ck, 'step', which, dict(pr, constraints=[q for q in pr['constraints'] if isinstance(q, Obj) and not radius(q)]), exp, CELL[0])
			tried(ck, 'step', con, go)


def took(ck, con, S, p):
	"""along the default trajectory the first point tried is the start plus the direction found"""
	pts = list(S.seen)
	if len(pts) < 2:
		return
	step = [value(poly(t), CELL[0]) for t in to_arr(solved(p)).flat]
	ck.verdict('step', con + ', the step', all(abs(b - a - d) < 1e-6 for a, b, d in zip(pts[0], pts[1], step)), 'the first point tried is the start plus the direction')


def variable(cv):
	"""the direction of the first problem"""
	names = []
	for p in cv.problems[:1]:
		for c in [p['objective']]:
			names = sorted(found(c))
	base = sorted({n.split('[')[0] for n in names})
	if len(base) != 1:
		raise Cannot('direction not identified')
	k = len(names)
	return Arr((3,), [Poly.var('%s[%d]' % (base[0], i)) for i in range(3)])


def found(v):
	if isinstance(v, Obj):
		out = set()
		for a in v.attrs.values():
			out |= found(a)
		return out
	if isinstance(v, Poly):
		return set(unknowns([v]))
	if isinstance(v, Arr):
		return set(unknowns([poly(t) for t in v.flat]))
	return set()


def model(ck, con, pr, norm, lin):
	if norm is None:
		g = pr['objective']
		e = [poly(t) for t in to_arr(g.attrs['expr']).flat]
		return ck.verdict('model', con, g.attrs['sense'] == 'min' and len(e) == 1 and equal(e[0], poly(lin.flat[0])) or None, 'the linearised objective')
	try:
		kind, sense, a = objective(pr)
	except Cannot as e:
		return ck.unknown('model', con, str(e))
	same = [s for s in (1, -1) if len(a.flat) == len(lin.flat) and all(equal(poly(x), poly(y) * Poly.const(s)) for x, y in zip(a.flat, lin.flat))]
	if kind != norm or sense != 'min':
		ck.bad('model', con, 'the %s-norm is %simised' % (kind, sense))
	elif same and (norm != 'hinge' or 1 in same):
		ck.ok('model', con, '%s-norm of the linearised objective' % (norm,))
	else:
		ck.verdict('model', con, False if same else None, 'the linearised objective')


class MaxSteps(Steps):
	"""the predicted change (first or scalar unknown of the objective) is given by the scenario"""

	def __init__(self, status=None, change=-1.):
		Steps.__init__(self, status)
		self.change = change

	def hooks(self):
		h = Steps.hooks(self)
		make = h['cvxpy.Problem']

		def Problem(I, args, kw):
			o = make(I, args, kw)
			for n in found(self.problems[-1]['objective']):
				CELL[0][n.replace('?', '!')] = self.change
				for t in unsolved(n):
					CELL[0][t] = self.change
			return o
		h['cvxpy.Problem'] = Problem
		return h


def unsolved(n):
	out = set()
	for a in [solved(Poly.var(n))]:
		out |= {t[1] for t in poly(a).atoms() if t[0] == 'v'}
	return out


def maxmin(ck, P):
	f = P.func('psdr.minimax.minimax')

	def runit(vals, status=None, change=-1., trust=True, maxiter=3, bt=4, opts=None):
		S = Script(vals, lambda v: Arr((3,), [Poly.const(Fr(v) - 4), Poly.const(Fr(v)), Poly.const(Fr(v) - 1)]))
		cv = MaxSteps(status, change)
		CELL[0] = Values()
		fun = Stand('fun', {'@call': S.f, 'grad': S.derivative(lambda n: symbols('J%d' % n, (3, 2)))})
		I = Interp(P, cv.hooks(), steps=600000)
		dom = I.new(P.cls('psdr.BoxDomain'), [Arr((2,), [Poly.const(-3)] * 2), Arr((2,), [Poly.const(3)] * 2)], {})
		k = {'domain': dom, 'maxiter': maxiter, 'bt_maxiter': bt, 'trust_region': trust}
		k.update(opts or {})
		x = I.call(Fn(f, f.node, None, None), [fun, symbols('x', (2,))], k)
		return S, cv, x
	for name, vals in NUMERIC:
		for trust in (True, False):
			con = 'minimax: largest objective %s, trust region %s' % (name, trust)

			def go():
				S, cv, x = runit(vals, trust=trust)
				judge(ck, con, S, x, lambda v: v)
				ck.verdict('limit', con, cv.count <= 3, '%d steps' % cv.count)
				ck.verdict('inner', con, max(trials(S)) <= 4, 'at most %d trials of 4' % max(trials(S)))
				if name == 'improves':
					ck.verdict('taken', con, S.key(x) != next(iter(S.seen)), 'the start is not returned')
			tried(ck, 'descent', con, go)
	for name, change, st in (('no predicted decrease', 1., None), ('solver error', -1., lambda n: 'error'), ('solver error later', -1., lambda n: 'error' if n else 'optimal')):
		con = 'minimax: %s' % name

		def go():
			S, cv, x = runit([5, 4, 3, 2], st, change)
			judge(ck, con, S, x, lambda v: v)
			ck.verdict('limit', con, cv.count <= 3, '%d steps' % cv.count)
		tried(ck, 'descent', con, go)
	for trust in (True, False):
		for sc in (False, True):
			con = 'minimax: %s trust region%s' % ('with' if trust else 'without', ', search constraint' if sc else '')

			def go():
				opts = {'search_constraints': lambda x, p: [Obj('constraint', {'op': 'Eq', 'l': dot(symbols('sd', (2,)), p), 'r': ZERO})]} if sc else {}
				S, cv, x = runit([5, 4, 3], trust=trust, maxiter=1, bt=1, opts=opts)
				pr = [p for p in cv.problems if p['solved']][0]
				t = sorted(found(pr['objective']))
				if len(t) != 1 or pr['objective'].attrs['sense'] != 'min':
					raise Cannot('objective not understood')
				T = Poly.var(t[0])
				others = sorted({n for c in pr['constraints'] for n in found(c)} - set(t))
				base = sorted({n.split('[')[0] for n in others})
				if len(base) != 1:
					raise Cannot('direction not identified')
				p = Arr((2,), [Poly.var('%s[%d]' % (base[0], i)) for i in range(2)])
				J, xs = symbols('J1', (3, 2)), symbols('x', (2,))
				fx = S.form(5)
				exp = []
				for i in range(3):
					exp.append(('nonneg', [T + Poly.const(5) - poly(fx.flat[i]) - poly(to_arr(dot(J, p)).flat[i])], 1))
				for i in range(2):
					y = poly(xs.flat[i]) + poly(p.flat[i])
					exp += [('nonneg', [y + Poly.const(3)], 1), ('nonneg', [Poly.const(3) - y], 1)]
				if sc:
					exp.append(('zero', [poly(dot(symbols('sd', (2,)), p))], 1))
				tr = [c for c in pr['constraints'] if radius(c)]
				ck.verdict('model', con, bool(tr) == trust, '%d trust region constraints' % len(tr))
				constraints(ck, 'step', con, dict(pr, constraints=[c for c in pr['constraints'] if not radius(c)]), exp, CELL[0])
			tried(ck, 'step', con, go)


def partial(ck, P):
	cls = P.cls('psdr.PartialLipschitzMatrix')
	if cls is None:
		raise AnalysisBroken('psdr.PartialLipschitzMatrix is gone')
	pre = 'psdr.lipschitz_partial.PartialLipschitzMatrix.'
	for name, vals in NUMERIC:
		for maxiter in (1, 3):
			con = 'PartialLipschitzMatrix: objective %s, maxiter %d' % (name, maxiter)

			def go():
				S = Script(vals)
				dirs = []
				CELL[0] = Values()

				def fixed(I, fn, args, kw):
					U = to_arr(args[1] if len(args) > 5 or isinstance(args[0], Obj) else args[0])
					v = S.at(U)
					S.log.append(('f', S.key(U)))
					a = Fr(v) / 4
					return Arr((1, 1), [Poly.const(Fr(v) / 2)]), Poly.const(a)

				def descent(I, fn, args, kw):
					U = to_arr(args[1] if isinstance(args[0], Obj) else args[0])
					k = S.key(U)
					S.jac.append(k)
					S.log.append(('jac', k))
					dirs.append(k)
					return symbols('dU%d' % len(dirs), (3, 1)), None, None
				h = {pre + '_fixed_U': fixed, pre + '_U_descent': descent, 'builtins.print': lambda I, a, k: None}
				for n in ('_fixed_U', '_U_descent'):
					kind = cls.lookup(n)
					if not kind:
						raise Cannot('%s is gone' % n)
					h[kind[1].short] = fixed if n == '_fixed_U' else descent
				I = Interp(P, h, steps=600000)
				U0 = Arr((3, 1), [Poly.var('u%d' % i) for i in range(3)])
				me = I.new(cls, [1], {'U0': U0, 'maxiter': maxiter, 'verbose': False})
				X, G = symbols('x', (2, 3)), symbols('g', (2, 3))
				kind = cls.lookup('_optimize')
				if not kind:
					raise Cannot('_optimize is gone')
				U, J, alpha = I.call(I.attr(me, '_optimize'), [U0, X, symbols('f', (2,)), G, ZERO], {})
				if not S.seen:
					raise Cannot('objective not computed')
				judge(ck, con, S, U)
				ck.verdict('limit', con, len(dirs) <= maxiter, '%d directions' % len(dirs))
				v = S.known(U)
				tot = value(poly(to_arr(J).flat[0]) + Poly.const(2) * poly(alpha), CELL[0])
				ck.verdict('pair', con, v is not None and abs(tot - v) < 1e-9, 'the matrix belongs to the subspace')
				if name == 'improves':
					ck.verdict('taken', con, S.key(U) != next(iter(S.seen)), 'the start is not returned')
			tried(ck, 'descent', con, go)


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	newton(ck, P)
	search(ck, P)
	linear(ck, P)
	maxmin(ck, P)
	partial(ck, P)
