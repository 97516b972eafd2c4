"""Optimisation problems read off abstractly: decision variables are formulas whose names start with '?', a comparison
that involves one is a constraint, and a matrix factorisation returns fresh symbols together with what they mean."""
import math
from fractions import Fraction as Fr
from .arr import Arr, Mat, Obj, Cannot, Raised, Ext, Iter, decision, poly, num, integer, to_arr, unwrap, symbols, summed, rename, solved, asked, dot, transpose, reshape, elementwise, arith, concat
from .formula import Poly, ZERO, ONE, diff, div, equal, numeric, norm_mono, Undefined, TooBig
from . import arr


class Conv:
	"""cvxpy and cvxopt, one interpreter run"""

	def __init__(self, status='optimal'):
		self.problems, self.n, self.status = [], 0, status
		self.last = None

	def variable(self, shape, name=None, sym=False):
		self.n += 1
		nm = '?%d' % self.n
		if shape == ():
			return Poly.var(nm)
		a = symbols(nm, shape)
		if sym:
			k = shape[0]
			flat = list(a.flat)
			for i in range(k):
				for j in range(i):
					flat[i * k + j] = flat[j * k + i]
			a = Arr(shape, flat)
		return a

	def hooks(self):
		h = {}

		def Variable(I, args, kw):
			s = args[0] if args else kw.get('shape', ())
			s = tuple(integer(x) for x in s) if isinstance(s, (tuple, list)) else (integer(s),) if s != () else ()
			v = self.variable(s, sym=bool(kw.get('PSD') or kw.get('symmetric')))
			if kw.get('PSD'):
				self.implied.append(Obj('constraint', {'op': 'psd', 'l': 0, 'r': v}))
			if kw.get('nonneg') or kw.get('pos'):
				self.implied.append(Obj('constraint', {'op': 'GtE', 'l': v, 'r': 0}))
			if set(kw) - {'PSD', 'symmetric', 'nonneg', 'name', 'shape'}:
				raise Cannot('kind of variable')
			return v
		self.implied = []

		def Problem(I, args, kw):
			obj = args[0]
			cons = list(I.iterate(args[1] if len(args) > 1 else kw.get('constraints', [])))
			rec = {'objective': obj, 'constraints': cons + self.implied, 'solved': False}
			self.problems.append(rec)
			o = Obj('problem', {'objective': obj, 'constraints': cons})

			def solve(*a, **k):
				rec['solved'] = True
				rec['options'] = k
				o.attrs['status'] = self.status
				return Poly.var('optimum')
			o.attrs['solve'] = solve
			return o

		def atom(name):
			def go(I, args, kw):
				if all(not decision(a) for a in args):
					raise Cannot('constant atom')
				p = args[1] if len(args) > 1 else kw.get('p')
				if name == 'norm':
					p = 2 if p is None else p
					n = {1: 'norm1', 2: 'norm2', 'fro': 'norm2', arr.math.inf: 'norminf', 'inf': 'norminf'}.get(num(p) if not isinstance(p, (str, float)) else p)
					if n is None:
						raise Cannot('norm')
					return Obj('atom', {'fn': n, 'arg': args[0]})
				return Obj('atom', {'fn': name, 'arg': args[0]})
			return go

		def cpabs(I, args, kw):
			return Obj('atom', {'fn': 'abs', 'arg': args[0]})

		def cpsum(I, args, kw):
			v = args[0]
			if isinstance(v, Obj):
				return Obj('atom', {'fn': 'sum ' + v.attrs['fn'], 'arg': v.attrs['arg']})
			if isinstance(v, (list, tuple)):
				return I.builtin('sum', [list(v)], {})
			return I.np('sum', args, kw)

		def quad(I, args, kw):
			x, P = to_arr(args[0]), to_arr(args[1])
			if decision(x):
				raise Cannot('quadratic in the decision')
			return dot(dot(x, P), x)
		for n in ('trace', 'diag', 'multiply', 'hstack', 'vstack', 'reshape'):
			h['cvxpy.' + n] = lambda I, a, k, n=n: I.np(n, a, k)
		h['cvxpy.Variable'] = Variable
		h['cvxpy.Problem'] = Problem
		h['cvxpy.sum'] = cpsum
		h['cvxpy.quad_form'] = quad
		h['cvxpy.Constant'] = lambda I, a, k: Mat(to_arr(a[0]).shape, to_arr(a[0]).flat)
		h['cvxpy.Minimize'] = lambda I, a, k: Obj('goal', {'sense': 'min', 'expr': a[0]})
		h['cvxpy.Maximize'] = lambda I, a, k: Obj('goal', {'sense': 'max', 'expr': a[0]})
		for n in ('norm1', 'norm2', 'norm_inf', 'pos', 'neg', 'max', 'norm', 'sum_squares', 'square'):
			h['cvxpy.' + n] = atom(n.replace('_', ''))
		h['cvxpy.abs'] = cpabs

		def matrix(I, args, kw):
			v = args[0]
			if isinstance(v, list):
				cols = [to_arr(c) if isinstance(c, (list, Arr)) else Arr((1,), [c]) for c in v]
				if all(isinstance(c, list) for c in v):
					return transpose(to_arr(v))
				return Arr((len(v), 1), [poly(c) for c in v])
			a = to_arr(v)
			if len(a.shape) == 1:
				return reshape(Arr(a.shape, a.flat), (-1, 1))
			return Arr(a.shape, a.flat)

		def sdp(I, args, kw):
			names = ['c', 'Gl', 'hl', 'Gs', 'hs']
			d = dict(zip(names, args))
			d.update(kw)
			c = to_arr(d['c'])
			x = self.variable((c.shape[0], 1))
			cons = []
			if d.get('Gl') is not None:
				cons.append(Obj('constraint', {'op': 'LtE', 'l': dot(d['Gl'], x), 'r': d['hl']}))
			for G, h_ in zip(I.iterate(d.get('Gs') or []), I.iterate(d.get('hs') or [])):
				h_ = to_arr(h_)
				k = h_.shape[0]
				Gx = to_arr(dot(G, x))
				if len(Gx.flat) != k * k:
					raise Raised('TypeError')
				M = transpose(reshape(Gx, (k, k)))
				cons.append(Obj('constraint', {'op': 'psd', 'l': M, 'r': h_}))
			self.problems.append({'objective': Obj('goal', {'sense': 'min', 'expr': dot(transpose(c), x)}), 'constraints': cons, 'solved': True})
			return {'status': 'optimal' if self.status == 'optimal' else 'primal infeasible', 'x': solved(x)}
		h['cvxopt.matrix'] = matrix
		h['cvxopt.solvers.sdp'] = sdp
		return h


def matrices(con):
	"""a constraint as a list of ('psd' | 'nonneg' | 'zero', list of entries, size) in canonical form"""
	if not isinstance(con, Obj) or con.cls != 'constraint':
		raise Cannot('constraint')
	op, l, r = con.attrs['op'], con.attrs['l'], con.attrs['r']
	if op in ('Gt', 'GtE'):
		l, r = r, l
		op = 'LtE'
	if isinstance(l, Obj) and l.cls == 'atom' and l.attrs['fn'] == 'abs' and op in ('LtE', 'Lt'):
		a = l.attrs['arg']
		out = []
		for sgn in (1, -1):
			d = to_arr(elementwise(lambda x, y: arith('Sub', x, poly(y) * Poly.const(sgn)), r, a))
			out += [('nonneg', [poly(x)], 1) for x in d.flat]
		return out
	if isinstance(l, Obj) or isinstance(r, Obj):
		raise Cannot('nonlinear constraint')
	d = to_arr(elementwise(lambda x, y: arith('Sub', x, y), r, l))
	if op == 'psd':
		k = d.shape[0] if d.shape else 1
		if k == 1:
			return [('nonneg', [poly(d.flat[0])], 1)]
		off = [d.flat[i * k + j] for i in range(k) for j in range(k) if i != j]
		if all(not poly(x).t for x in off):
			return [('nonneg', [poly(d.flat[i * k + i])], 1) for i in range(k)]
		return [('psd', [poly(x) for x in d.flat], k)]
	return [('zero' if op == 'Eq' else 'nonneg', [poly(x)], 1) for x in d.flat]


def affine(ps, names, cell):
	"""numeric coefficients of formulas affine in the unknowns: rows of (constant, coefficient of each)"""
	rows = []
	for p in ps:
		r = [value(rename_zero(p, names), cell)]
		for v in names:
			d = diff(p, v)
			if unknowns([d]):
				raise Cannot('constraint not affine')
			r.append(value(d, cell) if d.t else 0.)
		rows.append(r)
	return rows


def margin(kind, vals, k):
	"""how far the constraint is from being violated (negative: violated)"""
	if kind == 'nonneg':
		return vals[0]
	if kind == 'zero':
		return -abs(vals[0])
	return least_eigenvalue([vals[i * k:(i + 1) * k] for i in range(k)])


def least_eigenvalue(M):
	"""of a symmetric matrix (its symmetric part), by Jacobi rotations"""
	k = len(M)
	A = [[(M[i][j] + M[j][i]) / 2 for j in range(k)] for i in range(k)]
	for _ in range(30):
		off = max([(abs(A[i][j]), i, j) for i in range(k) for j in range(i)] or [(0, 0, 0)])
		if off[0] < 1e-14:
			break
		_, p, q = off
		th = 0.5 * math.atan2(2 * A[p][q], A[q][q] - A[p][p])
		c, s = math.cos(th), math.sin(th)
		for i in range(k):
			x, y = A[i][p], A[i][q]
			A[i][p], A[i][q] = c * x - s * y, s * x + c * y
		for i in range(k):
			x, y = A[p][i], A[q][i]
			A[p][i], A[q][i] = c * x - s * y, s * x + c * y
	return min(A[i][i] for i in range(k))


def witness(actual, expected, cell, n=400):
	"""values of the unknowns that satisfy one list of constraints clearly and violate the other clearly:
	(unknowns, 'weak' | 'strict', index of the violated constraint) for each direction found"""
	names = unknowns([p for _, ps, _ in actual + expected for p in ps])
	A = [(t, affine(ps, names, cell), k) for t, ps, k in actual]
	E = [(t, affine(ps, names, cell), k) for t, ps, k in expected]

	def at(cs, u):
		return [margin(t, [r[0] + sum(c * x for c, x in zip(r[1:], u)) for r in rows], k) for t, rows, k in cs]
	seed = 12345
	found = {}
	for trial in range(n):
		d = []
		for _ in names:
			seed = (seed * 1103515245 + 12345) % (1 << 31)
			d.append(seed / (1 << 30) - 1)
		for t in (0., .01, .03, .1, .3, 1., 2., 3., 5., 8., 13., 20., 40., 80., 160., 400., 1000.):
			u = [t * x for x in d]
			ma, me = at(A, u), at(E, u)
			if 'weak' not in found and ma and min(ma) > 1e-7 and min(me) < -1e-3:
				found['weak'] = me.index(min(me))
			if 'strict' not in found and me and min(me) > 1e-7 and min(ma) < -1e-3:
				found['strict'] = ma.index(min(ma))
			if t == 0.:
				continue
	return found


def unknowns(ps):
	out = set()
	for p in ps:
		out |= {a[1] for a in p.atoms() if a[0] == 'v' and a[1].startswith('?')}
	return sorted(out)


def value(p, cell):
	v, _ = numeric(p, cell)
	return v


def compare_affine(ps, es, cell):
	"""ps, es: lists of formulas affine in the decision variables.  Is ps = k*es for a constant k > 0 (same), and if only
	the constant term differs, how?  Returns ('same',), ('shift', [ps/k - es]) or None"""
	names = unknowns(list(ps) + list(es))
	k = None
	for p, e in zip(ps, es):
		for v in names:
			dp, de = diff(p, v), diff(e, v)
			if not de.t and not dp.t:
				continue
			if equal(de, ZERO) or equal(dp, ZERO):
				if equal(de, dp):
					continue
				return None
			if k is None:
				k = div(dp, de)
				if value(k, cell) <= 0:
					return None
			elif not equal(dp, k * de):
				return None
	if k is None:
		return None
	rest = [div(p, k) - e for p, e in zip(ps, es)]
	out = []
	for x in rest:
		for v in names:
			if not equal(diff(x, v), ZERO):
				return None
		out.append(rename_zero(x, names))
	if all(equal(x, ZERO) for x in out):
		return ('same',)
	return ('shift', out)


def rename_zero(p, names):
	"""the formula at zero decision (it does not depend on it)"""
	t = {m: c for m, c in p.t.items() if not any(a[0] == 'v' and a[1] in names for a, _ in m)}
	return Poly(t)
