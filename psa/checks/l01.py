"""L01: a fitted Lipschitz matrix is constrained by every sample and gradient."""
from fractions import Fraction as Fr
from itertools import combinations
from ..loader import AnalysisBroken
from ..arr import Interp, Fn, Obj, Arr, Cannot, Raised, CELL, symbols, to_arr, poly, dot, transpose, elementwise, arith, summed, getitem, frame, decision
from ..formula import Poly, ZERO, ONE, div, power, equal, diff, numeric, TooBig, Undefined
from ..conv import Conv, asked, matrices, compare_affine, unknowns, value, witness, least_eigenvalue

RULES = [
	('pair', 'for every pair of samples whose values differ by more than the tolerance, the matrix-weighted squared distance is constrained to be at least the square of that excess', 40),
	('gradient', 'for every gradient the squared matrix is constrained to dominate its outer product', 12),
	('psd', 'the squared matrix is constrained to be positive semidefinite', 10),
	('tight', 'nothing more is required of the squared matrix', 14),
	('size', 'the trace of the squared matrix is minimised', 14),
	('freedom', 'the squared matrix ranges over every matrix of the structure asked for', 14),
	('root', 'the reported matrix is the square root of the reported squared matrix, negative eigenvalues cut off', 14),
	('status', 'a failed solve is reported, not returned as a matrix', 8),
	('constant', 'the scalar constant is the largest slope over the pairs and gradients', 8),
	('compatible', 'the data made compatible with a matrix satisfy its inequality for every pair and move as little as possible', 5),
	('linearity', 'the measure of nonlinearity bounds the change across every pair of samples left by a linear part, on both sides, by the same smallest constant', 4),
]
FAIL = (Cannot, Undefined, TooBig, RecursionError)

# values of the inputs in each cell: outputs, tolerance, size of the gradients
CELLS = {
	'all active': dict(f=[0., 3., 10.], e=1., g=1.),
	'one pair inactive': dict(f=[0., .5, 10.], e=1., g=1.),
	'small excess': dict(f=[0., 1.9, 1.4], e=1., g=None),
	'close values': dict(f=[0., 10., .01], e=None, g=None),
	'barely beyond the tolerance': dict(f=[0., 1.001, 8.], e=1., g=.5),
	'decreasing': dict(f=[10., 2., -3.], e=.5, g=1.),
	'no tolerance': dict(f=[2., 7., 3.], e=None, g=1.),
	'large gradients': dict(f=[1., 2., 5.], e=.25, g=40.),
	'samples only': dict(f=[4., -2., 1.], e=.5, g=None),
	'gradients only': dict(f=None, e=None, g=2.),
	'nothing active': dict(f=[0., .2, .3], e=2., g=1.),
	'gradients longer than the spread': dict(f=[0., 5., 2.], e=1.5, g=9., X=[[0.11, 0.02, 0.3], [0.29, 0.47, -0.1], [-0.35, -0.83, 0.6]], G=[[0.92, -0.36, 0.1], [0.71, -0.29, 0.3]]),
}
BASE = [[0.31, -1.27, 0.83], [1.43, 0.59, -0.71], [-0.87, 0.41, 1.13], [0.55, 1.9, 0.2]]
GRADS = [[0.9, -0.35, 0.6], [0.2, 1.1, -0.4]]


class Mixed(Exception):
	pass


class Data:
	"""symbolic samples, outputs, gradients and tolerance, with their values in a cell"""

	def __init__(self, name, m=2):
		c = CELLS[name]
		self.name, self.m, self.at = name, m, {}
		self.X = self.f = self.G = self.e = None
		if c['f'] is not None:
			n = len(c['f'])
			self.X, self.f = symbols('x', (n, m)), symbols('f', (n,))
			for i in range(n):
				self.put(self.f.flat[i], c['f'][i])
				for j in range(m):
					self.put(self.X.flat[i * m + j], c.get('X', BASE)[i][j])
		if c['g'] is not None:
			self.G = symbols('g', (2, m))
			for i in range(2):
				for j in range(m):
					self.put(self.G.flat[i * m + j], c['g'] * c.get('G', GRADS)[i][j])
		if c['e'] is not None:
			self.e = Poly.var('eps')
			self.put(self.e, c['e'])

	def put(self, p, v):
		for a in p.atoms():
			self.at[a[1]] = v

	def eps(self):
		return ZERO if self.e is None else self.e

	def pairs(self):
		"""(i, j, difference of the points, excess of the values or None)"""
		if self.X is None:
			return
		for i, j in combinations(range(self.X.shape[0]), 2):
			y = Arr((self.m,), [a - b for a, b in zip(self.row(i), self.row(j))])
			d = self.f.flat[i] - self.f.flat[j]
			if value(d, self.at) < 0:
				d = -d
			r = d - self.eps()
			yield i, j, y, r if value(r, self.at) > 0 else None

	def row(self, i):
		return self.X.flat[i * self.m:(i + 1) * self.m]

	def grads(self):
		if self.G is not None:
			for i in range(self.G.shape[0]):
				yield i, Arr((self.m,), self.G.flat[i * self.m:(i + 1) * self.m])


def outer(g):
	return elementwise(lambda a, b: arith('Mult', a, b), Arr((len(g.flat), 1), g.flat), Arr((1, len(g.flat)), g.flat))


def minus(a, b):
	return to_arr(elementwise(lambda x, y: arith('Sub', x, y), a, b))


def quad(y, H):
	return poly(dot(dot(y, H), y))


class Run:
	"""one fit, read abstractly"""

	def __init__(self, P, cls, data, kw, kind, status='optimal', spectrum=None, extra=None):
		self.P, self.cls, self.data, self.kind = P, cls, data, kind
		self.conv = Conv(status)
		h = self.conv.hooks()
		for q in ('builtins.print', 'time.time', 'tqdm.tqdm'):
			h[q] = lambda I, a, k: a[0] if a else None
		h.update(extra or {})
		I = self.I = Interp(P, h, steps=2000000)
		if spectrum:
			I.spectrum = spectrum
		CELL[0] = self.at = dict(data.at)
		try:
			kw = dict(kw)
			if data.e is not None:
				kw['epsilon'] = data.e
			me = self.me = I.new(P.cls(cls), [], kw)
			a = {}
			if data.X is not None:
				a['X'], a['fX'] = data.X, data.f
			if data.G is not None:
				a['grads'] = data.G
			I.call(I.attr(me, 'fit'), [], a)
			self.H = to_arr(I.attr(me, 'H'))
			self.L = to_arr(I.attr(me, 'L'))
		finally:
			self.at = CELL[0]
			CELL[0] = None

	def squared(self):
		"""the squared matrix in terms of the unknowns of the last problem"""
		H = self.H
		eig = [f for f in getattr(self.I, 'factors', ()) if f['kind'] == 'eigh' and any(v.startswith('!') for v in names(f['arg']))]
		if not eig:
			return asked(H)
		f = eig[-1]
		m = f['arg'].shape[0]
		V, w = f['V'], f['w']
		if m == 1:
			n = [a[1] for a in w.flat[0].atoms()][0]
			out = []
			for p in H.flat:
				k = diff(poly(p), n)
				out.append(poly(p) - k * w.flat[0] + k * poly(f['arg'].flat[0]))
			return asked(Arr(H.shape, out))
		rec = dot(dot(V, Arr((m, m), [w.flat[i] if i == j else ZERO for i in range(m) for j in range(m)])), transpose(V))
		if rec.shape != H.shape:
			raise Cannot('shape of the factored matrix')
		k = div(poly(H.flat[0]), poly(rec.flat[0]))
		if not all(equal(poly(p), k * poly(q)) for p, q in zip(H.flat, rec.flat)):
			D = to_arr(dot(dot(transpose(V), H), V))
			if all(equal(poly(D.flat[i * m + j]), ZERO) for i in range(m) for j in range(m) if i != j):
				at = dict(self.at)
				r = [value(div(poly(D.flat[i * m + i]), poly(w.flat[i])), at) for i in range(m)]
				if max(r) - min(r) > 1e-6 * max(abs(x) for x in r):
					raise Mixed('the eigenvalues of the reported matrix are not those of the solution, in the order of its eigenvectors')
			raise Cannot('reported matrix is not a multiple of the factored one')
		return asked(Arr(H.shape, [k * poly(q) for q in f['arg'].flat]))


def names(a):
	return {x[1] for p in a.flat for x in poly(p).atoms() if x[0] == 'v'}


def expected(run):
	d, H = run.data, run.S
	out = []
	for i, j, y, r in d.pairs():
		if r is not None:
			out.append(('pair', 'samples %d and %d' % (i, j), ('nonneg', [quad(y, H) - r * r], 1)))
		else:
			out.append(('free', 'samples %d and %d' % (i, j), ('nonneg', [quad(y, H)], 1)))
	for i, g in d.grads():
		out.append(('gradient', 'gradient %d' % i, ('psd', [poly(x) for x in minus(H, outer(g)).flat], d.m)))
	m = d.m
	if run.kind == 'part':
		F = frame(m)
		for k in range(m):
			out.append(('psd', 'direction %d' % k, ('nonneg', [quad(Arr((m,), [F.flat[i * m + k] for i in range(m)]), H)], 1)))
		return out
	off = [H.flat[i * m + j] for i in range(m) for j in range(m) if i != j]
	if all(not poly(x).t for x in off):
		for i in range(m):
			out.append(('psd', 'entry %d' % i, ('nonneg', [H.flat[i * m + i]], 1)))
	else:
		out.append(('psd', 'matrix', ('psd', [poly(x) for x in H.flat], m)))
	return out


def judge(ck, label, run):
	"""compare the problem that was solved with the one that should be"""
	d = run.data
	probs = [p for p in run.conv.problems if p['solved']]
	if not probs:
		return ck.unknown('pair', label, 'no problem solved')
	prob = probs[-1]
	cell = dict(run.at)
	try:
		S = run.S = run.squared()
	except Mixed as e:
		return ck.bad('root', label, str(e))
	m = d.m
	if S.shape != (m, m):
		return ck.bad('root', label, 'squared matrix has shape %r' % (S.shape,))
	if not all(equal(S.flat[i * m + j], S.flat[j * m + i]) for i in range(m) for j in range(i)):
		lean = None
		try:
			at = dict(cell)
			for k, v in enumerate(sorted(set(unknowns([poly(p) for p in S.flat])))):
				at[v] = .37 + .61 * ((k * 7) % 5) + .01 * k
			lean = max(abs(value(poly(S.flat[i * m + j]), at) - value(poly(S.flat[j * m + i]), at)) for i in range(m) for j in range(i))
		except FAIL + (KeyError, ValueError):
			pass
		if lean is not None and lean > 1e-6:
			return ck.bad('root', label, 'the squared matrix is not symmetric')
		return ck.unknown('root', label, 'squared matrix not symmetric')
	exp = expected(run)
	act, opaque = [], 0
	for c in prob['constraints']:
		try:
			act += matrices(c)
		except Cannot:
			opaque += 1
	zero = [a for a in act if a[0] == 'zero']
	S, exp, act = eliminate(S, exp, act, zero)
	live = set(unknowns([p for p in S.flat]))
	seen = set(unknowns([p for _, ps, _ in act for p in ps]))
	if not live:
		return ck.unknown('pair', label, 'the reported matrix does not depend on the solution')
	match, used = {}, set()
	for n, (rule, what, (t, ps, k)) in enumerate(exp):
		for q, (t2, ps2, k2) in enumerate(act):
			if t2 == t and k2 == k and compare_affine(ps2, ps, cell) == ('same',):
				match[n] = q
				used.add(q)
	left = [a for q, a in enumerate(act) if q not in used and not trivial(a, cell)]
	missing = [n for n, e in enumerate(exp) if n not in match and e[0] != 'free']
	# constraints on the parameters that only restate the positive semidefinite one are implied or are excess
	found = None
	if missing or left:
		try:
			found = witness(act, [e[2] for e in exp if e[0] != 'free'], cell)
		except FAIL:
			found = {}
	need = [e for e in exp if e[0] != 'free']
	for n, e in enumerate(exp):
		if e[0] == 'free':
			continue
		con = '%s: %s' % (label, e[1])
		if n in match:
			ck.ok(e[0], con, 'imposed')
		elif 'weak' in found and not opaque:
			if need[found['weak']] is e or len(missing) == 1:
				ck.bad(e[0], con, 'a matrix that violates it is accepted by the constraints of the problem')
			else:
				ck.unknown(e[0], con, 'no constraint matches')
		elif e[0] == 'psd' and d.G is not None and any(x[0] == 'gradient' and k in match for k, x in enumerate(exp)):
			ck.ok(e[0], con, 'implied by a gradient')
		elif all(r is None for _, _, _, r in d.pairs()) and d.G is None and e[0] == 'psd':
			ck.unknown(e[0], con, 'no constraint matches')
		else:
			ck.unknown(e[0], con, 'no constraint matches')
	if 'strict' in (found or {}):
		ck.bad('tight', label, 'the constraints reject a matrix that satisfies every sample and gradient')
	elif left:
		ck.unknown('tight', label, '%d constraints not accounted for' % len(left))
	elif opaque:
		ck.unknown('tight', label, '%d constraints not understood' % opaque)
	else:
		ck.ok('tight', label, '%d constraints, all expected' % len(act))
	goal = prob['objective']
	tr = summed([S.flat[i * m + i] for i in range(m)])
	if not isinstance(goal, Obj) or goal.cls != 'goal' or not isinstance(goal.attrs['expr'], (Poly, Arr)):
		ck.verdict('size', label, size_of_atom(goal, S, m, cell), 'objective understood at sample matrices')
	else:
		ex = substitute(to_arr(goal.attrs['expr']).flat[0], run.zeros)
		if goal.attrs['sense'] == 'max':
			ex = -ex
		r = compare_affine([ex], [tr], cell)
		ck.verdict('size', label, True if r else False, 'objective is %sa multiple of the trace' % ('' if r else 'not '))
	vs = sorted(live)
	ents = [S.flat[i * m + j] for i in range(m) for j in range(i, m)]
	rk = rank([[value(diff(p, v), cell) if diff(p, v).t else 0. for v in vs] for p in ents])
	want = run.freedom
	ck.verdict('freedom', label, rk == want, '%d independent parameters, %d expected' % (rk, want))


def size_of_atom(goal, S, m, cell):
	"""an objective that is a norm of the parameters is not the trace: the two are compared at positive definite matrices"""
	ex = goal.attrs.get('expr') if isinstance(goal, Obj) and goal.cls == 'goal' else None
	if not (isinstance(ex, Obj) and ex.cls == 'atom') or isinstance(ex.attrs['arg'], Obj) or ex.attrs['fn'] not in ('norm1', 'norm2', 'norminf', 'sum squares'):
		return None
	arg = [poly(t) for t in to_arr(ex.attrs['arg']).flat]
	names = sorted(set(unknowns(arg + [poly(p) for p in S.flat])))
	ratios = []
	for k in range(60):
		at = dict(cell)
		for i, v in enumerate(names):
			at[v] = ((k * 37 + i * 53 + k * i * 11) % 101) / 25. - 1.
		try:
			M = [[value(poly(S.flat[i * m + j]), at) for j in range(m)] for i in range(m)]
			if m != 2 or M[0][0] <= .1 or M[0][0] * M[1][1] - M[0][1] * M[1][0] <= .01:
				continue
			a = [value(p, at) for p in arg]
		except FAIL + (KeyError, ValueError):
			return None
		fn = ex.attrs['fn']
		v = sum(abs(t) for t in a) if fn == 'norm1' else max(abs(t) for t in a) if fn == 'norminf' else sum(t * t for t in a) if fn == 'sum squares' else sum(t * t for t in a) ** .5
		ratios.append(v / (M[0][0] + M[1][1]))
	if len(ratios) < 3:
		return None
	return max(ratios) - min(ratios) < 1e-9 * max(ratios)


def trivial(a, cell):
	t, ps, k = a
	if unknowns(ps):
		return False
	try:
		return all(value(p, cell) >= -1e-12 for p in ps) if t == 'nonneg' else t == 'zero' and all(equal(p, ZERO) for p in ps)
	except FAIL:
		return False


def substitute(p, zeros):
	p = poly(p)
	if not zeros:
		return p
	return Poly({mm: c for mm, c in p.t.items() if not any(a[0] == 'v' and a[1] in zeros for a, _ in mm)})


def eliminate(S, exp, act, zero):
	"""unknowns fixed at zero by an equality disappear"""
	z = set()
	for t, ps, k in zero:
		for p in ps:
			u = unknowns([p])
			if len(u) == 1 and len(p.t) == 1:
				z.add(u[0])
	global ZEROS
	ZEROS = z
	S = Arr(S.shape, [substitute(p, z) for p in S.flat])
	exp = [(r, w, (t, [substitute(p, z) for p in ps], k)) for r, w, (t, ps, k) in exp]
	act = [(t, [substitute(p, z) for p in ps], k) for t, ps, k in act]
	act = [a for a in act if not all(not p.t for p in a[1])]
	return S, exp, act


def rank(M):
	M = [list(r) for r in M]
	rk = 0
	cols = len(M[0]) if M else 0
	for c in range(cols):
		piv = max(range(rk, len(M)), key=lambda r: abs(M[r][c]), default=None)
		if piv is None or abs(M[piv][c]) < 1e-9:
			continue
		M[rk], M[piv] = M[piv], M[rk]
		for r in range(len(M)):
			if r != rk:
				k = M[r][c] / M[rk][c]
				M[r] = [a - k * b for a, b in zip(M[r], M[rk])]
		rk += 1
	return rk


def root(ck, label, run, cell):
	"""L'L is H"""
	m = run.data.m
	d = minus(dot(transpose(run.L), run.L), run.H)
	bad = [p for p in d.flat if not equal(poly(p), ZERO)]
	if not bad:
		return ck.ok('root', label, 'product of the reported matrix with itself')
	try:
		vals = [value(poly(p), cell) for p in bad]
		if max(abs(v) for v in vals) > 1e-6:
			return ck.bad('root', label, 'L\'L differs from H by %g' % max(abs(v) for v in vals))
	except FAIL + (KeyError, ValueError):
		pass
	ck.unknown('root', label, 'not decided')


def matrices_fitted(ck, P, tier):
	confs = []
	for meth in ('cvxopt', 'param', 'cvxpy'):
		confs.append(('LipschitzMatrix %s' % meth, 'psdr.LipschitzMatrix', {'method': meth}, 'full'))
		confs.append(('DiagonalLipschitzMatrix %s' % meth, 'psdr.DiagonalLipschitzMatrix', {'method': meth}, 'diag'))
	confs.append(('PartialLipschitzMatrix full rank', 'psdr.PartialLipschitzMatrix', {'rank': 2, 'verbose': False}, 'full'))
	F = frame(2)
	U0 = Arr((2, 1), [F.flat[0], F.flat[2]])
	confs.append(('PartialLipschitzMatrix rank one', 'psdr.PartialLipschitzMatrix', {'rank': 1, 'verbose': False, 'maxiter': 0, 'U0': U0}, 'part'))
	cells = list(CELLS)
	for label, cls, kw, kind in confs:
		for name in cells:
			if kind != 'diag' and cls.endswith('PartialLipschitzMatrix') and CELLS[name]['g'] is None and False:
				continue
			con = '%s, %s' % (label, name)

			def go(con=con, cls=cls, kw=kw, kind=kind, name=name):
				data = Data(name)
				run = Run(P, cls, data, kw, kind)
				run.freedom = {'full': data.m * (data.m + 1) // 2, 'diag': data.m, 'part': 2}[kind]
				run.zeros = ()
				judge(ck, con, run)
				root(ck, con, run, run.at)
			guard(ck, con, go)


def guard(ck, con, go, rule='pair'):
	try:
		go()
	except FAIL as e:
		ck.unknown(rule, con, 'not analysed: %s' % e)
	except Raised as e:
		ck.unknown(rule, con, 'raises %s' % e.name)
	finally:
		CELL[0] = None


def failures(ck, P):
	"""a solver that reports failure"""
	for label, cls, kw in [('LipschitzMatrix %s' % m, 'psdr.LipschitzMatrix', {'method': m}) for m in ('cvxopt', 'param', 'cvxpy')] + \
			[('DiagonalLipschitzMatrix %s' % m, 'psdr.DiagonalLipschitzMatrix', {'method': m}) for m in ('cvxopt', 'param', 'cvxpy')] + \
			[('PartialLipschitzMatrix', 'psdr.PartialLipschitzMatrix', {'rank': 2, 'verbose': False})]:
		for st in ('infeasible', 'unbounded'):
			con = '%s, %s' % (label, st)

			def go(con=con, cls=cls, kw=kw, st=st):
				try:
					r = Run(P, cls, Data('all active'), kw, '', status=st)
				except Raised as e:
					return ck.verdict('status', con, True if e.name not in ('AttributeError', 'TypeError', 'NameError') else None, 'raises ' + e.name)
				if any(p['solved'] for p in r.conv.problems):
					ck.bad('status', con, 'a matrix is returned')
				else:
					ck.unknown('status', con, 'no problem solved')
			guard(ck, con, go, 'status')


def negative(ck, P):
	"""the solver returns a matrix with a slightly negative eigenvalue"""
	F = frame(2)
	for label, cls, kw in [('LipschitzMatrix %s' % m, 'psdr.LipschitzMatrix', {'method': m}) for m in ('cvxopt', 'param', 'cvxpy')] + \
			[('PartialLipschitzMatrix', 'psdr.PartialLipschitzMatrix', {'rank': 2, 'verbose': False})]:
		con = '%s, negative eigenvalue' % label

		def go(con=con, cls=cls, kw=kw):
			r = Run(P, cls, Data('all active'), kw, '', spectrum=lambda m: [-1e-3 + i * 1.25 for i in range(m)])
			at = dict(r.at)
			vals = [value(poly(p), at) for p in r.L.flat]
			if any(isinstance(v, complex) or v != v for v in vals):
				return ck.bad('root', con, 'reported matrix is not real')
			LL = dot(transpose(r.L), r.L)
			lo = least_eigenvalue([[value(poly(r.L.flat[i * 2 + j]), at) for j in range(2)] for i in range(2)])
			if lo < -1e-9:
				return ck.bad('root', con, 'reported matrix is not positive semidefinite')
			d = [value(poly(p), at) for p in minus(LL, r.H).flat]
			big = max(abs(value(poly(p), at)) for p in LL.flat)
			# the cut off eigenvalue (a thousandth) is all that may differ
			ck.verdict('root', con, max(abs(x) for x in d) <= 2e-3 * max(big, 1), 'the negative eigenvalue is cut off')
		guard(ck, con, go, 'root')


def constants(ck, P):
	for name in CELLS:
		con = 'LipschitzConstant, ' + name

		def go(con=con, name=name):
			data = Data(name)
			r = Run(P, 'psdr.LipschitzConstant', data, {}, '')
			at = dict(r.at)
			cands = [ZERO]
			for i, j, y, ex in data.pairs():
				if ex is not None:
					cands.append(div(ex, power(summed([poly(v) * poly(v) for v in y.flat]), Fr(1, 2))))
			for _, g in data.grads():
				cands.append(power(summed([poly(v) * poly(v) for v in g.flat]), Fr(1, 2)))
			c = max(cands, key=lambda p: value(p, at))
			m = data.m
			for nm, M, k in (('L', r.L, c), ('H', r.H, c * c)):
				if M.shape != (m, m):
					ck.bad('constant', con + ': ' + nm, 'shape %r' % (M.shape,))
					continue
				want = [k if i == j else ZERO for i in range(m) for j in range(m)]
				if all(equal(poly(p), w) for p, w in zip(M.flat, want)):
					ck.ok('constant', con + ': ' + nm, 'largest slope')
				else:
					d = max(abs(value(poly(p) - w, at)) for p, w in zip(M.flat, want))
					ck.verdict('constant', con + ': ' + nm, False if d > 1e-6 else None, 'differs from the largest slope by %g' % d)
		guard(ck, con, go, 'constant')


def compatible(ck, P):
	f = P.func('psdr.lipschitz_approx.lipschitz_approximation_compatible_data')
	if f is None:
		raise AnalysisBroken('lipschitz_approximation_compatible_data is gone')
	names = {1: 'norm1', 2: 'norm2', 'inf': 'norminf'}
	for norm in (1, 2, 'inf'):
		for cell in ('all active', 'decreasing'):
			con = 'norm %s, %s' % (norm, cell)

			def go(con=con, norm=norm, cell=cell):
				data = Data(cell)
				L = symbols('l', (2, 2))
				for p, v in zip(L.flat, (1.3, -.4, .2, .7)):
					data.put(p, v)
				cv = Conv()
				I = Interp(P, cv.hooks(), steps=500000)
				CELL[0] = dict(data.at)
				y = to_arr(I.call(Fn(f, f.node, None, None), [L, data.X, data.f], {'norm': norm}))
				at = dict(CELL[0])
				CELL[0] = None
				probs = [p for p in cv.problems if p['solved']]
				if not probs:
					return ck.unknown('compatible', con, 'no problem')
				pr = probs[-1]
				y = asked(y)
				n = len(data.f.flat)
				if y.shape != (n,):
					return ck.bad('compatible', con, 'result has shape %r' % (y.shape,))
				exp = []
				for i, j, dx, _ in data.pairs():
					z = dot(L, dx)
					r = power(summed([poly(v) * poly(v) for v in z.flat]), Fr(1, 2))
					for s in (1, -1):
						exp.append(('samples %d and %d, sign %d' % (i, j, s), ('nonneg', [r - (poly(y.flat[i]) - poly(y.flat[j])) * Poly.const(s)], 1)))
				act = [a for c in pr['constraints'] for a in matrices(c)]
				act = [a for a in act if not trivial(a, at)]
				hit = {k for k, (w, e) in enumerate(exp) if any(compare_affine(a[1], e[1], at) == ('same',) for a in act)}
				extra = [a for a in act if not any(compare_affine(a[1], e[1], at) == ('same',) for w, e in exp)]
				if len(hit) == len(exp) and not extra:
					ck.ok('compatible', con + ': constraints', '%d inequalities for %d pairs' % (len(act), len(exp) // 2))
				else:
					w = witness(act, [e for _, e in exp], at)
					if 'weak' in w:
						ck.bad('compatible', con + ': constraints', 'accepts data that violate the inequality of %s' % exp[w['weak']][0])
					elif 'strict' in w:
						ck.bad('compatible', con + ': constraints', 'rejects data that satisfy every inequality')
					else:
						ck.unknown('compatible', con + ': constraints', 'not matched')
				g = pr['objective']
				ex = g.attrs['expr'] if isinstance(g, Obj) and g.cls == 'goal' else None
				if not (isinstance(ex, Obj) and ex.cls == 'atom'):
					return ck.unknown('compatible', con + ': objective', 'not understood')
				arg = to_arr(ex.attrs['arg'])
				fn = {'norm1': 1, 'sum abs': 1, 'norm2': 2, 'sumsquares': 2, 'norminf': 'inf', 'max abs': 'inf'}.get(ex.attrs['fn'])
				same = arg.shape == y.shape and any(all(equal(poly(a), (poly(b) - poly(c)) * Poly.const(s)) for a, b, c in zip(arg.flat, y.flat, data.f.flat)) for s in (1, -1))
				good = same and g.attrs['sense'] == 'min'
				ck.verdict('compatible', con + ': objective', (good and fn == norm) if fn is not None and arg.shape == y.shape else None, '%s of the change is minimised' % ex.attrs['fn'])
			guard(ck, con, go, 'compatible')


def linearity(ck, P):
	f = P.func('psdr.nonlin.measure_nonlinearity')
	if f is None:
		return ck.unknown('linearity', 'measure_nonlinearity', 'not found')
	for cell in ('all active', 'decreasing', 'close values'):
		con = 'measure_nonlinearity, %s' % cell

		def go(con=con, cell=cell):
			data = Data(cell)
			cv = Conv()
			I = Interp(P, cv.hooks(), steps=500000)
			CELL[0] = dict(data.at)
			r = I.call(Fn(f, f.node, None, None), [data.X, data.f], {})
			at = dict(CELL[0])
			CELL[0] = None
			pr = [p for p in cv.problems if p['solved']][-1]
			a, g = to_arr(asked(r[1])), pr['objective']
			ex = g.attrs['expr'] if isinstance(g, Obj) and g.cls == 'goal' else None
			if not isinstance(ex, (Poly, Arr)) or len(to_arr(ex).flat) != 1 or a.shape != (data.m,):
				raise Cannot('the problem')
			L = poly(to_arr(ex).flat[0])
			ck.verdict('linearity', con + ': objective', g.attrs['sense'] == 'min' and len(unknowns([L])) == 1 and not set(unknowns([L])) & set(unknowns(list(a.flat))), 'one constant is minimised')
			n = len(data.f.flat)
			exp, slopes = [], []
			for i, j in combinations(range(n), 2):
				dx = [poly(data.X.flat[i * data.m + k]) - poly(data.X.flat[j * data.m + k]) for k in range(data.m)]
				size = power(summed([t * t for t in dx]), Fr(1, 2))
				df = poly(data.f.flat[i]) - poly(data.f.flat[j])
				# the sign of the linear part is a convention; fixed by the first inequality that matches
				lin = summed([t * poly(c) for t, c in zip(dx, a.flat)])
				exp += [(i, j, s, df, lin, L * size) for s in (1, -1)]
				slopes.append(abs(value(df, at)) / value(size, at))
			act = [t for c in pr['constraints'] for t in matrices(c)]
			act = [t for t in act if not trivial(t, at)]
			best = None
			for sg in (1, -1):
				want = [('nonneg', [b - (df + lin * Poly.const(sg)) * Poly.const(s)], 1) for i, j, s, df, lin, b in exp]
				hit = [any(compare_affine(t[1], w[1], at) == ('same',) for t in act) for w in want]
				extra = [t for t in act if not any(compare_affine(t[1], w[1], at) == ('same',) for w in want)]
				if best is None or sum(hit) > sum(best[1]):
					best = (want, hit, extra)
			want, hit, extra = best
			if all(hit) and not extra:
				ck.ok('linearity', con + ': constraints', '%d inequalities for %d pairs' % (len(act), len(exp) // 2))
			else:
				w = witness(act, want, at)
				if 'weak' in w:
					ck.bad('linearity', con + ': constraints', 'samples %d and %d are not held to the constant' % exp[w['weak']][:2])
				elif 'strict' in w:
					ck.bad('linearity', con + ': constraints', 'refuses a constant that bounds every pair')
				else:
					ck.unknown('linearity', con + ': constraints', 'not matched')
			q = poly(asked(r[0]) if isinstance(r[0], (Poly, Arr)) else r[0]) if not isinstance(r[0], Arr) else poly(asked(r[0]).flat[0])
			u = unknowns([L])[0]
			k = value(diff(q, u), at)
			ck.verdict('linearity', con + ': value', abs(k * max(slopes) - 1) < 1e-9 and unknowns([q]) == [u], 'the constant over the largest slope without a linear part')
		guard(ck, con, go, 'linearity')


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	for c in ('psdr.LipschitzMatrix', 'psdr.DiagonalLipschitzMatrix', 'psdr.PartialLipschitzMatrix', 'psdr.LipschitzConstant'):
		if P.cls(c) is None:
			raise AnalysisBroken('%s is gone' % c)
	matrices_fitted(ck, P, tier)
	failures(ck, P)
	negative(ck, P)
	constants(ck, P)
	compatible(ck, P)
	linearity(ck, P)
