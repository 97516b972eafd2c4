"""S01: reported subspaces are orthonormal, ordered and never lose a direction."""
from fractions import Fraction as Fr
from ..loader import AnalysisBroken
from ..arr import Interp, Fn, Obj, Arr, Cannot, Raised, CELL, symbols, to_arr, poly, dot, transpose, getitem, frame, summed
from ..formula import Poly, ZERO, ONE, power, equal, div, TooBig, Undefined
from ..conv import value, Conv
from .l01 import Data, Run

RULES = [
	('columns', 'every column of the reported basis is, up to its sign, one of the orthonormal directions of the factorisation behind it', 30),
	('order', 'the columns come in the order of decreasing importance', 30),
	('sign', 'choosing the sign of a column multiplies it by plus or minus one, whatever the data', 24),
	('orientation', 'the chosen sign makes the average slope along the column non-negative', 10),
	('importance', 'what is factored to find the directions is the weighted outer product of the gradients', 6),
	('step', 'moving along the space of subspaces keeps the columns orthonormal', 6),
]
FAIL = (Cannot, Undefined, TooBig, RecursionError)


def guard(ck, rule, con, go):
	try:
		go()
	except FAIL as e:
		ck.unknown(rule, con, 'not analysed: %s' % e)
	except Raised as e:
		ck.unknown(rule, con, 'raises %s' % e.name)
	finally:
		CELL[0] = None


def col(U, k):
	m, n = U.shape
	return [poly(U.flat[i * n + k]) for i in range(m)]


def judge(ck, con, U, want, at, what='direction', sure=False):
	"""the columns of U against the directions expected, most important first"""
	U = to_arr(U)
	if len(U.shape) != 2 or U.shape[0] != len(want[0]):
		return ck.bad('columns', con, 'basis of shape %r' % (U.shape,))
	if U.shape[1] != len(want):
		return ck.bad('columns', con, '%d columns where %d are due' % (U.shape[1], len(want)))
	for k in range(U.shape[1]):
		c = col(U, k)
		c2 = '%s: column %d' % (con, k)
		if any(isinstance(x, float) for x in U.flat):
			ck.bad('columns', c2, 'not a number')
			continue
		if all(equal(x, ZERO) for x in c):
			ck.bad('sign', c2, 'the column is zero')
			continue
		hit = [j for j, w in enumerate(want) if any(all(equal(x, poly(y) * Poly.const(s)) for x, y in zip(c, w)) for s in (1, -1))]
		if hit:
			ck.ok('columns', c2, '%s %d up to its sign' % (what, hit[0]))
			ck.ok('sign', c2, 'plus or minus one')
			ck.verdict('order', c2, hit[0] == k, '%s %d in order of importance' % (what, hit[0]))
			continue
		try:
			n2 = sum(value(x, at) ** 2 for x in c)
			if abs(n2 - 1) > 1e-6:
				ck.bad('columns', c2, 'squared length %g' % n2)
				continue
			ip = [abs(sum(value(x, at) * value(poly(y), at) for x, y in zip(c, w))) for w in want]
			# with a single factorisation, whose directions are known, there is nothing else the column could be
			ck.verdict('columns', c2, False if sure and max(ip) < 1 - 1e-6 else None, 'not shown to be one of the directions (%s)' % ', '.join('%.3f' % x for x in ip))
		except (KeyError, ValueError, ZeroDivisionError):
			ck.unknown('columns', c2, 'not decided')


def slope(ck, con, U, grads, at):
	"""average slope along each column"""
	U, G = to_arr(U), to_arr(grads)
	for k in range(U.shape[1]):
		c = col(U, k)
		n = G.shape[0]
		v = sum(value(poly(G.flat[i * G.shape[1] + j]), at) * value(c[j], at) for i in range(n) for j in range(G.shape[1]))
		ck.verdict('orientation', '%s: column %d' % (con, k), v >= -1e-9, 'average slope %g' % (v / n))


def vecs(F, ks):
	return [col(F, k) for k in ks]


# gradients (rows) in each cell
GRADS = {
	'rising': [[0.9, -0.35], [0.2, 1.1], [0.4, .3]],
	'falling': [[-0.9, 0.35], [-0.2, -1.1], [-.4, -.3]],
	'mixed': [[-0.9, 1.35], [-0.2, 2.1], [.1, .2]],
	'few': [[0.3, -0.8]],
}


def gradients(name, at):
	if name == 'cancelling':
		g = symbols('g', (1, 2))
		for p, v in zip(g.flat, (.7, -.4)):
			at[[a[1] for a in p.atoms()][0]] = v
		return Arr((2, 2), list(g.flat) + [-p for p in g.flat])
	if name == 'zero':
		return Arr((2, 2), [ZERO] * 4)
	vals = GRADS[name]
	g = symbols('g', (len(vals), 2))
	for p, v in zip(g.flat, sum(vals, [])):
		at[[a[1] for a in p.atoms()][0]] = v
	return g


def interp(P, at, hooks=None):
	h = dict(hooks or {})
	h['builtins.print'] = lambda I, a, k: None
	I = Interp(P, h, steps=500000)
	I.qr_frames = True
	CELL[0] = dict(at)
	return I


def active(ck, P):
	"""active subspaces from gradients"""
	for name in ('rising', 'falling', 'mixed', 'few', 'cancelling', 'zero'):
		for weighted in (False, True):
			con = 'ActiveSubspace, %s gradients%s' % (name, ', weights' if weighted else '')

			def go(name=name, weighted=weighted, con=con):
				at = {}
				G = gradients(name, at)
				n = G.shape[0]
				I = interp(P, at)
				me = I.new(P.cls('psdr.ActiveSubspace'), [], {})
				kw = {}
				w = [Poly.const(Fr(1, n))] * n
				if weighted:
					W = symbols('w', (n,))
					for i, p in enumerate(W.flat):
						CELL[0][[a[1] for a in p.atoms()][0]] = .3 + .2 * i
					kw['weights'] = Arr(W.shape, W.flat)
					w = list(W.flat)
				I.call(I.attr(me, 'fit'), [G], kw)
				U = I.attr(me, 'U')
				at2 = dict(CELL[0])
				f = [x for x in I.factors if x['kind'] == 'svd']
				if not f:
					return ck.unknown('columns', con, 'no factorisation')
				A = f[-1]['arg']
				AAt = to_arr(dot(A, transpose(A)))
				want = [summed([w[r] * poly(G.flat[r * 2 + i]) * poly(G.flat[r * 2 + j]) for r in range(n)]) for i in range(2) for j in range(2)]
				B, V = 'U', AAt
				if A.shape[0] != 2 or not equals(V, want):
					V2 = to_arr(dot(transpose(A), A))
					if A.shape[1] == 2 and equals(V2, want):
						B, V = 'V', V2
				ck.verdict('importance', con, True if equals(V, want) else False if A.shape[0] == 2 and differs(AAt, want, at2) and not proportional(AAt, want, at2) else None, 'factors the weighted outer product')
				judge(ck, con, U, vecs(f[-1][B], range(2)), at2, sure=len(I.factors) == 1 and equals(V, want))
				if name != 'zero':
					slope(ck, con, U, G, at2)
				s = to_arr(I.attr(me, 'singvals'))
				ck.verdict('order', con + ': values', len(s.flat) == 2 and all(equal(poly(a), poly(b)) for a, b in zip(s.flat, list(f[-1]['s'].flat) + [ZERO] * 2)), 'one value per column, in the same order')
			guard(ck, 'columns', con, go)


def equals(A, want):
	return len(A.flat) == len(want) and all(equal(poly(a), b) for a, b in zip(A.flat, want))


def differs(A, want, at):
	return len(A.flat) != len(want) or max(abs(value(poly(a) - b, at)) for a, b in zip(A.flat, want)) > 1e-7


def proportional(A, want, at):
	v, w = [value(poly(a), at) for a in A.flat], [value(b, at) for b in want]
	k = sum(a * b for a, b in zip(v, w)) / max(sum(b * b for b in w), 1e-300)
	return max(abs(a - k * b) for a, b in zip(v, w)) < 1e-9 * max(1, max(abs(a) for a in v))


def outer_product(ck, P):
	"""outer product of estimated gradients"""
	ll = [f for f in P.all_functions() if f.node.name == 'local_linear_grads']
	for std in (True, False):
		for name in ('rising', 'falling', 'mixed', 'cancelling'):
			con = 'OuterProductGradient, %s gradients%s' % (name, ', standardised' if std else '')

			def go(name=name, std=std, con=con):
				at = {}
				G = gradients(name, at)
				n = G.shape[0]
				X, f = symbols('x', (3, 2)), symbols('f', (3,))
				for p, v in zip(list(X.flat) + list(f.flat), (.3, -1.2, 1.1, .4, -.6, .9, 1., 2., 4.)):
					at[[a[1] for a in p.atoms()][0]] = v
				I = interp(P, at, {x.short: (lambda I, fn, a, k: Arr(G.shape, G.flat)) for x in ll})
				me = I.new(P.cls('psdr.OuterProductGradient'), [], {'standardize': std})
				I.call(I.attr(me, 'fit'), [X, f], {})
				U = I.attr(me, 'U')
				at2 = dict(CELL[0])
				sv = [x for x in I.factors if x['kind'] == 'svd']
				qr = [x for x in I.factors if x['kind'] == 'qr']
				if not sv:
					return ck.unknown('columns', con, 'no factorisation')
				if not std:
					return judge(ck, con, U, vecs(sv[-1]['U'], range(2)), at2)
				if not qr:
					return ck.unknown('columns', con, 'directions in the original coordinates not orthonormalised here')
				judge(ck, con, U, vecs(qr[-1]['Q'], range(2)), at2)
				# the directions orthonormalised are those of the gradients carried back to the coordinates of the samples
				A = qr[-1]['arg']
				W = sv[-1]['U']
				sd = to_arr(I.np('std', [Arr(X.shape, X.flat)], {'axis': 0}))
				for k in range(2):
					w = [div(a, poly(s)) for a, s in zip(col(W, k), sd.flat)]
					c = col(A, k)
					r = [value(x, at2) / value(y, at2) for x, y in zip(c, w)]
					ck.verdict('importance', '%s: direction %d' % (con, k), abs(r[0] - r[1]) < 1e-9 * abs(r[0]), 'carried back by the scale of each coordinate')
			guard(ck, 'columns', con, go)


def lipschitz(ck, P):
	"""subspaces from Lipschitz matrices"""
	F = frame(2)
	U0 = Arr((2, 1), [F.flat[0], F.flat[2]])
	confs = [('LipschitzMatrix %s' % m, 'psdr.LipschitzMatrix', {'method': m}) for m in ('cvxopt', 'param', 'cvxpy')]
	confs += [('PartialLipschitzMatrix full rank', 'psdr.PartialLipschitzMatrix', {'rank': 2, 'verbose': False})]
	confs += [('PartialLipschitzMatrix rank one', 'psdr.PartialLipschitzMatrix', {'rank': 1, 'verbose': False, 'maxiter': 0, 'U0': U0})]
	for label, cls, kw in confs:
		for cell in ('all active', 'samples only', 'gradients only', 'nothing active', 'decreasing', 'cancelling', 'constant'):
			con = '%s, %s' % (label, cell)

			def go(label=label, cls=cls, kw=kw, cell=cell, con=con):
				d = Data('samples only' if cell == 'constant' else 'gradients only' if cell == 'cancelling' else cell)
				if cell == 'cancelling':
					d.G = gradients('cancelling', d.at)
				if cell == 'constant':
					# one value more than the others, off along the direction: slopes cancel
					d.X = Arr((3, 2), [d.X.flat[0], d.X.flat[1], d.X.flat[2], d.X.flat[3], poly(d.X.flat[0]) * Poly.const(2) - poly(d.X.flat[2]), poly(d.X.flat[1]) * Poly.const(2) - poly(d.X.flat[3])])
					d.f = Arr((3,), [d.f.flat[0], d.f.flat[1], d.f.flat[1]])
				r = Run(P, cls, d, kw, '')
				eig = [x for x in r.I.factors if x['kind'] == 'eigh']
				CELL[0] = dict(r.at)
				U = to_arr(r.I.attr(r.me, 'U'))
				V = eig[-1]['V']
				m = V.shape[0]
				if label.endswith('rank one'):
					V = to_arr(dot(U0, V))
				judge(ck, con, U, vecs(V, range(m - 1, -1, -1)), dict(r.at), sure=len(r.I.factors) == 1)
			guard(ck, 'columns', con, go)
	for sc in ((1., 3., 2.), (3., 2., 1.), (.1, .2, .3), (2., .5, 4.)):
		con = 'DiagonalLipschitzMatrix, scores %g %g %g' % sc

		def go(sc=sc, con=con):
			I = interp(P, {})
			me = Obj(P.cls('psdr.DiagonalLipschitzMatrix'), {'_dimension': 3, '_U': None})
			f = symbols('f', (3,))

			def build(*a, **k):
				h = symbols('h', (3,))
				for p, v in zip(h.flat, sc):
					CELL[0][[x[1] for x in p.atoms()][0]] = v
				return Arr((3, 3), [h.flat[i] if i == j else ZERO for i in range(3) for j in range(3)])
			me.attrs['_build_lipschitz_matrix'] = build
			X = symbols('x', (2, 3))
			CELL[0] = {}
			fit = P.cls('psdr.DiagonalLipschitzMatrix').lookup('_fit')
			if fit is None:
				raise Cannot('_fit is gone')
			s = Poly.var('scale')
			CELL[0]['scale'] = 3.
			I.call(I.attr(me, '_fit'), [X, symbols('f', (2,)), symbols('g', (0, 3)), ZERO, s], {})
			U = to_arr(I.attr(me, 'U'))
			ks = sorted(range(3), key=lambda k: -sc[k])
			judge(ck, con, U, [[ONE if i == k else ZERO for i in range(3)] for k in ks], {}, 'coordinate')
		guard(ck, 'columns', con, go)


def approximation(ck, P):
	cls = P.cls('psdr.lipschitz_approx.LipschitzApproximation')

	def go():
		at = {}
		L = symbols('l', (2, 2))
		for p, v in zip(L.flat, (1.3, -.4, .2, .7)):
			at[[a[1] for a in p.atoms()][0]] = v
		I = interp(P, at)
		me = I.new(cls, [L, Obj('domain', {})], {})
		U = I.attr(me, 'U')
		f = [x for x in I.factors if x['kind'] == 'svd'][-1]
		if not equals(f['arg'], [poly(x) for x in L.flat]):
			if equals(f['arg'], [poly(x) for x in transpose(L).flat]):
				return judge(ck, 'LipschitzApproximation', U, vecs(f['U'], range(2)), dict(CELL[0]), sure=len(I.factors) == 1)
			raise Cannot('factorisation of something else')
		judge(ck, 'LipschitzApproximation', U, vecs(f['V'], range(2)), dict(CELL[0]), sure=len(I.factors) == 1)
	guard(ck, 'columns', 'LipschitzApproximation', go)

	def const():
		I = interp(P, {})
		me = Obj(P.cls('psdr.LipschitzConstant'), {'_dimension': 3, '_L': Poly.var('c')})
		judge(ck, 'LipschitzConstant', I.attr(me, 'U'), [[ONE if i == k else ZERO for i in range(3)] for k in range(3)], {}, 'coordinate')
	guard(ck, 'columns', 'LipschitzConstant', const)


def ridge(ck, P):
	"""polynomial ridge approximations"""
	cls = P.cls('psdr.PolynomialRidgeApproximation')
	bases = ['LegendreTensorBasis', 'MonomialTensorBasis', 'ChebyshevTensorBasis', 'LaguerreTensorBasis', 'HermiteTensorBasis', 'ArnoldiPolynomialBasis']
	gn, sl = P.func('psdr.gn.gauss_newton'), P.func('psdr.seqlp.sequential_lp')

	def setup(n, cell, degree=3, hooks=None):
		at = {}
		m, M = 4, 3
		X, f = symbols('x', (M, m)), symbols('f', (M,))
		for i, p in enumerate(list(X.flat) + list(f.flat)):
			at[[a[1] for a in p.atoms()][0]] = [.3, -.7, 1.1, .45, -.2, .9][i % 6] + .013 * i * i
		G = symbols('g', (M, n))
		vals = {'rising': [1., .4, .7, .2, .5, .9], 'falling': [-1., -.4, -.7, -.2, -.5, -.9], 'mixed': [1., -.8, .3, -.5, .9, -.1]}
		for p, v in zip(G.flat, vals.get(cell, vals['rising'])):
			at[[a[1] for a in p.atoms()][0]] = v
		if cell == 'cancelling':
			G = Arr((M, n), list(G.flat[:n]) + [-p for p in G.flat[:n]] + [ZERO] * n)
		h = dict(hooks or {})
		N = 3

		def basis(I, cls_, args, kw):
			V, DV = symbols('V', (M, N)), symbols('DV', (M, N, n))
			return Obj(cls_, {'V': lambda Y=None: Arr(V.shape, V.flat), 'DV': lambda Y=None: Arr(DV.shape, DV.flat), '@len': N})
		for b in bases:
			h[P.cls('psdr.' + b).qualname] = basis
		points = []

		def profile(I, cls_, args, kw):
			def grad(Y):
				points.append(to_arr(Y))
				return Arr(G.shape, G.flat)
			return Obj(cls_, {'grad': grad})
		h[P.cls('psdr.poly.PolynomialFunction').qualname] = profile
		for q in ('scipy.linalg.lstsq', 'numpy.linalg.lstsq'):
			h[q] = lambda I, a, k: (symbols('c', (to_arr(a[0]).shape[1],)), None, None, None)
		h['scipy.special.comb'] = lambda I, a, k: -1000
		I = interp(P, at, h)
		me = I.new(cls, [degree, n], {})
		return I, me, X, f, G, points
	for n in (1, 2):
		for cell in ('rising', 'falling', 'mixed', 'cancelling'):
			con = 'ridge fit, fixed subspace of dimension %d, %s profile' % (n, cell)

			def go(n=n, cell=cell, con=con):
				I, me, X, f, G, pts = setup(n, cell)
				U0 = getitem(frame(4), (slice(None), slice(0, n)))
				I.call(I.attr(me, 'fit_fixed_subspace'), [X, f, Arr(U0.shape, U0.flat)], {})
				U = to_arr(I.attr(me, 'U'))
				at = dict(CELL[0])
				sv = [x for x in I.factors if x['kind'] == 'svd']
				base = U0
				if n > 1 and sv:
					F = sv[-1]['U'] if equals(sv[-1]['arg'], [poly(x) for x in transpose(G).flat]) else sv[-1]['V'] if equals(sv[-1]['arg'], [poly(x) for x in G.flat]) else None
					if F is None:
						raise Cannot('rotation by something else')
					base = to_arr(dot(U0, F))
				elif n > 1:
					raise Cannot('no rotation')
				judge(ck, con, U, vecs(base, range(n)), at, sure=len(I.factors) == 1 or n == 1)
				slope_(ck, con, U, base, G, at)
				# the slopes that decide the sign are taken at the samples in the coordinates in use
				Y = [to_arr(dot(X, U0)), to_arr(dot(X, base))]
				last = pts[-1] if pts else None
				ck.verdict('orientation', con + ': points', None if last is None else equals(last, [poly(x) for x in Y[-1].flat]) or (False if differs(last, [poly(x) for x in Y[-1].flat], at) else None), 'slopes taken at the samples in the coordinates of the basis')
			guard(ck, 'columns', con, go)
	for n in (1, 2):
		for neg in ((1., 1.), (-1., 1.), (0., 1.)):
			con = 'ridge fit, start of dimension %d, factor diagonal %g %g' % ((n,) + neg)

			def go(n=n, neg=neg, con=con):
				seen = {}

				def grab(I, fn, args, kw):
					seen['x0'] = dict(zip([a.arg for a in fn.node.args.args], args), **kw).get('x0')
					x = seen['x0']
					return (x, {}) if fn.f is gn else x
				I, me, X, f, G, pts = setup(n, 'rising', hooks={gn.short: grab, sl.short: grab})
				I.diagonal = lambda k: list(neg)[:k]
				W = symbols('W', (4, n))
				I.call(I.attr(me, 'fit'), [X, f], {'U0': W})
				if seen.get('x0') is None:
					raise Cannot('no start')
				U = Arr((4, n), [poly(x) for x in to_arr(seen['x0']).flat][:4 * n])
				qr = [x for x in I.factors if x['kind'] == 'qr']
				if not qr:
					raise Cannot('start not orthonormalised here')
				judge(ck, con, U, vecs(qr[0]['Q'], range(n)), dict(CELL[0]))
			guard(ck, 'columns', con, go)
	for label, kw, solver in (('Gauss-Newton', {}, gn), ('sequential linear programming', {'norm': 1}, sl), ('sequential linear programming, bound', {'bound': 'lower'}, sl)):
		for n in (1, 2):
			con = '%s step, dimension %d' % (label, n)

			def go(kw=kw, solver=solver, n=n, con=con):
				got = {}

				def grab(I, fn, args, kw_):
					d = dict(zip([a.arg for a in fn.node.args.args], args))
					d.update(kw_)
					got.update(d)
					raise Raised('@stop')
				I, me, X, f, G, pts = setup(n, 'rising', hooks={gn.short: grab, sl.short: grab})
				for k, v in kw.items():
					me.attrs[k] = v
				for b in ('one_norm_fit', 'two_norm_fit', 'inf_norm_fit', 'bound_fit'):
					I.hooks['polyridge.' + b] = lambda I, fn, a, k: symbols('c', (to_arr(a[0]).shape[1],))
				F = frame(4)
				try:
					I.call(I.attr(me, 'fit'), [X, f], {'U0': getitem(F, (slice(None), slice(0, n)))})
				except Raised as e:
					if e.name != '@stop':
						raise
				tr = got.get('trajectory')
				if tr is None:
					raise Cannot('no trajectory')
				N = 3
				I.factors = []
				U = getitem(F, (slice(None), slice(0, n)))
				# a tangent direction: columns orthogonal to the columns of U, of unknown coefficients
				C = symbols('d', (4 - n, n))
				for i, p in enumerate(C.flat):
					CELL[0][[a[1] for a in p.atoms()][0]] = .4 - .17 * i
				D = to_arr(dot(getitem(F, (slice(None), slice(n, 4))), C))
				x0 = list(U.flat)
				p0 = list(D.flat)
				if solver is sl:
					x0 += [Poly.var('c%d' % i) for i in range(N)]
					p0 += [Poly.var('pc%d' % i) for i in range(N)]
					for i in range(N):
						CELL[0]['c%d' % i] = 1. + i
						CELL[0]['pc%d' % i] = .3 - i
				t = Poly.var('t')
				CELL[0]['t'] = .35
				# representative factors of the tangent direction
				Y = getitem(F, (slice(None), slice(n, 2 * n)))
				Z = frame(n)
				seen = []

				def svd(I, args, k):
					A = to_arr(args[0])
					if A.shape != (4, n):
						raise Cannot('factorisation of another matrix')
					seen.append(A)
					s = symbols('sv', (n,))
					for i, p in enumerate(s.flat):
						CELL[0][[a[1] for a in p.atoms()][0]] = 1.2 - .5 * i
					return (Arr(Y.shape, Y.flat), s, transpose(Z))
				for q in ('scipy.linalg.svd', 'numpy.linalg.svd'):
					I.hooks[q] = svd
				I.qr_frames = False
				for q in ('numpy.linalg.qr', 'scipy.linalg.qr'):
					I.hooks[q] = qr_orthonormal
				out = to_arr(I.call(tr, [Arr((len(x0),), x0), Arr((len(p0),), p0), t], {}))
				at = dict(CELL[0])
				W = Arr((4, n), out.flat[:4 * n])
				if not seen:
					raise Cannot('step not read')
				# what was factored is tangent
				T = to_arr(dot(transpose(U), seen[-1]))
				ok = all(equal(poly(x), ZERO) for x in T.flat)
				if not ok:
					ck.unknown('step', con + ': tangent', 'what was factored is not tangent')
				Gm = to_arr(dot(transpose(W), W))
				want = [ONE if i == j else ZERO for i in range(n) for j in range(n)]
				if equals(Gm, want):
					ck.ok('step', con, 'orthonormal for every step length')
				else:
					d = max(abs(value(poly(a) - b, at)) for a, b in zip(Gm.flat, want))
					ck.verdict('step', con, False if ok and d > 1e-7 else None, 'columns are off orthonormal by %g' % d)
			guard(ck, 'step', con, go)


class NotOrthonormal(Exception):
	pass


def qr_orthonormal(I, args, kw):
	"""factors of a matrix whose columns are orthonormal already: itself up to signs"""
	A = to_arr(args[0])
	m, n = A.shape
	G = to_arr(dot(transpose(A), A))
	want = [ONE if i == j else ZERO for i in range(n) for j in range(n)]
	if equals(G, want):
		return (Arr(A.shape, [-poly(x) for x in A.flat]), Arr((n, n), [-x for x in want]))
	return (getitem(frame(m), (slice(None), slice(0, n))), Arr((n, n), [Poly.const(Fr(3, 2)) if i == j else ZERO if i > j else Poly.var('r') for i in range(n) for j in range(n)]))


def slope_(ck, con, U, base, G, at):
	"""average slope of the profile along each column (the gradient of the profile is taken as given)"""
	n = U.shape[1]
	for k in range(n):
		a, b = [value(x, at) for x in col(U, k)], [value(x, at) for x in col(base, k)]
		s = sum(x * y for x, y in zip(a, b))
		v = s * sum(value(poly(G.flat[i * n + k]), at) for i in range(G.shape[0]))
		ck.verdict('orientation', '%s: column %d' % (con, k), v >= -1e-9 if abs(abs(s) - 1) < 1e-6 else None, 'average slope %g' % v)


def start(ck, P):
	f = P.func('psdr.initialization.initialize_subspace')
	ll = [x for x in P.all_functions() if x.node.name == 'local_linear_grads']
	for what in ('samples', 'gradients', 'both'):
		con = 'initial subspace from ' + what

		def go(what=what, con=con):
			at = {}
			X, fX, g = symbols('x', (4, 2)), symbols('f', (4,)), symbols('g', (1 if what == 'both' else 3, 2))
			h = {x.short: (lambda I, fn, a, k: symbols('e', (3, 2))) for x in ll}
			h['numpy.random.permutation'] = lambda I, a, k: Arr((4,), [2, 0, 3, 1])
			I = interp(P, at, h)
			kw = {}
			if what != 'gradients':
				kw.update(X=X, fX=fX)
			if what != 'samples':
				kw.update(grads=g)
			U = to_arr(I.call(Fn(f, f.node, None, None), [], kw))
			sv = [x for x in I.factors if x['kind'] == 'svd']
			if not sv:
				raise Cannot('no factorisation')
			F = sv[-1]['U'] if sv[-1]['arg'].shape[0] == 2 and sv[-1]['arg'].shape[1] != 2 else sv[-1]['V']
			judge(ck, con, U, vecs(F, range(2)), dict(CELL[0]))
		guard(ck, 'columns', con, go)


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	for c in ('psdr.ActiveSubspace', 'psdr.OuterProductGradient', 'psdr.LipschitzMatrix', 'psdr.DiagonalLipschitzMatrix', 'psdr.PartialLipschitzMatrix', 'psdr.PolynomialRidgeApproximation'):
		if P.cls(c) is None:
			raise AnalysisBroken('%s is gone' % c)
	active(ck, P)
	outer_product(ck, P)
	lipschitz(ck, P)
	approximation(ck, P)
	ridge(ck, P)
	start(ck, P)
