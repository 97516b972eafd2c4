"""The domains at concrete shapes with symbolic data (used by D01-D05): every query is interpreted with the declared data as
symbols, and the program it poses, the rows it reports or the step it allows is compared with the declared constraints."""
import math
from ..shapes import *
from ..shapes import LABELS
from ..arr import asked, Fn
from ..conv import unknowns
from .. import arr
from .r01 import tried
from ..arr import Raised

EXC = (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError, OverflowError)


def guarded(ck, rule, con, go):
	def run():
		try:
			go()
		except Raised as e:
			if e.name in ('IndexError', 'ValueError', 'AssertionError', 'UnboundLocalError', 'ZeroDivisionError'):
				return ck.bad(rule, con, 'a query every domain of this kind answers ends in %s' % e.name)
			raise
		except EXC as e:
			ck.unknown(rule, con, 'not read: %s %s' % (type(e).__name__, e))
	tried(ck, rule, con, run)


def say(ck, rule, con, where, verdict):
	v, what = verdict
	ck.verdict(rule, con, v, ('%s: ' % where if v is False else '') + what)


def pick(w, answer, S):
	"""the problem whose solution the answer is made of, and the answer over its decision variables"""
	flat = [poly(t) for t in to_arr(answer).flat]
	own = {a[1].split('[')[0] for p in flat for a in p.atoms() if a[0] == 'v' and a[1].startswith('!')}
	best = None
	for p in w.conv.problems:
		if not p['solved']:
			continue
		rows = [x for c in p['constraints'] for x in atoms_of(S, c)]
		g = {n.split('[')[0] for n in names_of(rows)}
		o = p['objective'].attrs['expr']
		o = o.attrs['arg'] if isinstance(o, Obj) else o
		g |= {n.split('[')[0] for n in unknowns([poly(t) for t in to_arr(o).flat])}
		if {'!' + n[1:] for n in g} & own:
			best = (p, rows, g)
	if best is None:
		return None
	p, rows, g = best
	main = {n for n in g if '!' + n[1:] in own}
	# rows that share no variable with the answer do not matter
	live = set(main)
	while True:
		more = {n.split('[')[0] for r in rows for n in names_of([r]) if {x.split('[')[0] for x in names_of([r])} & live} - live
		if not more:
			break
		live |= more
	rows = [r for r in rows if not names_of([r]) or {x.split('[')[0] for x in names_of([r])} & live]
	back = lambda n: '?' + n[1:] if n.startswith('!') and '?' + n[1:].split('[')[0] in main else n
	return p, rows, main, [S.of(rename(t, back)) for t in flat]


def total(decls):
	return max(d.at + d.m for d in decls)


# D02 ----------------------------------------------------------------------------------
def programs(ck, P):
	ck.rule('posed-region', 'at concrete shapes the program of each query, written in the coordinates of its answer, is the declared region: no row lost, none altered, none added', 20)
	ck.rule('posed-objective', 'at concrete shapes the objective of each query, written in the coordinates of its answer, orders points as documented', 20)
	for lab in LABELS:
		for q in ('closest_point', 'closest_point with a metric', 'corner', 'constrained_least_squares'):
			guarded(ck, 'posed-region', '%s.%s' % (lab, q), lambda: one(ck, P, lab, q))
	for lab in LABELS:
		guarded(ck, 'posed-region', '%s in the caller\'s coordinates' % lab, lambda: user(ck, P, lab))
	sweep(ck, P)


def one(ck, P, lab, q):
	con = '%s.%s' % (lab, q)
	w = World(P)
	o, d = w.make(lab)
	m = total(d)
	I = w.I
	if q.startswith('closest'):
		x0 = symbols('x0', (m,))
		fill('', x0, [9.] * m)
		L, args = None, [x0]
		if q != 'closest_point':
			L = symbols('LL', (2, m))
			fill('', L, [.3 * i + .5 for i in range(2 * m)])
			args.append(L)
		r = I.call(I.attr(o, 'closest_point'), args, {})
	elif q == 'corner':
		p = symbols('p', (m,))
		fill('', p, [.5 - .3 * i for i in range(m)])
		r = I.call(I.attr(o, 'corner'), [p], {})
	else:
		A, b = symbols('AA', (2, m)), symbols('bb', (2,))
		fill('', A, [.3 * i - .7 for i in range(2 * m)])
		r = I.call(I.attr(o, q), [A, b], {})
	if to_arr(r).shape != (m,):
		return ck.bad('posed-region', con, '%s: the answer has shape %r' % (q, to_arr(r).shape))
	S = Scale()
	got = pick(w, r, S)
	if got is None:
		if q == 'corner' and all(not dd.A and not dd.A_eq and not dd.quads and not dd.hull for dd in d):
			want = [(dd.ub if num2sign(p.flat[dd.at + i]) > 0 else dd.lb)[i] for dd in d for i in range(dd.m)]
			return ck.verdict('posed-region', con, all(proportional0(S, poly(a), poly(b)) for a, b in zip(to_arr(r).flat, want)), 'extreme point of the bounds')
		return ck.unknown('posed-region', con, 'no program behind the answer')
	p_, rows, main, xs = got
	want = declared(S, d, xs)
	rows, want = align(S, rows, want, d, main)
	st = starter(S, d, xs)
	say(ck, 'posed-region', con, q, same_region(S, rows, want, st))
	g = goal(S, p_['objective'])
	if q.startswith('closest'):
		y = [S.sub(x, S.of(t)) for x, t in zip(xs, x0.flat)]
		f = S.squares([S.lin(row, y) for row in rowsof(L)]) if L else S.squares(y)
		text = 'the distance to the point asked for'
	elif q == 'corner':
		f = S.sub(S.zero(), S.lin(p.flat, xs))
		text = 'the product with the direction, maximised'
	else:
		f = S.squares([S.sub(S.lin(row, xs), S.of(t)) for row, t in zip(rowsof(A), b.flat)])
		text = 'the least-squares residual'
	v = same_function(g, f, want, st)
	ck.verdict('posed-objective', con, v, text if v else 'not decided' if v is None else '%s: two points of the domain are ordered differently by %s and by the objective posed' % (q, text))


def num2sign(p):
	return arr.sign(poly(p))


def proportional0(S, a, b):
	x, y = S.of(a), S.of(b)
	return all(abs(p.get((), 0.) - q.get((), 0.)) < 1e-9 * (1 + abs(q.get((), 0.))) and set(p) <= {()} and set(q) <= {()} for p, q in zip(x, y))


def same_values(S, a, b):
	"""two arrays of formulas, at every cell"""
	a, b = to_arr(a), to_arr(b)
	if len(a.flat) != len(b.flat):
		return False
	for x, y in zip(a.flat, b.flat):
		if arr.infinite(num2(x)) or arr.infinite(num2(y)):
			if not (arr.infinite(num2(x)) and arr.infinite(num2(y)) and num2(x) == num2(y)):
				return False
			continue
		p, q = S.of(x), S.of(y)
		for u, v in zip(p, q):
			if any(abs(u.get(k, 0.) - v.get(k, 0.)) > 1e-8 * (1 + abs(u.get(k, 0.))) for k in set(u) | set(v)):
				return False
	return True


def user(ck, P, lab):
	con = '%s in the caller\'s coordinates' % lab
	w = World(P)
	o, d = w.make(lab)
	m = total(d)
	x = symbols('?x', (m,))
	cons = w.I.call(w.I.attr(o, '_build_constraints'), [x], {})
	S = Scale()
	rows = [t for c in w.I.iterate(cons) for t in atoms_of(S, c)]
	xs = [S.of(t) for t in x.flat]
	want = declared(S, d, xs)
	rows, want = align(S, rows, want, d, {'?x'})
	say(ck, 'posed-region', con, '_build_constraints', same_region(S, rows, want, starter(S, d, xs)))


def sweep(ck, P):
	ck.rule('sweep', 'a sweep runs in equal steps between the boundary points found on both sides of the starting point, or between the two corners', 2)
	for corner in (False, True):
		con = 'sweep %s' % ('between corners' if corner else 'through a point')

		def go():
			w = World(P)
			o, d = w.box('a', 2)
			x, p = symbols('x', (2,)), symbols('p', (2,))
			fill('', x, [.7, .4])
			fill('', p, [1., .5])
			r = w.I.call(w.I.attr(o, 'sweep'), [5], dict(x=x, p=p, corner=corner))
			X = to_arr(r[0])
			if X.shape != (5, 2):
				return ck.bad('sweep', con, 'shape %r' % (X.shape,))
			S = Scale()
			neg = Arr((2,), [ZERO - poly(t) for t in p.flat])
			if corner:
				U, D = [to_arr(w.I.call(w.I.attr(o, 'corner'), [t], {})) for t in (p, neg)]
			else:
				tu, td = [poly(w.I.call(w.I.attr(o, 'extent'), [x, t], {})) for t in (p, neg)]
				U = Arr((2,), [poly(a) + tu * poly(b) for a, b in zip(x.flat, p.flat)])
				D = Arr((2,), [poly(a) - td * poly(b) for a, b in zip(x.flat, p.flat)])

			def line(A, B):
				out = []
				for i in range(5):
					t = Poly.const(Fr(i, 4))
					out += [(ONE - t) * poly(a) + t * poly(b) for a, b in zip(A.flat, B.flat)]
				return Arr((5, 2), out)
			ok = same_values(S, X, line(U, D)) or same_values(S, X, line(D, U))
			ck.verdict('sweep', con, ok, 'five points' if ok else 'sweep: the points are not the five equally spaced ones between the two boundary points')
		guarded(ck, 'sweep', con, go)


# reading back ---------------------------------------------------------------------------
def read(I, o, at=0, hulls=True):
	"""what the domain object reports"""
	names = [c.short if hasattr(c, 'short') else c.qualname.split('.')[-1] for c in o.cls.mro()]
	names = [n.split('.')[-1] for n in names]
	if 'TensorProductDomain' in names and hulls:
		out = []
		for p in I.iterate(I.attr(o, 'domains')):
			out += read(I, p, at)
			at = max(d.at + d.m for d in out)
		return out
	m = arr.integer(I.builtin('len', [o], {}))
	A, E = to_arr(I.attr(o, 'A')), to_arr(I.attr(o, 'A_eq'))
	b, e = to_arr(I.attr(o, 'b')), to_arr(I.attr(o, 'b_eq'))
	if A.shape[0] != len(b.flat) or E.shape[0] != len(e.flat):
		raise Mismatch('%d inequality rows with %d right-hand sides, %d equality rows with %d' % (A.shape[0], len(b.flat), E.shape[0], len(e.flat)))
	if (A.shape[0] and A.shape[1] != m) or (E.shape[0] and E.shape[1] != m):
		raise Mismatch('rows of the wrong length')
	Ls, ys, rs = [list(I.iterate(I.attr(o, n))) for n in ('Ls', 'ys', 'rhos')]
	if len({len(Ls), len(ys), len(rs)}) != 1:
		raise Mismatch('%d matrices, %d centres, %d radii' % (len(Ls), len(ys), len(rs)))
	q = []
	for L, y, r in zip(Ls, ys, rs):
		if to_arr(L).shape[-1] != m or len(to_arr(y).flat) != m:
			raise Mismatch('quadratic constraint of the wrong size')
		q.append((rowsof(L), list(to_arr(y).flat), r))
	d = Decl(m, at, lb=list(to_arr(I.attr(o, 'lb')).flat), ub=list(to_arr(I.attr(o, 'ub')).flat), A=rowsof(A) if A.shape[0] else [], b=list(b.flat), A_eq=rowsof(E) if E.shape[0] else [], b_eq=list(e.flat), quads=q)
	if len(d.lb) != m or len(d.ub) != m:
		raise Mismatch('bounds of the wrong length')
	if 'ConvexHullDomain' in names and hulls:
		d.hull = rowsof(I.attr(o, 'X'))
	return [d]


class Mismatch(Exception):
	pass


def regions(S, got, want, at_got=None, at_want=None):
	"""the two declarations describe the same region of the unknowns"""
	n = total(want)
	x = [S.of(Poly.var('?x[%d]' % i)) for i in range(n)]
	g = declared(S, got, at_got or x)
	w = declared(S, want, at_want or x)
	return same_region(S, g, w, starter(S, want, at_want or x))


# D04 ----------------------------------------------------------------------------------
def given(n, c):
	"""rows to add, each cutting off part of the surroundings of the centre"""
	m = len(c)
	A, b = ineqs(n, m, 1, off=3)
	fill('', b, [sum(v * x for v, x in zip(DIRS[3] + (.7, -.6, .4, .2), c)) + .45])
	fill('', A, (DIRS[3] + (.7, -.6, .4, .2))[:m])
	E, f = eqs(n, m, 1)
	fill('', E, (DIRS[4] + (-.7, .5, .3, .6))[:m])
	fill('', f, [sum(v * x for v, x in zip(DIRS[4] + (-.7, .5, .3, .6), c))])
	lb, ub = symbols(n + 'lb', (m,)), symbols(n + 'ub', (m,))
	fill('', lb, [x - 1.137 for x in c])
	fill('', ub, [x + 1.013 for x in c])
	L, y, r = symbols(n + 'L', (m, m)), symbols(n + 'y', (m,)), Poly.var(n + 'r')
	fill('', L, [1.2 if i == k else .2 * (i - k + .5) for i in range(m) for k in range(m)])
	fill('', y, [x - .1 for x in c])
	CELL[0][n + 'r'] = 1.3
	return {('A', 'b'): (dict(A=A, b=b), dict(A=rowsof(A), b=b.flat)), ('A_eq', 'b_eq'): (dict(A_eq=E, b_eq=f), dict(A_eq=rowsof(E), b_eq=f.flat)), ('lb',): (dict(lb=lb), dict(lb=lb.flat)), ('ub',): (dict(ub=ub), dict(ub=ub.flat)),
		('Ls', 'ys', 'rhos'): (dict(Ls=[L], ys=[y], rhos=[r]), dict(quads=[(rowsof(L), y.flat, r)]))}


def hullrows(I, fn, a, k):
	X = to_arr(a[0])
	m = X.shape[1]
	A, b = ineqs('F', m, 3, what='A', rhs='b', off=0, margin=(1.3, 1.4, 1.2))
	if not hasattr(hullrows, 'made'):
		hullrows.made = []
	hullrows.made.append((X, A, b))
	return (A, b, Arr((0, m), []), Arr((0,), []), X)


def facets_of(decls):
	"""hulls replaced by the inequalities they are written as"""
	out = []
	for d in decls:
		e = d.at_(d.at)
		if d.hull:
			A, b = symbols('FA', (3, d.m)), symbols('Fb', (3,))
			e.hull = None
			e.A, e.b = list(e.A) + rowsof(A), list(e.b) + list(b.flat)
		out.append(e)
	return out


def combos(ck, P):
	ck.rule('rows-reported', 'at concrete shapes a domain and a product report the rows of their parts on the parts\' coordinates', 10)
	ck.rule('rows-added', 'at concrete shapes a domain with constraints added has its own rows and exactly the rows given', 30)
	ck.rule('rows-combined', 'at concrete shapes A & B has the rows of both', 20)
	from . import shape as me
	for lab in LABELS:
		def report():
			w = World(P)
			o, d = w.make(lab)
			try:
				got = read(w.I, o, hulls=False)
			except Mismatch as e:
				return ck.bad('rows-reported', lab, '%s reports %s' % (lab, e))
			bare = [x.at_(x.at) for x in d]
			for x in bare:
				x.hull = None
			say(ck, 'rows-reported', lab, 'lb, ub, A, b, A_eq, b_eq, Ls, ys, rhos', regions(Scale(), got, bare))
			ns = [n for n in w.I.iterate(w.I.attr(o, 'names'))]
			ck.verdict('rows-reported', lab + ' names', len(ns) == total(d) or None, '%d names' % len(ns))
		guarded(ck, 'rows-reported', lab, report)
		for fam in (('A', 'b'), ('A_eq', 'b_eq'), ('lb',), ('ub',), ('Ls', 'ys', 'rhos')):
			con = '%s with %s' % (lab, ', '.join(fam))

			def add():
				hullrows.made = []
				w = World(P, {'domains.convexhull._hull_to_linineq': hullrows})
				o, d = w.make(lab)
				m = total(d)
				kw, extra = given('g', centre(d))[fam]
				r = w.I.call(w.I.attr(o, 'add_constraints'), [], kw)
				try:
					got = read(w.I, r)
				except Mismatch as e:
					return ck.bad('rows-added', con, 'add_constraints returns %s' % e)
				if total(got) != m:
					return ck.bad('rows-added', con, 'add_constraints changes the dimension from %d to %d' % (m, total(got)))
				want = d if any(x.hull for x in got) else facets_of(d)
				if any(x.hull for x in d) and not any(x.hull for x in got) and not hullrows.made:
					if [x for x in d if x.hull]:
						return ck.verdict('rows-added', con, False if not named(got, 'X') else None, 'add_constraints loses the points of the hull')
				say(ck, 'rows-added', con, 'add_constraints', regions(Scale(), got, want + [Decl(m, **extra)]))
				ns = [n for n in w.I.iterate(w.I.attr(r, 'names'))]
				ck.verdict('rows-added', con + ' names', len(ns) == m or None, '%d names' % len(ns))
			guarded(ck, 'rows-added', con, add)
	pairs = ('LinQuadDomain', 'LinIneqDomain', 'BoxDomain', 'ConvexHullDomain', 'LinQuadDomain open above', 'ConvexHullDomain with an equality')
	for la in pairs:
		for lb_ in pairs:
			con = '%s & %s' % (la, lb_)

			def both():
				hullrows.made = []
				w = World(P, {'domains.convexhull._hull_to_linineq': hullrows})
				mk = {'LinQuadDomain': lambda n: w.linquad(n, 2), 'LinIneqDomain': lambda n: w.linineq(n, 2), 'BoxDomain': lambda n: w.box(n, 2), 'ConvexHullDomain': lambda n: w.hull(n),
					'LinQuadDomain open above': lambda n: w.linquad(n, 2, half=True), 'ConvexHullDomain with an equality': lambda n: w.hull(n, eq=True)}
				a, da = mk[la]('a')
				b, db = mk[lb_]('h')
				# data of the second differ in value
				for n in list(CELL[0]):
					if n.startswith('h'):
						CELL[0][n] += .07 if 'b' in n or 'r' in n else -.03 if 'X' in n else .02
				r = w.I.call(w.I.attr(a, '__and__'), [b], {})
				try:
					got = read(w.I, r)
				except Mismatch as e:
					return ck.bad('rows-combined', con, '& returns %s' % e)
				if sum(1 for x in got if x.hull) == sum(1 for x in (da, db) if x.hull):
					want = [da, db]
				elif da.hull and db.hull:
					keep = [h for h in (da, db) if [x for x in got if x.hull] and same_values(Scale(), Arr((len(h.hull), 2), [t for r in h.hull for t in r]), Arr((len([x for x in got if x.hull][0].hull), 2), [t for r in [x for x in got if x.hull][0].hull for t in r]))]
					if len([x for x in got if x.hull]) != 1 or not keep or len(hullrows.made) != 1:
						return ck.unknown('rows-combined', con, 'two hulls')
					want = [keep[0]] + facets_of([db if keep[0] is da else da])
				else:
					want = facets_of([da, db])
				say(ck, 'rows-combined', con, '&', regions(Scale(), got, want))
			guarded(ck, 'rows-combined', con, both)


def named(decls, n):
	for d in decls:
		for row in list(d.A) + list(d.A_eq):
			for p in row:
				if any(a[0] == 'v' and a[1].startswith('a' + n) for a in p.atoms()):
					return True
	return False


# D05 ----------------------------------------------------------------------------------
def coordinates(ck, P):
	ck.rule('normalized-region', 'at concrete shapes the normalised domain contains the normalised point exactly when the domain contains the point', 10)
	ck.rule('round-trip', 'at concrete shapes unnormalising a normalised point gives it back, and the derivatives of the two maps are those of the maps', 10)
	ck.rule('normalized-data', 'the linear data held in normalised coordinates leave the slack of the point they stand for', 10)
	for lab in LABELS:
		def go():
			w = World(P)
			o, d = w.make(lab)
			m = total(d)
			x = symbols('?x', (m,))
			n = w.I.call(w.I.attr(o, 'normalized_domain'), [], {})
			y = to_arr(w.I.call(w.I.attr(o, 'normalize'), [x], {}))
			try:
				got = read(w.I, n)
			except Mismatch as e:
				return ck.bad('normalized-region', lab, 'normalized_domain returns %s' % e)
			S = Scale()
			if total(got) != m or y.shape != (m,):
				return ck.bad('normalized-region', lab, 'the dimension changes from %d to %d' % (m, total(got)))
			xs = [S.of(t) for t in x.flat]
			say(ck, 'normalized-region', lab, 'normalized_domain', regions2(S, got, d, [S.of(t) for t in y.flat], xs))
		guarded(ck, 'normalized-region', lab, go)

		def trip():
			w = World(P)
			o, d = w.make(lab)
			m = total(d)
			S = Scale()
			x = symbols('u', (m,))
			X = symbols('U', (2, m))
			for z, what in ((x, 'one point'), (X, 'two points')):
				y = w.I.call(w.I.attr(o, 'normalize'), [z], {})
				back = w.I.call(w.I.attr(o, 'unnormalize'), [y], {})
				ok = to_arr(y).shape == z.shape and to_arr(back).shape == z.shape and same_values(S, back, z)
				ck.verdict('round-trip', '%s, %s' % (lab, what), ok, 'identity' if ok else 'unnormalize(normalize(x)) is not x')
			D, E = to_arr(w.I.call(w.I.attr(o, '_normalize_der'), [], {})), to_arr(w.I.call(w.I.attr(o, '_unnormalize_der'), [], {}))
			ok = D.shape == E.shape == (m, m) and same_values(S, dot(D, E), Arr((m, m), [ONE if i == j else ZERO for i in range(m) for j in range(m)]))
			ck.verdict('round-trip', '%s derivatives' % lab, ok, 'inverse matrices' if ok else 'the derivatives of normalize and unnormalize are not inverse')
			y = to_arr(w.I.call(w.I.attr(o, 'normalize'), [x], {}))
			from ..formula import diff as dd
			J = [dd(poly(t), 'u[%d]' % j) for t in y.flat for j in range(m)]
			ok = D.shape == (m, m) and same_values(S, D, Arr((m, m), J))
			ck.verdict('round-trip', '%s derivative of normalize' % lab, ok, 'Jacobian' if ok else 'the derivative of normalize is not its Jacobian')
		guarded(ck, 'round-trip', lab, trip)

		def data():
			w = World(P)
			o, d = w.make(lab)
			m = total(d)
			S = Scale()
			y = symbols('v', (m,))
			x = to_arr(w.I.call(w.I.attr(o, 'unnormalize'), [y], {}))
			get = lambda a: to_arr(w.I.attr(o, a))
			for A, b in (('A', 'b'), ('A_eq', 'b_eq')):
				A0, b0 = get(A), get(b)
				An, bn = get(A + '_norm'), get(b + '_norm')
				if A0.shape == (0, m) or not len(b0.flat):
					ok = not len(bn.flat)
				else:
					ok = An.shape == A0.shape and bn.shape == b0.shape
					if ok:
						l, r = dot(An, y), dot(A0, x)
						ok = same_values(S, Arr(b0.shape, [poly(p) - poly(q) for p, q in zip(l.flat, bn.flat)]), Arr(b0.shape, [poly(p) - poly(q) for p, q in zip(r.flat, b0.flat)]))
				ck.verdict('normalized-data', '%s: %s_norm' % (lab, A), ok, 'slack of the point' if ok else '%s_norm y - %s_norm is not %s x - %s at the point x that y stands for' % (A, b, A, b))
		guarded(ck, 'normalized-data', lab, data)


def regions2(S, got, want, xg, xw):
	g, w = declared(S, got, xg), declared(S, want, xw)
	# the weights of a hull count points the same way, and sum to one
	def elim(rows, decls):
		for j, d in enumerate(hulls(decls)):
			if d.hull:
				n = ['?w%d[%d]' % (j, i) for i in range(len(d.hull))]
				out = []
				for r in rows:
					co = []
					for x in r.co:
						y = {}
						for k, c in x.items():
							if k == (n[0],):
								y[()] = y.get((), 0.) + c
								for z in n[1:]:
									y[(z,)] = y.get((z,), 0.) - c
							else:
								y[k] = y.get(k, 0.) + c
						co.append(y)
					out.append(Row(r.kind, co, r.what))
				rows = out
		return rows
	if [len(d.hull) for d in hulls(got)] == [len(d.hull) for d in hulls(want)]:
		g, w = elim(g, got), elim(w, want)
	return same_region(S, g, w, starter(S, want, xw))


# D01 ----------------------------------------------------------------------------------
def membership(ck, P):
	ck.rule('points', 'at concrete shapes the membership test accepts the points that satisfy every declared constraint and refuses those that break any one of them, alone and in rows', 60)
	for lab in LABELS:
		arr.LOOSE[0] = True
		try:
			guarded(ck, 'points', lab, lambda: member(ck, P, lab))
		finally:
			arr.LOOSE[0] = False


def member(ck, P, lab):
	w = World(P)
	o, d = w.make(lab)
	m = total(d)
	S = Scale()
	x = [S.of(Poly.var('?x[%d]' % i)) for i in range(m)]
	rows = declared(S, d, x)
	names = names_of(rows)
	st = starter(S, d, x)
	s0 = st(names)
	xi = [names.index('?x[%d]' % i) for i in range(m)]
	R = Rows(rows, names)
	# one point inside, and for every constraint on the coordinates one that breaks it and no other
	inside = next(iter(around(R, s0, 2000, (.05, .1, .2, .3))), None)
	if inside is None:
		return ck.unknown('points', lab, 'no point found inside')
	pts = [('a point inside', [inside[i] for i in xi], True)]
	for k, r in enumerate(rows):
		if not any(n.startswith('?x') for n in names_of([r])) and 'weight' not in r.what:
			continue
		if 'weight' in r.what or 'sum' in r.what or 'coordinate' in r.what and 'weighted' in r.what:
			continue
		rest = [t for t in rows if t is not r]
		RR = Rows(rest, names)
		T = Rows([r], names)
		hit = None
		for u in around(RR, s0, 3000, (.5, 1., 1.5, 2., 3., .8)):
			mg = T.margins(u)[0]
			if mg < -.05:
				hit = u
				break
		if hit is not None:
			pts.append(('a point that breaks only the %s' % r.what, [hit[i] for i in xi], False))
	for j, h in enumerate(hulls(d)):
		# beyond a vertex of the hull, everything else as it was: only where the other constraints allow it
		own = [r for r in rows if not names_of([r]) or not any(n.startswith('?w%d[' % j) for n in names_of([r]))]
		RO = Rows(own, names)
		mine = [[value(poly(t), CELL[0]) for t in p] for p in h.hull]
		for u in around(RO, s0, 3000, (1., 1.5, 2., 3.)):
			y = [u[xi[h.at + c]] for c in range(h.m)]
			if outside(mine, y):
				pts.append(('a point outside the hull only', [u[i] for i in xi], False))
				break
	n = 0
	for what, y, truth in pts:
		p = symbols('q', (m,))
		fill('', p, y)
		try:
			ans = w.I.call(w.I.attr(o, 'isinside'), [p], {})
			got = w.I.truth(ans)
		except Cannot as e:
			ck.unknown('points', '%s, %s' % (lab, what), str(e))
			continue
		n += 1
		ck.verdict('points', '%s, %s' % (lab, what), got is truth, 'refused' if not truth and not got else 'accepted' if got and truth else 'isinside %s it' % ('accepts' if got else 'refuses'))
	# all of them at once
	A = symbols('Q', (len(pts), m))
	fill('', A, [v for _, y, _ in pts for v in y])
	try:
		ans = to_arr(w.I.call(w.I.attr(o, 'isinside'), [A], {}))
	except Cannot as e:
		return ck.unknown('points', '%s, in rows' % lab, str(e))
	ok = ans.shape == (len(pts),) and [bool(w.I.truth(t)) for t in ans.flat] == [t for _, _, t in pts]
	ck.verdict('points', '%s, in rows' % lab, ok, '%d rows' % len(pts) if ok else 'isinside answers %r for the rows %s' % (ans, [t for t, _, _ in pts]))


def outside(points, y):
	"""is y clearly outside the convex hull of the points (a direction separates them)"""
	m = len(y)
	dirs = []
	for i in range(24):
		a = 2 * math.pi * i / 24
		dirs.append([math.cos(a), math.sin(a)] + [0.] * (m - 2) if m > 1 else [1. if i % 2 else -1.])
	return any(sum(a * b for a, b in zip(v, y)) - max(sum(a * b for a, b in zip(v, p)) for p in points) > .1 for v in dirs)


# D03 ----------------------------------------------------------------------------------
def steps(ck, P):
	ck.rule('step', 'at concrete shapes the step reported along a direction is the distance to the first declared constraint it meets', 60)
	for lab in LABELS:
		if lab.startswith('ConvexHull') or 'hull' in lab:
			continue
		guarded(ck, 'step', lab, lambda: step(ck, P, lab))


def step(ck, P, lab):
	real = lambda I, a, k: elementwise(lambda t: True, a[0]) if isinstance(a[0], Arr) else True
	w = World(P, {'numpy.roots': roots, 'numpy.isreal': real, 'numpy.isrealobj': real})
	o, d = w.make(lab)
	m = total(d)
	S = Scale()
	# the equalities hold exactly: the right-hand side is the row at the point
	x, p = symbols('x', (m,)), symbols('p', (m,))
	xs, rows = [S.of(Poly.var('?x[%d]' % i)) for i in range(m)], None
	names = ['?x[%d]' % i for i in range(m)]
	rows = declared(S, d, xs)
	eq = [r for r in rows if r.kind == 'eq']
	le = [r for r in rows if r.kind == 'le']
	RE = [([r.co[0].get((n,), 0.) for n in names], 0.) for r in eq]
	c = centre(d)
	seen = set()
	shake.m = m
	k = 0
	for trial, v in shake(200):
		v = least(RE, v) if RE else v
		if max(abs(t) for t in v) < .2:
			continue
		u = [a + .05 * b for a, b in zip(c, list(reversed(v)))] if not eq else c
		# distance along v to each row
		best = []
		for i, r in enumerate(le):
			t = first(r, names, u, v)
			if t is not None:
				best.append((t, i))
		best.sort()
		key = best[0][1] if best else 'none'
		if key in seen or len(best) > 1 and best[1][0] - best[0][0] < .02:
			continue
		seen.add(key)
		if eq:
			continue_with_equalities(ck, w, o, d, lab, m, u, v, best, le)
		else:
			fill('', x, u)
			fill('', p, v)
			a = w.I.call(w.I.attr(o, 'extent'), [x, p], {})
			con = '%s, towards the %s' % (lab, le[best[0][1]].what if best else 'open side')
			judge(ck, con, a, best)
	if not seen:
		ck.unknown('step', lab, 'no direction')


def judge(ck, con, a, best):
	if arr.infinite(num2(a)):
		return ck.verdict('step', con, not best, 'no limit' if not best else 'extent: the step is unbounded although a constraint limits it to %.3f' % best[0][0])
	got = value(poly(a), CELL[0])
	if not best:
		return ck.bad('step', con, 'extent: the step is %.3f although nothing limits it' % got)
	ok = abs(got - best[0][0]) < 1e-6 * (1 + best[0][0])
	ck.verdict('step', con, ok, 'the distance' if ok else 'extent: the step is %.4f where the first constraint is met at %.4f' % (got, best[0][0]))


def continue_with_equalities(ck, w, o, d, lab, m, u, v, best, le):
	"""the start and the direction along the equalities, as formulas that satisfy them exactly"""
	x, p = [Poly.var('x[%d]' % i) for i in range(m)], [Poly.var('p[%d]' % i) for i in range(m)]
	for i in range(m):
		CELL[0]['x[%d]' % i], CELL[0]['p[%d]' % i] = u[i], v[i]
	X, Pd = list(x), list(p)
	for dd in d:
		for row, rhs in zip(dd.A_eq, dd.b_eq):
			# solve the last coordinate of the row
			j = dd.m - 1
			s, t = poly(rhs), ZERO
			for i in range(dd.m - 1):
				s = s - row[i] * x[dd.at + i]
				t = t - row[i] * p[dd.at + i]
			X[dd.at + j], Pd[dd.at + j] = div(s, row[j]), div(t, row[j])
	a = w.I.call(w.I.attr(o, 'extent'), [Arr((m,), X), Arr((m,), Pd)], {})
	judge(ck, '%s, towards the %s' % (lab, le[best[0][1]].what if best else 'open side'), a, best)


def first(r, names, u, v):
	"""the smallest positive t at which the row is met along u + t v"""
	A = B = C = 0.
	for k, c in r.co[0].items():
		if len(k) == 0:
			C += c
		elif len(k) == 1:
			i = names.index(k[0])
			C += c * u[i]
			B += c * v[i]
		else:
			i, j = names.index(k[0]), names.index(k[1])
			C += c * u[i] * u[j]
			B += c * (u[i] * v[j] + u[j] * v[i])
			A += c * v[i] * v[j]
	if abs(A) > 1e-12:
		D = B * B - 4 * A * C
		if D < 0:
			return None
		ts = [(-B + s * math.sqrt(D)) / (2 * A) for s in (1, -1)]
	elif abs(B) > 1e-9:
		ts = [-C / B]
	else:
		return None
	ts = [t for t in ts if t > 1e-9]
	return min(ts) if ts else None


def roots(I, a, k):
	"""of a quadratic with real roots"""
	c = [poly(t) for t in (a[0] if isinstance(a[0], (list, tuple)) else to_arr(a[0]).flat)]
	v = [value(t, CELL[0]) for t in c]
	if len(c) != 3 or abs(v[0]) < 1e-12:
		raise Cannot('roots')
	D = v[1] * v[1] - 4 * v[0] * v[2]
	if D < 0:
		raise Cannot('complex roots')
	return Arr((2,), [Poly.const(Fr((-v[1] + s * math.sqrt(D)) / (2 * v[0])).limit_denominator(10 ** 12)) for s in (1, -1)])
