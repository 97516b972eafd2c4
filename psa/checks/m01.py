"""M01: every demonstration gradient is the derivative of the value it is paired with, in the inputs of its domain."""
import ast
import re
from ..loader import AnalysisBroken
from ..arr import Interp, Fn, Obj, Arr, Module, Ext, Cannot, Raised, symbols, to_arr, num, poly, reshape
from .. import formula
from ..formula import OPS, Poly, diff, equal, TooBig, Undefined, show

RULES = [
	('pair', 'every value function of a demonstration model comes with one gradient function, in the same position', 18),
	('derivative', 'each entry of a gradient is the partial derivative of the value with respect to that input', 100),
	('row', 'row i of a value or gradient depends on point i alone, for one point and for several', 60),
	('shape', 'values have one entry per point and gradients one row per point and one column per input', 60),
	('constants', 'values and gradients use the constants the model declares, by default too', 8),
	('bounds', 'every lower bound of a model domain is below its upper bound and both are the documented ones', 30),
	('order', 'inputs are unpacked in the order the domain names them', 40),
]
DOMAINS = {'BoxDomain', 'NormalDomain', 'LogNormalDomain', 'UniformDomain', 'TensorProductDomain', 'LinIneqDomain', 'LinQuadDomain', 'PointDomain', 'ConvexHullDomain'}


class Model:
	pass


def domain_hook(I, cls, args, kw):
	o = Obj('domain:' + cls.name)
	n, names = None, kw.get('names')
	try:
		if cls.name == 'TensorProductDomain':
			parts = args[0] if args else kw.get('domains')
			n = sum(p.attrs['@len'] for p in parts)
			names = [x for p in parts for x in (p.attrs['names'] or [None] * p.attrs['@len'])]
		elif args:
			a = to_arr(args[0])
			n = len(a.flat) if a.shape else 1
		elif 'lb' in kw:
			n = len(to_arr(kw['lb']).flat)
	except (Cannot, KeyError, TypeError, AttributeError):
		pass
	if isinstance(names, str):
		names = [names]
	lo, hi = [None] * (n or 0), [None] * (n or 0)
	if cls.name in ('BoxDomain', 'UniformDomain') and n:
		try:
			a, b = (list(args) + [None, None])[:2]
			a, b = to_arr(kw.get('lb', a)), to_arr(kw.get('ub', b))
			lo, hi = list(a.flat), list(b.flat)
		except Cannot:
			pass
	elif cls.name == 'TensorProductDomain' and n:
		lo, hi = [x for p in parts for x in p.attrs['lo']], [x for p in parts for x in p.attrs['hi']]
	o.attrs['lo'], o.attrs['hi'] = lo, hi
	o.attrs['@len'] = n
	o.attrs['names'] = names
	return o


def grab(I, fn, args, kw):
	if fn.me is not None:
		args = [fn.me] + args
	ps = [p.arg for p in fn.node.args.args]
	d = dict(zip(ps, args))
	d.update(kw)
	d['self'].attrs['@model'] = d
	return None


def hooks(P):
	h = {}
	for n in DOMAINS:
		try:
			h[P.cls('psdr.' + n).qualname] = domain_hook
		except AnalysisBroken:
			pass
	init = P.cls('psdr.Function').lookup('__init__')
	h[init[1].short] = grab
	return h


def models(P):
	base = P.cls('psdr.Function')
	out = []
	for m in P.modules.values():
		if not m.name.startswith('psdr.demos.'):
			continue
		for n, b in m.order:
			if b[0] == 'class' and b[1].module is m and base in b[1].mro():
				out.append(b[1])
	return out


def options(f):
	"""the accepted values of string options that the constructor asserts"""
	out = []
	for n in ast.walk(f.node):
		if isinstance(n, ast.Assert) and isinstance(n.test, ast.Compare) and isinstance(n.test.ops[0], ast.In) and isinstance(n.test.left, ast.Name) and isinstance(n.test.comparators[0], (ast.List, ast.Tuple, ast.Set)):
			vals = [e.value for e in n.test.comparators[0].elts if isinstance(e, ast.Constant)]
			out.append((n.test.left.id, vals))
	return out


def configurations(cls):
	init = cls.lookup('__init__')
	f = init[1]
	ps = [a.arg for a in f.node.args.args[1:]]
	if cls.name == 'AffineFunction':
		return [('linear', {'linear': symbols('a', (3,)), 'constant': Poly.var('c')}), ('linear only', {'linear': symbols('a', (3,))})]
	if cls.name == 'QuadraticFunction':
		q, a, c = symbols('Q', (3, 3)), symbols('a', (3,)), Poly.var('c')
		return [('quad linear constant', {'quad': q, 'linear': a, 'constant': c}), ('quad', {'quad': q}), ('linear', {'linear': a}), ('default', {})]
	out = [('', {})]
	for p, vals in options(f):
		if p in ps:
			out = [('%s=%s' % (p, v), {p: v}) for v in vals]
	return out


def run(ck, P, tier):
	formula.BUDGET, formula.TOTAL = 1000000, 3000000
	for r in RULES:
		ck.rule(*r)
	ck.assumptions.append('roots and non-integer powers are taken of positive quantities; printed constants agree to 1e-9')
	selftest(ck, P)
	n = 0
	for cls in models(P):
		n += 1
		for label, kw in configurations(cls):
			ck.guard('pair', cls.name, lambda: one_model(ck, P, cls, label, kw))
	ck.stats['models'] = n


def one_model(ck, P, cls, label, kw):
	I = Interp(P, hooks(P))
	con = cls.name + (' (%s)' % label if label else '')
	try:
		o = I.new(cls, (), kw)
		d = o.attrs.get('@model')
	except (Cannot, Raised, Undefined, TooBig) as e:
		if not any(True for n in ast.walk(cls.node) if isinstance(n, ast.keyword) and n.arg == 'grads'):
			return
		ck.unknown('pair', con, 'constructor: %s %s' % (type(e).__name__, e))
		return
	if d is None:
		ck.unknown('pair', con, 'Function.__init__ not reached')
		return
	if d.get('grads') is None:
		return
	lst = lambda v: list(v) if isinstance(v, (list, tuple)) else [v]
	funs, grads = lst(d['funs']), lst(d['grads'])
	nm = lambda f: f.f.short.split('.')[-1] if isinstance(f, Fn) and f.f is not None else '?'
	if len(funs) != len(grads):
		ck.bad('pair', con, '%d values but %d gradients' % (len(funs), len(grads)))
		return
	dom = d.get('domain')
	m = dom.attrs.get('@len') if isinstance(dom, Obj) else None
	if m is None and label.startswith(('linear', 'quad')):
		m = 3
	if m is None and label == 'default':
		m = 5
	if m is None:
		ck.unknown('pair', con, 'dimension of the domain')
		return
	names = dom.attrs.get('names') if isinstance(dom, Obj) else None
	bounds(ck, con, cls, dom, m)
	consts = d.get('kwargs') or {}
	vec = d.get('vectorized', False)
	for f, g in zip(funs, grads):
		ck.ok('pair', '%s: %s / %s' % (con, nm(f), nm(g)), '')
		check_pair(ck, P, '%s.%s' % (con, nm(f)), f, g, m, consts, bool(vec))
		order(ck, P, con, f, names)
		order(ck, P, con, g, names)


def evaluate(P, fn, X, kw):
	OPS[0] = 0
	I = Interp(P, hooks(P))
	return to_arr(I.call(fn, (Arr(X.shape, X.flat),), kw))


def vars_of(p, seen=None):
	from ..formula import QTAB
	out = set()
	def walk(a):
		if a[0] == 'v':
			out.add(a[1])
		elif a[0] == 'Q':
			for b in QTAB[a[1]].atoms():
				walk(b)
		elif a[0] in ('c', 's'):
			for m, c in a[1]:
				for b, e in m:
					walk(b)
		elif a[0] == 'E':
			for b, e in a[1]:
				walk(b)
		elif a[0] == 'L' and a[1][0] != 'n':
			walk(a[1])
	for a in p.atoms():
		walk(a)
	return out


FAIL = (Cannot, Undefined, TooBig, RecursionError)


def check_pair(ck, P, con, f, g, m, consts, vec):
	kw = {k: Poly.var(k) for k in consts}
	values = {}
	for label, shape in (('two points', (2, m)), ('one row', (1, m)), ('one point', (m,))):
		if not vec and len(shape) == 2:
			continue
		X = symbols('x', shape)
		n = shape[0] if len(shape) == 2 else 1
		vs = []
		for fn, what, size in ((f, 'value', n), (g, 'gradient', n * m)):
			try:
				v = evaluate(P, fn, X, dict(kw))
			except Raised as e:
				if not (len(shape) == 1 and vec and what == 'gradient'):
					ck.bad('shape', '%s %s, %s' % (con, what, label), 'raises %s' % e.name)
				vs.append(None)
				continue
			except FAIL as e:
				ck.unknown('shape', '%s %s, %s' % (con, what, label), '%s %s' % (type(e).__name__, e))
				vs.append(None)
				continue
			good = len(v.flat) == size
			if what == 'gradient' and len(shape) == 1 and vec and not good:
				# gradients are only ever asked for rows of points
				vs.append(None)
				continue
			if what == 'gradient' and n == 2:
				good = v.shape == (n, m)
			if what == 'value' and n == 2:
				good = v.shape in ((n,), (n, 1))
			ck.verdict('shape', '%s %s, %s' % (con, what, label), good, 'shape %s for %d points of %d inputs' % (v.shape, n, m))
			vs.append(v if good else None)
			if good and n == 2:
				wrong = None
				k = size // n
				for i in range(n):
					for x in v.flat[i * k:(i + 1) * k]:
						if any(s.startswith('x[%d,' % (1 - i)) for s in vars_of(poly(x))):
							wrong = i
				ck.verdict('row', '%s %s' % (con, what), wrong is None, 'row %s depends on the other point' % wrong)
		v, dv = vs
		if v is None or dv is None:
			continue
		values[label] = (v, dv)
		names = ['x[%s]' % ','.join(map(str, (0, j) if len(shape) == 2 else (j,))) for j in range(m)]
		if label == 'two points' and 'two points' in values:
			# the second row must be the same formula: compare by renaming
			pass
		if label == 'one row' and vec and 'two points' in values:
			same = all(poly(a).key() == poly(b).key() for a, b in zip(v.flat, values['two points'][0].flat)) and all(poly(a).key() == poly(b).key() for a, b in zip(dv.flat, values['two points'][1].flat))
			ck.verdict('row', con + ' alone', True if same else None, '')
			if same:
				continue
		for j in range(m):
			try:
				want = diff(poly(v.flat[0]), names[j])
				same = equal(want, poly(dv.flat[j]))
			except FAIL as e:
				ck.unknown('derivative', '%s input %d (%s)' % (con, j, label), '%s %s' % (type(e).__name__, e))
				continue
			if label == 'one point' and same:
				ck.ok('row', '%s input %d as a single point' % (con, j), '')
				continue
			ck.verdict('derivative', '%s input %d (%s)' % (con, j, label), same, 'the gradient entry %s is not the derivative %s' % (show(poly(dv.flat[j]), 3)[:150], show(want, 3)[:150]))
	if consts:
		constants(ck, P, con, f, g, m, consts)


def constants(ck, P, con, f, g, m, consts):
	X = symbols('x', (2, m))
	for fn, what in ((f, 'value'), (g, 'gradient')):
		try:
			a = evaluate(P, fn, X, {})
			b = evaluate(P, fn, X, dict(consts))
			same = a.shape == b.shape and all(equal(poly(x), poly(y)) for x, y in zip(a.flat, b.flat))
		except Raised as e:
			ck.unknown('constants', '%s %s' % (con, what), 'raises ' + e.name)
			continue
		except FAIL as e:
			ck.unknown('constants', '%s %s' % (con, what), str(e))
			continue
		ck.verdict('constants', '%s %s' % (con, what), same, 'the default constants differ from the ones the model declares')


NUM = r'(-?[0-9.]+(?:\s*\\times\s*10\^\{?-?[0-9]+\}?|e-?[0-9]+)?)'


def documented(cls):
	doc = ast.get_docstring(cls.node) or ''
	out = []
	for a, b in re.findall(r'\\in\s*\[\s*' + NUM + r'\s*,\s*' + NUM + r'\s*\]', doc):
		v = []
		for t in (a, b):
			t = t.replace(' ', '').replace('{', '').replace('}', '')
			x, _, e = t.partition('\\times10^')
			v.append(float(x) * 10 ** int(e or 0))
		out.append(v)
	return out


def bounds(ck, con, cls, dom, m):
	if not isinstance(dom, Obj) or 'lo' not in dom.attrs:
		return
	lo, hi = dom.attrs['lo'], dom.attrs['hi']
	if len(lo) != m or len(hi) != m:
		return
	doc = documented(cls)
	for i in range(m):
		if lo[i] is None or hi[i] is None:
			continue
		a, b = constant(lo[i]), constant(hi[i])
		if a is None or b is None:
			ck.unknown('bounds', '%s input %d' % (con, i), 'not constants')
			continue
		ck.verdict('bounds', '%s input %d' % (con, i), a < b, 'bounds %g, %g' % (a, b))
		if len(doc) == m:
			same = abs(a - doc[i][0]) <= 1e-9 * abs(a) + 1e-12 and abs(b - doc[i][1]) <= 1e-9 * abs(b) + 1e-12
			ck.verdict('bounds', '%s input %d documented' % (con, i), same, 'domain uses [%g, %g], the documentation says [%g, %g]' % (a, b, doc[i][0], doc[i][1]))


def constant(v):
	from ..formula import numeric_pi
	try:
		x = numeric_pi(poly(v)).value()
	except Cannot:
		return None
	return None if x is None else float(x)


def canon(s):
	return re.sub(r'\(.*?\)', '', s).replace('_', '').replace(' ', '').replace('\\', '').strip()


ALIAS = {'theta': 'th', 'lambda': 'lam', 'Lambda': 'Lam'}


def canons(s):
	c = canon(s)
	out = {c}
	for a, b in ALIAS.items():
		if a in c:
			out.add(c.replace(a, b))
	return out


def order(ck, P, con, fn, names):
	"""locals named like an input of the domain hold the column of that input"""
	if not isinstance(fn, Fn) or not names or any(not isinstance(n, str) for n in names):
		return
	sets = [canons(n) for n in names]
	got = {}
	def col(e):
		# X[:,i] possibly scaled by constants
		for n in ast.walk(e):
			if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and isinstance(n.slice.elts[1], ast.Constant) and isinstance(n.slice.elts[1].value, int):
				return n.slice.elts[1].value
		return None
	for s in ast.walk(fn.node):
		if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
			i = col(s.value)
			if i is not None and isinstance(s.value, (ast.Subscript, ast.BinOp)):
				got[s.targets[0].id] = i
	short = fn.f.short.split('.')[-1]
	if not got:
		return
	wrong = []
	for v, i in got.items():
		named = [j for j, c in enumerate(sets) if canon(v) in c]
		if len(named) == 1:
			if named[0] != i:
				wrong.append('%s holds input %d but the domain calls input %d that' % (v, i, named[0]))
			else:
				ck.ok('order', '%s.%s %s' % (con, short, v), '')
	for w in wrong:
		ck.bad('order', '%s.%s %s' % (con, short, w.split(' ')[0]), w)


FIXTURE = '''
import numpy as np
def val(X):
	X = np.atleast_2d(X)
	a, b = X.T
	return np.sqrt(a**2 + b)*np.exp(a/b) + np.sin(a)**2
def good(X):
	X = X.reshape(-1,2)
	a = X[:,0]
	b = X[:,1]
	r = np.sqrt(b + a*a)
	e = np.exp(a/b)
	return np.array([a/r*e + r*e/b + 2*np.sin(a)*np.cos(a), e/(2*r) - r*e*a/b**2]).T
def bad_sign(X):
	X = X.reshape(-1,2)
	a = X[:,0]
	b = X[:,1]
	r = np.sqrt(b + a*a)
	e = np.exp(a/b)
	return np.array([a/r*e + r*e/b + 2*np.sin(a)*np.cos(a), e/(2*r) + r*e*a/b**2]).T
def bad_row(X):
	return good(X)[::-1]
def bad_shape(X):
	return good(X).T
'''


def selftest(ck, P):
	import os
	import tempfile
	from ..loader import Project
	from ..report import Check
	got = {}
	with tempfile.TemporaryDirectory() as d:
		os.makedirs(d + '/psdr')
		open(d + '/psdr/__init__.py', 'w').write('class Function:\n\tdef __init__(self, funs, domain):\n\t\tpass\n')
		open(d + '/psdr/fx.py', 'w').write(FIXTURE)
		P2 = Project(d)
		c2 = Check('selftest', P2)
		for n in ('good', 'bad_sign', 'bad_row', 'bad_shape'):
			fv, fg = P2.func('psdr.fx.val'), P2.func('psdr.fx.' + n)
			c2.obs = []
			check_pair(c2, P2, n, Fn(fv, fv.node), Fn(fg, fg.node), 2, {}, True)
			got[n] = {r for v, r, c, _ in c2.obs if v == 'violated'}
	want = {'good': set(), 'bad_sign': {'derivative'}, 'bad_row': {'row', 'derivative'}, 'bad_shape': {'shape', 'row'}}
	ok = not got['good'] and all(got[k] & want[k] for k in want if want[k])
	ck.selftest('fixture: the correct gradient passes and the three wrong ones are told apart %s' % ({} if ok else got), ok)
