"""F01: a wrapped function gives the same values and gradients in every calling mode."""
from ..loader import AnalysisBroken
from ..arr import Interp, Fn, Obj, Arr, Cannot, Raised, symbols, to_arr, poly, elementwise
from ..formula import OPS, Poly, ZERO, equal, TooBig, Undefined, show

RULES = [
	('value', 'row i of the values is every output of every function at the un-normalised point i, whatever the calling mode', 60),
	('gradient', 'row i of the gradients is the gradient of every output at the un-normalised point i times the scale of the coordinates, once', 60),
	('together', 'values and gradients asked for together are the values and gradients asked for separately', 60),
	('difference', 'finite differences of an affine function give its gradient, whatever the keyword arguments', 12),
	('kwargs', 'keyword arguments of the constructor and of the call reach every function and gradient, those of the call first', 40),
	('async', 'asynchronous evaluations give the same values and gradients, one result per point', 6),
	('base', 'the generic function hands its arguments on to the value and the gradient it is built from', 6),
]
FAIL = (Cannot, Undefined, TooBig, RecursionError)


class Inner:
	"""one function handed to Function: uninterpreted outputs, or affine ones for finite differences"""
	def __init__(self, i, kind, affine=False):
		self.i, self.kind, self.affine = i, kind, affine
		self.n = {'scalar': 1, 'column': 1, 'pair': 2, 'list': 2}[kind]
		self.__name__ = 'fun%d' % i

	def tag(self, kw):
		return ','.join('%s=%s' % (k, show(poly(v))) for k, v in sorted(kw.items()))

	def out(self, k, x, kw):
		t = self.tag(kw)
		if self.affine:
			s = Poly.var('b%d.%d(%s)' % (self.i, k, t))
			for j, xj in enumerate(x):
				s = s + Poly.var('c%d.%d.%d(%s)' % (self.i, k, j, t)) * poly(xj)
			return s
		return Poly.var('f%d.%d(%s;%s)' % (self.i, k, ','.join(show(poly(a), 99) for a in x), t))

	def der(self, k, j, x, kw):
		t = self.tag(kw)
		if self.affine:
			return Poly.var('c%d.%d.%d(%s)' % (self.i, k, j, t))
		return Poly.var('df%d.%d/d%d(%s;%s)' % (self.i, k, j, ','.join(show(poly(a), 99) for a in x), t))

	def rows(self, X):
		X = to_arr(X)
		if len(X.shape) == 1:
			return None, [X.flat]
		if len(X.shape) != 2:
			raise Raised('ValueError')
		m = X.shape[1]
		return X.shape[0], [X.flat[r * m:(r + 1) * m] for r in range(X.shape[0])]

	def value(self, X, kw):
		M, rows = self.rows(X)
		flat = [self.out(k, r, kw) for r in rows for k in range(self.n)]
		if M is None:
			if self.kind == 'scalar':
				return flat[0]
			return list(flat) if self.kind == 'list' else Arr((self.n,), flat)
		if self.kind == 'scalar':
			return Arr((M,), flat)
		if self.kind == 'list':
			return [flat[r * self.n:(r + 1) * self.n] for r in range(M)]
		return Arr((M, self.n), flat)

	def gradient(self, X, kw):
		M, rows = self.rows(X)
		m = len(rows[0])
		flat = [self.der(k, j, r, kw) for r in rows for k in range(self.n) for j in range(m)]
		if M is None:
			if self.n == 1:
				return Arr((m,), flat)
			if self.kind == 'list':
				return [Arr((m,), flat[k * m:(k + 1) * m]) for k in range(self.n)]
			return Arr((self.n, m), flat)
		return Arr((M, m) if self.n == 1 else (M, self.n, m), flat)

	def __call__(self, X, **kw):
		return self.value(X, kw)


class Both(Inner):
	def __call__(self, X, return_grad=False, **kw):
		if return_grad:
			return self.value(X, kw), self.gradient(X, kw)
		return self.value(X, kw)


class Grad:
	def __init__(self, f):
		self.f = f

	def __call__(self, X, **kw):
		return self.f.gradient(X, kw)


def domain(m, affine):
	def u(j, x):
		if affine:
			return Poly.var('d%d' % j) * poly(x) + Poly.var('s%d' % j)
		return Poly.var('u%d(%s)' % (j, show(poly(x), 99)))

	def unnormalize(X):
		X = to_arr(X)
		if X.shape[-1:] != (m,):
			raise Raised('ValueError')
		return Arr(X.shape, [u(i % m, x) for i, x in enumerate(X.flat)])

	def der():
		return Arr((m, m), [Poly.var('d%d' % i) if i == j else ZERO for i in range(m) for j in range(m)])
	norm = Obj('domain', {'@len': m})
	o = Obj('domain', {'@len': m, 'unnormalize': unnormalize, '_unnormalize_der': der, 'normalized_domain': lambda: norm})
	return o, u


def dask(I):
	"""pickling and submitting, reduced to calling the function"""
	h = I.hooks
	def run_exec(I, args, kw):
		scope = args[1] if len(args) > 1 else {}
		scope[args[0].__name__] = args[0]
		return None
	h['inspect.getsource'] = lambda I, a, k: a[0]
	h['textwrap.dedent'] = lambda I, a, k: a[0]
	h['builtins.exec'] = run_exec
	h['cloudpickle.dumps'] = lambda I, a, k: ('pickled', a[0])
	h['cloudpickle.loads'] = lambda I, a, k: a[0][1]
	return Obj('client', {'submit': lambda f, *a, **k: I.call(f, a, k)})


KINDS = [('scalar',), ('column',), ('pair',), ('list',), ('scalar', 'column'), ('pair', 'scalar')]
POINTS = [('point', (2,)), ('one row', (1, 2)), ('three rows', (3, 2)), ('two rows', (2, 2))]
EARLY = {'a': 'A0', 'b': 'B0'}
LATE = {'b': 'B1', 'c': 'C1'}


class Case:
	def __init__(self, P, cls, kinds, mode, vec, shape, m=None, early=None, late=None, aslist=False, client=False):
		OPS[0] = 0
		self.m = m = m or shape[-1]
		self.shape, self.late = shape, {k: Poly.var(v) for k, v in (late or {}).items()}
		early = {k: Poly.var(v) for k, v in (early or {}).items()}
		self.kw = dict(early)
		self.kw.update(self.late)
		affine = mode == 'difference'
		self.inner = [(Both if mode == 'return_grad' else Inner)(i, k, affine) for i, k in enumerate(kinds)]
		self.I = Interp(P, {})
		dom, self.u = domain(m, affine)
		kw = {'vectorized': vec}
		if early:
			kw['kwargs'] = early
		if mode == 'grads':
			gs = [Grad(f) for f in self.inner]
			kw['grads'] = gs if len(gs) > 1 else gs[0]
		elif mode == 'return_grad':
			kw['return_grad'] = True
		elif mode == 'difference':
			kw['fd_grad'] = True
		if client:
			kw['dask_client'] = dask(self.I)
		self.X = symbols('x', shape)
		self.arg = self.X
		if aslist:
			rows = self.rows()
			self.arg = rows if len(shape) == 2 else rows[0]
		fs = list(self.inner) if len(kinds) > 1 else self.inner[0]
		self.o = self.I.new(cls, [fs, dom], kw)
		self.total = sum(f.n for f in self.inner)

	def rows(self):
		return [list(self.X.flat[r * self.m:(r + 1) * self.m]) for r in range(self.shape[0] if len(self.shape) == 2 else 1)]

	def want_value(self):
		flat = [f.out(k, [self.u(j, x) for j, x in enumerate(r)], self.kw) for r in self.rows() for f in self.inner for k in range(f.n)]
		return Arr((self.total,) if len(self.shape) == 1 else (self.shape[0], self.total), flat)

	def want_gradient(self):
		flat = [f.der(k, j, [self.u(q, x) for q, x in enumerate(r)], self.kw) * Poly.var('d%d' % j) for r in self.rows() for f in self.inner for k in range(f.n) for j in range(self.m)]
		s = () if len(self.shape) == 1 else (self.shape[0],)
		return Arr(s + ((self.m,) if self.total == 1 else (self.total, self.m)), flat)

	def call(self, name, **kw):
		fn = self.I.attr(self.o, name)
		kw.update(self.late)
		return self.I.call(fn, (Arr(self.arg.shape, self.arg.flat) if isinstance(self.arg, Arr) else self.arg,), kw)


def compare(got, want):
	"""(verdict, detail)"""
	try:
		got = to_arr(got)
	except Cannot:
		return False, 'is not an array'
	if got.shape != want.shape:
		return False, 'shape %s where %s is documented' % (got.shape, want.shape)
	for i, (a, b) in enumerate(zip(got.flat, want.flat)):
		if not equal(poly(a), poly(b)):
			return False, 'entry %d is %s, not %s' % (i, show(poly(a), 3)[:120], show(poly(b), 3)[:120])
	return True, ''


def judge(ck, rule, con, make, entry):
	"""entry(case) -> [(got, want)]"""
	try:
		c = make()
		pairs = entry(c)
	except Raised as e:
		ck.bad(rule, con, 'raises %s' % e.name)
		return
	except FAIL as e:
		ck.unknown(rule, con, '%s %s' % (type(e).__name__, e))
		return
	for got, want in pairs:
		try:
			v, d = compare(got, want)
		except FAIL as e:
			v, d = None, str(e)
		ck.verdict(rule, con, v, d)


def two(v):
	if not isinstance(v, tuple) or len(v) != 2:
		raise Raised('no pair of values and gradients')
	return v


def value(name, **kw):
	return lambda c: [(c.call(name, **kw), c.want_value())]


def grad(c):
	return [(c.call('grad'), c.want_gradient())]


def together(c):
	a, b = two(c.call('__call__', return_grad=True))
	return [(a, c.want_value()), (b, c.want_gradient())]


def asynch(g):
	def go(c):
		r = c.call('call_async', return_grad=True) if g else c.call('call_async')
		n = c.shape[0] if len(c.shape) == 2 else None
		res = [r] if n is None else list(r)
		if len(res) != (n or 1):
			raise Raised('%d results' % len(res))
		out = []
		for q, row in zip(res, c.rows()):
			x = [c.u(j, v) for j, v in enumerate(row)]
			if len(q) != len(c.inner):
				raise Raised('%d functions' % len(q))
			for f, v in zip(c.inner, q):
				if g:
					v, dv = two(v)
					w = Arr((f.n, c.m) if f.n > 1 else (c.m,), [f.der(k, j, x, c.kw) * Poly.var('d%d' % j) for k in range(f.n) for j in range(c.m)])
					out.append((dv, w))
				w = Arr(() if f.kind == 'scalar' else (f.n,), [f.out(k, x, c.kw) for k in range(f.n)])
				out.append((v, w))
		return out
	return go


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	ck.assumptions.append('functions and gradients handed to the wrapper follow its calling convention (vectorised ones accept one point or rows of points); coordinates scale independently')
	cls = P.cls('psdr.Function')
	for n in ('eval', 'grad', '__call__'):
		if cls.lookup(n) is None:
			raise AnalysisBroken('Function.%s' % n)
	selftest(ck)
	shapes = POINTS if tier == 'thorough' else POINTS
	for kinds in KINDS:
		for vec in (False, True):
			for label, shape in shapes:
				for aslist in (False, True):
					if aslist and (label not in ('point', 'two rows') or kinds not in KINDS[:2]):
						continue
					con = '%s %s, %s%s' % ('+'.join(kinds), 'vectorised' if vec else 'plain', label, ' as list' if aslist else '')
					mk = lambda mode, **k: (lambda: Case(P, cls, kinds, mode, vec, shape, aslist=aslist, **k))
					judge(ck, 'value', con + ' eval', mk('none'), value('eval'))
					judge(ck, 'value', con + ' call', mk('none'), value('__call__'))
					if kinds in KINDS[:2]:
						judge(ck, 'value', con + ' predict', mk('none'), value('predict'))
					for mode in ('grads', 'return_grad'):
						judge(ck, 'gradient', con + ' ' + mode, mk(mode), grad)
						judge(ck, 'together', con + ' ' + mode, mk(mode), together)
						judge(ck, 'value', con + ' ' + mode, mk(mode), value('__call__'))
					if not vec or label != 'one row':
						judge(ck, 'difference', con, mk('difference'), grad)
						judge(ck, 'difference', con + ' together', mk('difference'), together)
					if label == 'three rows' or label == 'point':
						for mode, entries in (('none', [('eval', value('eval')), ('call', value('__call__'))]), ('grads', [('grad', grad), ('together', together), ('call', value('__call__'))]), ('return_grad', [('grad', grad), ('together', together), ('call', value('__call__'))]), ('difference', [('grad', grad), ('together', together)])):
							for en, e in entries:
								judge(ck, 'kwargs', '%s %s %s, both' % (con, mode, en), mk(mode, early=EARLY, late=LATE), e)
								if kinds == ('scalar',):
									judge(ck, 'kwargs', '%s %s %s, constructor' % (con, mode, en), mk(mode, early=EARLY), e)
									judge(ck, 'kwargs', '%s %s %s, call' % (con, mode, en), mk(mode, late=LATE), e)
	for kinds in (('scalar',), ('scalar', 'pair')):
		for m, shape in ((1, (1,)), (1, (2, 1)), (3, (3,)), (3, (2, 3))):
			for vec in (False, True):
				con = '%s %s, %s points of %d inputs' % ('+'.join(kinds), 'vectorised' if vec else 'plain', shape[0] if len(shape) == 2 else 'single', m)
				mk = lambda mode: (lambda: Case(P, cls, kinds, mode, vec, shape))
				for mode in ('grads', 'return_grad'):
					judge(ck, 'gradient', con + ' ' + mode, mk(mode), grad)
					judge(ck, 'together', con + ' ' + mode, mk(mode), together)
				judge(ck, 'difference', con, mk('difference'), grad)
	if cls.lookup('call_async') is not None:
		for kinds in (('scalar',), ('scalar', 'pair')):
			for label, shape in POINTS[:3]:
				for g in (False, True):
					con = '%s, %s%s' % ('+'.join(kinds), label, ' with gradient' if g else '')
					mk = lambda: Case(P, cls, kinds, 'return_grad' if g else 'none', False, shape, early=EARLY, late=LATE, client=True)
					judge(ck, 'async', con, mk, asynch(g))
	base(ck, P)
	ck.stats['configurations'] = len(ck.obs)


def base(ck, P):
	cls = P.cls('psdr.BaseFunction')
	kw = {'a': Poly.var('A')}
	def tagger(name, ret):
		def f(X, *args, **k):
			k = {a: b for a, b in k.items()}
			rg = k.pop('return_grad', args[0] if args else False)
			t = '%s(%s;%s)' % (name, show(poly(to_arr(X).flat[0])), ','.join('%s=%s' % (a, show(poly(b))) for a, b in sorted(k.items())))
			if name == 'call':
				v, g = Poly.var('val' + t), Poly.var('grad' + t)
				return (v, g) if rg else v
			return Poly.var(t)
		return f
	X = lambda: Arr((1,), [Poly.var('x')])
	def ask(con, attrs, name, kw, want):
		def entry(c):
			o = Obj(cls, dict(attrs))
			I = Interp(P, {})
			got = I.call(I.attr(o, name), (X(),), dict(kw))
			if len(want) == 2:
				got = two(got)
				return [(got[i], Arr((), [Poly.var(w)])) for i, w in enumerate(want)]
			return [(got, Arr((), [Poly.var(want[0])]))]
		judge(ck, 'base', con, lambda: None, entry)
	parts = {'eval': tagger('eval', 0), 'grad': tagger('grad', 0)}
	whole = {'__call__': tagger('call', 0)}
	for k, s in (({}, ''), (kw, 'a=A')):
		l = ' with keyword arguments' if k else ''
		ask('call' + l, parts, '__call__', k, ['eval(x;%s)' % s])
		ask('call for both' + l, parts, '__call__', dict(k, return_grad=True), ['eval(x;%s)' % s, 'grad(x;%s)' % s])
		ask('eval' + l, whole, 'eval', k, ['valcall(x;%s)' % s])
		ask('grad' + l, whole, 'grad', k, ['gradcall(x;%s)' % s])
	ask('predict', parts, 'predict', {}, ['eval(x;)'])


FIXTURE = '''
import numpy as np
class Function:
	def __init__(self, funs, domain, grads=None, fd_grad=None, vectorized=False, kwargs={}, dask_client=None, return_grad=False):
		self.funs = funs if isinstance(funs, list) else [funs]
		self.domain = domain
		self.kwargs = kwargs
	def eval(self, X, **kwargs):
		kw = dict(self.kwargs)
		kw.update(kwargs)
		X = self.domain.unnormalize(np.atleast_1d(X))
		if X.ndim == 1:
			return np.hstack([f(X, **kw) for f in self.funs])
		return np.vstack([np.hstack([f(x, **kw) for f in self.funs]) for x in X])
class Late(Function):
	def eval(self, X, **kwargs):
		kw = dict(kwargs)
		kw.update(self.kwargs)
		return Function.eval(self, X, **kw) if not kw else Function.eval(self, X, b = kw['b'])
class Twice(Function):
	def eval(self, X, **kwargs):
		return Function.eval(self, self.domain.unnormalize(X), **kwargs)
class Rows(Function):
	def eval(self, X, **kwargs):
		return Function.eval(self, np.atleast_1d(X)[::-1], **kwargs)
class Flat(Function):
	def eval(self, X, **kwargs):
		return Function.eval(self, X, **kwargs).flatten()
'''


def selftest(ck):
	import os
	import tempfile
	from ..loader import Project
	from ..report import Check
	with tempfile.TemporaryDirectory() as d:
		os.makedirs(d + '/psdr')
		open(d + '/psdr/__init__.py', 'w').write('from .fx import *\n')
		open(d + '/psdr/fx.py', 'w').write(FIXTURE)
		P2 = Project(d)
		got = {}
		for n in ('Function', 'Late', 'Twice', 'Rows', 'Flat'):
			c2 = Check('selftest', P2)
			cls = P2.cls('psdr.fx.' + n)
			judge(c2, 'value', 'v', lambda: Case(P2, cls, ('scalar', 'pair'), 'none', False, (2, 2)), value('eval'))
			judge(c2, 'kwargs', 'k', lambda: Case(P2, cls, ('scalar', 'pair'), 'none', False, (2, 2), early=EARLY, late=LATE), value('eval'))
			got[n] = {(r, v) for v, r, c, _ in c2.obs}
	ok = got['Function'] == {('value', 'ok'), ('kwargs', 'ok')} and ('kwargs', 'violated') in got['Late'] and all(('value', 'violated') in got[n] for n in ('Twice', 'Rows', 'Flat'))
	ck.selftest('fixture: the plain wrapper passes; late defaults, double scaling, reversed rows and lost shape are told apart %s' % ('' if ok else got), ok)
