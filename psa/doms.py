"""Symbolic instances of every domain class, and the constraint families each one declares."""
from __future__ import annotations
from .loader import Project
from .interp import Interp
from .terms import *
from .alg import *

# constructor argument -> (tag, kind of letter)
ARG = {
	'lb': ('array', 'v'), 'ub': ('array', 'v'), 'A': ('array', 'm'), 'b': ('array', 'v'), 'A_eq': ('array', 'm'), 'b_eq': ('array', 'v'),
	'Ls': ('list', 'L'), 'ys': ('list', 'y'), 'rhos': ('list', 'r'), 'X': ('array', 'm'), 'x': ('array', 'v'),
	'mean': ('array', 'v'), 'cov': ('array', 'm'), 'truncate': ('scalar', 's'), 'scaling': ('scalar', 's'), 'offset': ('scalar', 's'),
	'dimension': ('int', 's'),
}
KINDS = [
	# label, class, arguments
	('LinQuadDomain', 'LinQuadDomain', ('A', 'b', 'lb', 'ub', 'A_eq', 'b_eq', 'Ls', 'ys', 'rhos')),
	('LinIneqDomain', 'LinIneqDomain', ('A', 'b', 'lb', 'ub', 'A_eq', 'b_eq')),
	('BoxDomain', 'BoxDomain', ('lb', 'ub')),
	('ConvexHullDomain', 'ConvexHullDomain', ('X', 'A', 'b', 'lb', 'ub', 'A_eq', 'b_eq', 'Ls', 'ys', 'rhos')),
	('NormalDomain', 'NormalDomain', ('mean', 'cov')),
	('NormalDomain.truncated', 'NormalDomain', ('mean', 'cov', 'truncate')),
	('LogNormalDomain', 'LogNormalDomain', ('mean', 'cov', 'offset', 'scaling')),
	('LogNormalDomain.truncated', 'LogNormalDomain', ('mean', 'cov', 'offset', 'scaling', 'truncate')),
	('UniformDomain', 'UniformDomain', ('lb', 'ub')),
	('PointDomain', 'PointDomain', ('x',)),
	('UnboundedDomain', 'UnboundedDomain', ('dimension',)),
]


class Made:
	def __init__(self, label, I, obj, st, args, prefix=''):
		self.label, self.I, self.obj, self.st, self.args, self.prefix = label, I, obj, st, args, prefix


def args_for(names, prefix=''):
	kw = {}
	for n in names:
		kw[n] = param(prefix + n, ARG[n][0])
	return kw


def make(P, label, cls, names, I=None, st=None, prefix='', freeze=True):
	if I is None:
		I = Interp(P)
		if freeze:
			frozen(I)
	C = P.cls('psdr.' + cls)
	kw = args_for(names, prefix)
	obj, st = I.new(C, (), kw, st, tag='entry' + prefix)
	return Made(label, I, obj, st, kw, prefix)


def frozen(I):
	def hk(name):
		def h(I, st, args, kwargs):
			o = args[0]
			return mk('frozen', name, o)
		return h
	I.hooks['.norm_lb'] = hk('nlb')
	I.hooks['.norm_ub'] = hk('nub')


def leaf(t):
	"""letters of constructor arguments and of the frozen normalisation bounds"""
	if t.op == 'param':
		n = t.args[0]
		if n in EXTRA:
			return mkl(EXTRA[n], n)
		base = n.split('.')[-1]
		if base in ARG:
			k = ARG[base][1]
			if k in ('v', 'm', 's'):
				return mkl(k, n)
		return None
	if t.op == 'index' and t.args[0].op == 'param':
		n = t.args[0].args[0]
		base = n.split('.')[-1]
		if base in ('Ls', 'ys', 'rhos') and t.args[1].op in ('idx', 'const'):
			i = 'i%d' % t.args[1].id if t.args[1].op == 'idx' else str(t.args[1].args[0])
			return mkl({'Ls': 'm', 'ys': 'v', 'rhos': 's'}[base], '%s[%s]' % (n, i))
	if t.op == 'frozen':
		return vec('%s#%s' % (t.args[0], t.args[1].args[0]))
	return None


def mkl(k, n):
	return {'v': vec, 'm': mat, 's': sc}[k](n)


EXTRA = {'tol': 's', 'x0': 'v', 'p': 'v', 'L': 'm', 'XX': 'v'}


def name_of(t):
	return t.args[0].args[0] if t.op == 'call' and t.args[0].op == 'ext' else ''


def strip_id(t):
	while t.op == 'call' and name_of(t) in IDENT and t.args[1]:
		t = t.args[1][0]
	return t


class DomLeaf:
	"""letters for domain code: constructor arguments, query point, hull coefficients, Cholesky factors,
	coordinate slices of a product"""

	def __init__(self, made_list=(), hull=True):
		self.nnls = {}
		self.slices = {}
		self.nf = None
		self.extra = {}
		self.slice_of = None    # callable(slice term) -> part number, for products
		self.point = 'XX'

	def __call__(self, t):
		r = self.extra.get(t)
		if r is not None:
			return r
		r = leaf(t)
		if r is not None:
			return r
		if t.op == 'index' and is_const(t.args[1], 0) and name_of(t.args[0]) == 'scipy.optimize.nnls':
			self.nnls[t.args[0]] = True
			return vec('alpha')
		n = name_of(t)
		if n in ('builtins.len',) and t.args[1]:
			x = strip_id(t.args[1][0])
			if x.op == 'param':
				return sc('len(%s)' % x.args[0])
		if t.op == 'index' and is_const(t.args[1], 0) and t.args[0].op == 'field' and t.args[0].args[1] == 'shape':
			x = strip_id(t.args[0].args[0])
			if x.op == 'param':
				return sc('len(%s)' % x.args[0])
		if n.endswith('linalg.cholesky') and self.nf is not None:
			p = self.nf.poly(t.args[1][0])
			kw = dict(t.args[2])
			low = n.startswith('numpy') or is_const(kw.get('lower', FALSE), True)
			c = canon(p)
			if len(c.d) == 1:
				(s, w), k = next(iter(c.d.items()))
				if k == 1 and not s and len(w) == 1 and w[0][0] == 'm':
					m = mat('chol(%s)' % w[0][1])
					return m if low else transpose(m)
		if n in ('scipy.linalg.solve_triangular', 'numpy.linalg.inv', 'scipy.linalg.inv', 'numpy.linalg.solve', 'scipy.linalg.solve') and self.nf is not None:
			p = self.nf.poly(t.args[1][0])
			if len(p.d) == 1:
				(s, w), k = next(iter(p.d.items()))
				if len(w) == 1 and w[0][0] == 'm' and w[0][1].startswith('chol('):
					kw = dict(t.args[2])
					tr = kw.get('trans')
					flip = w[0][2]
					if tr is not None and not (is_const(tr, 'N') or is_const(tr, 0)):
						flip = not flip
					if n.endswith('solve_triangular') and is_const(kw.get('lower', FALSE), True) == bool(w[0][2]):
						return None
					if n.endswith('inv') or len(t.args[1]) > 1:
						inv = mat('i' + w[0][1])
						inv = transpose(inv) if flip else inv
						return inv if n.endswith('inv') else matmul(inv, self.nf.poly(t.args[1][1]))
		if n in ('scipy.stats.chi2.isf', 'scipy.stats.chi2.ppf') and self.nf is not None:
			p = self.nf.poly(t.args[1][0])
			if n.endswith('ppf'):
				p = num(1).add(p, -1)
			if len(p.d) == 1 and p.scalar:
				return sc('clip(%s)' % next(iter(p.letters()), '?'))
		if t.op == 'index' and self.slice_of is not None:
			i = t.args[1]
			sl = i if i.op == 'slice' else i.args[1] if i.op == 'tuple' and len(i.args) == 2 and full(i.args[0]) and i.args[1].op == 'slice' else None
			if sl is not None and not full(sl):
				p = self.nf.poly(t.args[0])
				if p == vec(self.point):
					k = self.slice_of(sl)
					if k is not None:
						return vec('%s%s' % (self.point, k))
		return None
