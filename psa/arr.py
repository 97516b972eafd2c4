"""Abstract interpretation of array code over formulas: every array has a concrete shape and its entries are formulas
(psa.formula) of the symbolic inputs.  Only straight-line code whose branches are decided by shapes and constants is
followed; anything else raises Cannot and the obligation stays undecided."""
import ast
import itertools
import math
from fractions import Fraction as Fr
from itertools import product as iproduct
from .formula import numeric, equal, Poly, ONE, ZERO, power, div, norm_mono, expf, logf, trig, frac, Undefined, TooBig


class Cannot(Exception):
	pass


class Raised(Exception):
	"""the interpreted code raises"""
	def __init__(self, name):
		self.name = name


class Arr:
	def __init__(self, shape, flat):
		self.shape, self.flat = tuple(shape), list(flat)
		n = 1
		for s in self.shape:
			n *= s
		if n != len(self.flat):
			raise Cannot('shape')

	def __repr__(self):
		return 'Arr%s%s' % (self.shape, self.flat)


class Mat(Arr):
	"""a matrix whose product is the matrix product (sparse matrices, cvxpy constants)"""


class FlatView:
	"""the entries of another array, in another order: writing through it writes there"""
	def __init__(self, base, offs):
		self.base, self.offs = base, offs

	def __len__(self):
		return len(self.offs)

	def __iter__(self):
		return iter([self.base[o] for o in self.offs])

	def __getitem__(self, k):
		if isinstance(k, slice):
			return [self.base[o] for o in self.offs[k]]
		return self.base[self.offs[k]]

	def __setitem__(self, k, v):
		if isinstance(k, slice):
			for o, x in zip(self.offs[k], list(v)):
				self.base[o] = x
		else:
			self.base[self.offs[k]] = v


def view(shape, a, offs):
	out = Arr.__new__(Arr)
	out.shape, out.flat = tuple(shape), FlatView(a.flat, list(offs))
	return out


class Iter(list):
	"""an iterator: consumed by next and by loops"""


class Module:
	def __init__(self, name):
		self.name = name


class Fn:
	def __init__(self, f, node, env=None, me=None):
		self.f, self.node, self.env, self.me = f, node, env, me


class Obj:
	def __init__(self, cls, attrs=None):
		self.cls, self.attrs = cls, attrs if attrs is not None else {}


class Ext:
	def __init__(self, path):
		self.path = path


# contexts and calls that only concern warnings
FAMILY = {'LookupError': ('KeyError', 'IndexError'), 'ArithmeticError': ('ZeroDivisionError', 'OverflowError')}
FAMILY['OSError'] = FAMILY['IOError'] = FAMILY['EnvironmentError'] = ('OSError', 'IOError', 'FileNotFoundError', 'FileExistsError', 'PermissionError')
QUIET = {'warnings.catch_warnings', 'numpy.errstate', 'warnings.simplefilter', 'warnings.filterwarnings', 'warnings.warn'}


class NoneType:
	pass


def poly(v):
	if isinstance(v, Poly):
		return v
	if isinstance(v, (int, float, Fr, bool)):
		return Poly.const(v)
	if isinstance(v, Arr) and v.shape == ():
		return poly(v.flat[0])
	raise Cannot('not a number: %r' % (v,))


def num(v):
	"""a concrete python number or None"""
	if isinstance(v, (int, float, bool, Fr)):
		return v
	if isinstance(v, Poly):
		x = v.value()
		if x is None:
			return None
		return int(x) if x.denominator == 1 else x
	if isinstance(v, Arr) and v.shape == ():
		return num(v.flat[0])
	return None


def integer(v):
	x = num(v)
	if x is None or x != int(x):
		raise Cannot('not an integer')
	return int(x)


def strides(shape):
	out, n = [], 1
	for s in reversed(shape):
		out.append(n)
		n *= s
	return list(reversed(out))


def to_arr(v):
	if isinstance(v, Arr):
		return v
	if isinstance(v, (list, tuple)):
		parts = [to_arr(x) for x in v]
		if not parts:
			return Arr((0,), [])
		if any(p.shape != parts[0].shape for p in parts):
			raise Cannot('ragged')
		return Arr((len(parts),) + parts[0].shape, [x for p in parts for x in p.flat])
	if isinstance(v, (Poly, int, float, bool, Fr)):
		return Arr((), [v])
	raise Cannot('not an array: %r' % (v,))


def unwrap(a):
	return a.flat[0] if isinstance(a, Arr) and a.shape == () else a


def broadcast(*arrs):
	n = max(len(a.shape) for a in arrs)
	shape = []
	for i in range(n):
		ds = []
		for a in arrs:
			k = i - (n - len(a.shape))
			ds.append(a.shape[k] if k >= 0 else 1)
		big = [d for d in ds if d != 1]
		if any(d != big[0] for d in big):
			raise Raised('ValueError')
		shape.append(big[0] if big else 1)
	out = []
	for a in arrs:
		st = strides(a.shape)
		flat = []
		for idx in iproduct(*[range(s) for s in shape]):
			k = 0
			for i, j in enumerate(idx):
				q = i - (n - len(a.shape))
				if q >= 0 and a.shape[q] != 1:
					k += j * st[q]
			flat.append(a.flat[k])
		out.append(flat)
	return tuple(shape), out


def elementwise(fn, *vs):
	if all(not isinstance(v, (Arr, list, tuple)) for v in vs):
		return fn(*vs)
	shape, cols = broadcast(*[to_arr(v) for v in vs])
	return unwrap(Arr(shape, [fn(*t) for t in zip(*cols)]))


CELL = [None]   # values of the variables at a point inside the cell of inputs analysed, or None


def decision(v):
	"""does the value depend on a decision variable of an optimisation problem?"""
	if isinstance(v, Poly):
		return any(a[0] == 'v' and a[1].startswith('?') for a in v.atoms())
	if isinstance(v, Arr):
		return any(decision(x) for x in v.flat)
	return isinstance(v, Obj) and v.cls == 'atom'


# a value within rounding of zero counts as zero (points placed on a constraint by their coordinates)
LOOSE = [False]


def sign(p):
	"""sign of a formula over the cell"""
	x = p.value()
	if x is not None:
		return (x > 0) - (x < 0)
	if CELL[0] is None:
		raise Cannot('symbolic comparison')
	if decision(p):
		raise Cannot('comparison of decision variables')
	try:
		v, big = numeric(p, CELL[0])
	except (ValueError, OverflowError, ZeroDivisionError, TypeError):
		raise Cannot('symbolic comparison')
	if abs(v) > 1e-7 * big:
		return 1 if v > 0 else -1
	if LOOSE[0] and abs(v) <= 1e-12 * big:
		return 0
	if equal(p, ZERO):
		return 0
	raise Cannot('tie')


def floor(p):
	x = p.value()
	if x is not None:
		return math.floor(x)
	if CELL[0] is None or decision(p):
		raise Cannot('symbolic rounding')
	v, big = numeric(p, CELL[0])
	r = round(v)
	if abs(v - r) > 1e-7 * max(big, 1):
		return math.floor(v)
	if equal(p, Poly.const(r)):
		return r
	raise Cannot('tie')


def cdist(a, b, metric='euclidean'):
	a, b = to_arr(a), to_arr(b)
	if len(a.shape) != 2 or len(b.shape) != 2 or a.shape[1] != b.shape[1]:
		raise Raised('ValueError')
	m = a.shape[1]
	out = []
	for i in range(a.shape[0]):
		for j in range(b.shape[0]):
			s = summed([(poly(x) - poly(y)) * (poly(x) - poly(y)) for x, y in zip(a.flat[i * m:(i + 1) * m], b.flat[j * m:(j + 1) * m])])
			if metric == 'euclidean':
				s = power(s, Fr(1, 2))
			elif metric != 'sqeuclidean':
				raise Cannot('metric')
			out.append(s)
	return Arr((a.shape[0], b.shape[0]), out)


def sparse(I, args, kw):
	a = args[0]
	shape = kw.get('shape', args[1] if len(args) > 1 else None)
	if not isinstance(a, tuple):
		a = to_arr(a)
		return Mat(a.shape, a.flat)
	val, (row, col) = a
	val, row, col = [list(I.iterate(v)) for v in (val, row, col)]
	if shape is None or not len(val) == len(row) == len(col):
		raise Cannot('sparse matrix') if shape is None else Raised('ValueError')
	shape = tuple(integer(x) for x in shape)
	flat = [ZERO] * math.prod(shape)
	for v, i, j in zip(val, row, col):
		i, j = integer(i), integer(j)
		if not (0 <= i < shape[0] and 0 <= j < shape[1]):
			raise Raised('ValueError')
		flat[i * shape[1] + j] = flat[i * shape[1] + j] + poly(v)
	return Mat(shape, flat)


def infinite(v):
	return isinstance(v, float) and (v != v or abs(v) == math.inf)


def compare(op, a, b):
	x, y = num(a), num(b)
	if x is None or y is None:
		if infinite(x) or infinite(y):
			x, y = (0 if x is None else x), (0 if y is None else y)
		else:
			x, y = sign(poly(a) - poly(b)), 0
	return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y, 'Eq': x == y, 'NotEq': x != y}[op]


def arith(op, a, b):
	if isinstance(a, bool):
		a = int(a)
	if isinstance(b, bool):
		b = int(b)
	if isinstance(a, int) and isinstance(b, int):
		if op == 'Add': return a + b
		if op == 'Sub': return a - b
		if op == 'Mult': return a * b
		if op == 'FloorDiv' and b: return a // b
		if op == 'Mod' and b: return a % b
		if op == 'Pow' and b >= 0: return a ** b
	if infinite(a) or infinite(b):
		if op == 'Mult':
			x, y = [v if infinite(v) else float(sign(poly(v))) for v in (a, b)]
			return x * y
		if op in ('Add', 'Sub'):
			x, y = [v if infinite(v) else 0. for v in (a, b)]
			return x + y if op == 'Add' else x - y
		if op == 'Div':
			if infinite(b):
				return math.nan if infinite(a) or b != b else ZERO
			s = sign(poly(b))
			return math.nan if a != a else a * s if s else a
		raise Cannot('infinity')
	try:
		if op == 'Add': return poly(a) + poly(b)
		if op == 'Sub': return poly(a) - poly(b)
		if op == 'Mult': return poly(a) * poly(b)
		if op == 'Div': return div(poly(a), poly(b))
		if op == 'Pow':
			e = poly(b).value()
			if e is None:
				raise Cannot('symbolic exponent')
			return power(poly(a), e)
		if op in ('FloorDiv', 'Mod'):
			if sign(poly(b)) == 0:
				raise Cannot('division by zero')
			q = floor(div(poly(a), poly(b)))
			return Poly.const(q) if op == 'FloorDiv' else poly(a) - Poly.const(q) * poly(b)
	except Undefined as e:
		raise Cannot(str(e))
	raise Cannot('operator ' + op)


def extreme(vs, largest):
	"""the largest (smallest) of the values over the cell"""
	vs = list(vs)
	if not vs:
		raise Raised('ValueError')
	best = vs[0]
	for v in vs[1:]:
		if compare('Gt' if largest else 'Lt', v, best):
			best = v
	x = num(best)
	return best if x is None else x


def order(vs):
	"""positions of the values in increasing order over the cell (stable)"""
	out = []
	for i, v in enumerate(vs):
		k = len(out)
		while k and compare('Lt', v, vs[out[k - 1]]):
			k -= 1
		out.insert(k, i)
	return out


def transpose(a, axes=None):
	n = len(a.shape)
	axes = list(reversed(range(n))) if axes is None else axes
	shape = [a.shape[i] for i in axes]
	st = strides(a.shape)
	return view(shape, a, [sum(j * st[axes[i]] for i, j in enumerate(idx)) for idx in iproduct(*[range(s) for s in shape])])


def reshape(a, shape):
	shape = [integer(s) for s in shape]
	n = len(a.flat)
	if -1 in shape:
		k = 1
		for s in shape:
			if s != -1:
				k *= s
		if k == 0 or n % k:
			raise Raised('ValueError')
		shape[shape.index(-1)] = n // k
	k = 1
	for s in shape:
		k *= s
	if k != n:
		raise Raised('ValueError')
	return view(shape, a, range(n)) if isinstance(a.flat, list) else Arr(shape, a.flat)


def reshape_(a, shape, order='C'):
	if order == 'C':
		return reshape(a, shape)
	if order != 'F':
		raise Cannot('reshape order')
	b = reshape(a, shape)
	return transpose(reshape(transpose(a), tuple(reversed(b.shape))))


def index(a, key):
	"""numpy basic indexing, plus integer lists on one axis"""
	if isinstance(key, Arr) and len(key.shape) > 1 and key.shape == a.shape and all(isinstance(x, bool) for x in key.flat):
		hit = [i for i, x in enumerate(key.flat) if x]
		return [len(hit)], hit
	if not isinstance(key, tuple):
		key = (key,)
	if any(k is Ellipsis for k in key):
		i = [k is Ellipsis for k in key].index(True)
		used = sum(1 for k in key if k is not None and k is not Ellipsis)
		key = key[:i] + (slice(None),) * (len(a.shape) - used) + key[i + 1:]
	if sum(1 for k in key if k is not None) > len(a.shape):
		raise Raised('IndexError')
	dims, pos = [], 0
	sel = []
	fancy = 0
	for k in key:
		if k is None:
			dims.append(('new', None))
			continue
		n = a.shape[pos]
		if isinstance(k, slice):
			r = list(range(n))[slice(*[None if x is None else integer(x) for x in (k.start, k.stop, k.step)])]
			dims.append(('ax', r))
		elif isinstance(k, (list, Arr)):
			arr = to_arr(k)
			if len(arr.shape) != 1:
				if arr.shape == ():
					i = integer(arr.flat[0])
					dims.append(('one', [i % n if n else 0]))
					pos += 1
					continue
				raise Cannot('index array')
			vals = arr.flat
			if vals and all(isinstance(x, bool) for x in vals):
				if len(vals) != n:
					raise Raised('IndexError')
				r = [i for i, x in enumerate(vals) if x]
			else:
				r = [integer(x) for x in vals]
				if any(i >= n or i < -n for i in r):
					raise Raised('IndexError')
				r = [i % n for i in r]
			fancy += 1
			dims.append(('ax', r))
		else:
			i = integer(k)
			if i >= n or i < -n:
				raise Raised('IndexError')
			dims.append(('one', [i % n]))
		pos += 1
	if fancy > 1:
		ax = [r for t, r in dims]
		if fancy != len(dims) or len({len(r) for r in ax}) != 1 or pos != len(a.shape):
			raise Cannot('several index arrays')
		st = strides(a.shape)
		return [len(ax[0])], [sum(i * s for i, s in zip(idx, st)) for idx in zip(*ax)]
	for n in a.shape[pos:]:
		dims.append(('ax', list(range(n))))
	shape = [1 if t == 'new' else len(r) for t, r in dims if t != 'one']
	st = strides(a.shape)
	lists = [r for t, r in dims if t != 'new']
	offs = [sum(i * s for i, s in zip(idx, st)) for idx in iproduct(*lists)]
	return shape, offs


def getitem(a, key):
	shape, offs = index(a, key)
	if any(isinstance(k, (list, Arr)) for k in (key if isinstance(key, tuple) else (key,))):
		return unwrap(Arr(shape, [a.flat[o] for o in offs]))
	return unwrap(view(shape, a, offs))


def setitem(a, key, v):
	shape, offs = index(a, key)
	val = to_arr(v)
	_, cols = broadcast(Arr(shape, offs), val)
	if len(cols[0]) != len(offs):
		raise Raised('ValueError')
	for o, x in list(zip(*cols)):
		a.flat[o] = x


def concat(parts, axis):
	parts = [to_arr(p) for p in parts]
	if not parts:
		raise Raised('ValueError')
	n = len(parts[0].shape)
	if any(len(p.shape) != n for p in parts):
		raise Raised('ValueError')
	axis = axis % n if n else 0
	for p in parts:
		if any(i != axis and p.shape[i] != parts[0].shape[i] for i in range(n)):
			raise Raised('ValueError')
	shape = list(parts[0].shape)
	shape[axis] = sum(p.shape[axis] for p in parts)
	out = Arr(shape, [None] * math.prod(shape))
	k = 0
	for p in parts:
		key = tuple(slice(None) if i != axis else slice(k, k + p.shape[axis]) for i in range(n))
		setitem(out, key, p)
		k += p.shape[axis]
	return out


def atleast(a, n):
	a = to_arr(a)
	while len(a.shape) < n:
		a = view((1,) + a.shape, a, range(len(a.flat)))
	return a


def dot(a, b):
	a, b = to_arr(a), to_arr(b)
	if a.shape == () or b.shape == ():
		return elementwise(lambda x, y: arith('Mult', x, y), a, b)
	ax = a.shape[-1]
	k = len(b.shape) - 2 if len(b.shape) > 1 else 0
	if b.shape[k] != ax:
		raise Raised('ValueError')
	if len(a.shape) > 2 or len(b.shape) > 2:
		if len(b.shape) > 2:
			raise Cannot('dot of tensors')
	left = [a.flat[i * ax:(i + 1) * ax] for i in range(math.prod(a.shape[:-1]))]
	cols = b.shape[1] if len(b.shape) == 2 else 1
	out = []
	for r in left:
		for j in range(cols):
			s = ZERO
			for i in range(ax):
				s = s + poly(r[i]) * poly(b.flat[i * cols + j])
			out.append(s)
	shape = a.shape[:-1] + (b.shape[1:] if len(b.shape) == 2 else ())
	return unwrap(Arr(shape, out))


def reduce_(a, axis, fn):
	a = to_arr(a)
	if axis is None:
		return fn(a.flat)
	axis = integer(axis) % len(a.shape)
	rest = [s for i, s in enumerate(a.shape) if i != axis]
	out = []
	for idx in iproduct(*[range(s) for s in rest]):
		key = list(idx[:axis]) + [slice(None)] + list(idx[axis:])
		out.append(fn(to_arr(getitem(a, tuple(key))).flat))
	return unwrap(Arr(rest, out))


def summed(xs):
	s = ZERO
	for x in xs:
		s = s + poly(x)
	return s


def prodded(xs):
	s = ONE
	for x in xs:
		s = s * poly(x)
	return s


def each(fn):
	def go(v):
		try:
			return elementwise(lambda x: fn(poly(x)), v)
		except Undefined as e:
			raise Cannot(str(e))
	return go


def tanh(p):
	e = expf(p + p)
	return div(e - ONE, e + ONE)


UFUNC = {
	'sqrt': each(lambda p: power(p, Fr(1, 2))), 'exp': each(expf), 'log': each(logf), 'cos': each(lambda p: trig(p)[0]), 'sin': each(lambda p: trig(p)[1]),
	'tan': each(lambda p: div(trig(p)[1], trig(p)[0])), 'sinh': each(lambda p: (expf(p) - expf(-p)) * Poly.const(Fr(1, 2))), 'cosh': each(lambda p: (expf(p) + expf(-p)) * Poly.const(Fr(1, 2))),
	'tanh': each(tanh), 'square': each(lambda p: p * p), 'negative': each(lambda p: -p), 'reciprocal': each(lambda p: power(p, -1)), 'log10': each(lambda p: div(logf(p), logf(Poly.const(10)))),
	'deg2rad': each(lambda p: p * Poly.var('pi') * Poly.const(Fr(1, 180))), 'radians': each(lambda p: p * Poly.var('pi') * Poly.const(Fr(1, 180))), 'cbrt': each(lambda p: power(p, Fr(1, 3))),
	'conj': lambda v: v, 'real': lambda v: v, 'asarray': None,
}
BINARY = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow', 'float_power': 'Pow'}
CMP = {ast.Lt: 'Lt', ast.LtE: 'LtE', ast.Gt: 'Gt', ast.GtE: 'GtE', ast.Eq: 'Eq', ast.NotEq: 'NotEq'}


class Ret(Exception):
	def __init__(self, v):
		self.v = v


class Brk(Exception):
	pass


class Cont(Exception):
	pass


DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'MatMult': 'matmul', 'BitAnd': 'and', 'BitOr': 'or', 'Div': 'truediv', 'Pow': 'pow'}


class Interp:
	"""P: project; hooks: {external path or function short name: callable(interp, args, kwargs)}"""

	def __init__(self, P, hooks=None, steps=200000):
		self.P, self.hooks, self.steps = P, hooks or {}, steps

	# calling ------------------------------------------------------------------------
	def call(self, fn, args=(), kw=None):
		kw = dict(kw or {})
		if isinstance(fn, Ext):
			return self.ext(fn.path, list(args), kw)
		if isinstance(fn, Obj) and not isinstance(fn.cls, str):
			m = fn.cls.lookup('__call__')
			if m and m[0] == 'method':
				return self.call(Fn(m[1], m[1].node, None, fn), args, kw)
			raise Cannot('call of an object')
		if callable(fn) and not isinstance(fn, (Fn, type)):
			return fn(*args, **kw)
		if not isinstance(fn, Fn):
			if isinstance(fn, tuple) and fn[0] == 'class':
				return self.new(fn[1], args, kw)
			raise Cannot('call of %r' % (fn,))
		if fn.f is not None and fn.f.short in self.hooks and fn.node is fn.f.node:
			return self.hooks[fn.f.short](self, fn, list(args), kw)
		node = fn.node
		env = dict(fn.env or {})
		env['@f'] = fn.f
		a = node.args
		pos = [p.arg for p in a.posonlyargs + a.args]
		args = list(args)
		if fn.me is not None:
			args = [fn.me] + args
		defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
		for p, v in zip(pos, args):
			env[p] = v
		extra = args[len(pos):]
		if a.vararg:
			env[a.vararg.arg] = tuple(extra)
		elif extra:
			raise Raised('TypeError')
		given = set(pos[:len(args)])
		for k in list(kw):
			if k in pos or k in [x.arg for x in a.kwonlyargs]:
				if k in given:
					raise Raised('TypeError')
				env[k] = kw.pop(k)
				given.add(k)
		for p in pos:
			if p not in given:
				if p not in defaults:
					raise Raised('TypeError')
				env[p] = self.ev(defaults[p], {'@f': fn.f})
		for x, d in zip(a.kwonlyargs, a.kw_defaults):
			if x.arg not in given:
				env[x.arg] = self.ev(d, {'@f': fn.f})
		if a.kwarg:
			env[a.kwarg.arg] = kw
		elif kw:
			raise Raised('TypeError')
		if isinstance(node, ast.Lambda):
			return self.ev(node.body, env)
		if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(node)):
			# a generator, run to its end
			env['@yield'] = []
			try:
				self.block(node.body, env)
			except Ret:
				pass
			return Iter(env['@yield'])
		try:
			self.block(node.body, env)
		except Ret as r:
			return r.v
		return None

	def new(self, cls, args, kw):
		for c in cls.mro():
			if c.qualname in self.hooks:
				return self.hooks[c.qualname](self, cls, list(args), dict(kw))
		o = Obj(cls)
		m = cls.lookup('__init__')
		if m and m[0] == 'method':
			self.call(Fn(m[1], m[1].node, None, o), args, kw)
		return o

	# statements ---------------------------------------------------------------------
	def block(self, body, env):
		for s in body:
			self.stmt(s, env)

	def stmt(self, s, env):
		self.steps -= 1
		if self.steps < 0:
			raise Cannot('too long')
		t = type(s).__name__
		m = getattr(self, 's_' + t, None)
		if m is None:
			raise Cannot('statement ' + t)
		return m(s, env)

	def s_Pass(self, s, env): pass
	def s_Global(self, s, env): raise Cannot('global')

	def s_Expr(self, s, env):
		if isinstance(s.value, ast.Constant):
			return
		self.ev(s.value, env)

	def s_Assign(self, s, env):
		v = self.ev(s.value, env)
		for t in s.targets:
			self.assign(t, v, env)

	def s_AnnAssign(self, s, env):
		if s.value is not None:
			self.assign(s.target, self.ev(s.value, env), env)

	def s_AugAssign(self, s, env):
		cur = self.ev(s.target, env)
		v = self.ev(s.value, env)
		if isinstance(cur, list) and isinstance(s.op, ast.Add):
			cur.extend(list(v))
			return
		r = self.binop(type(s.op).__name__, cur, v)
		if isinstance(cur, Arr):
			r = to_arr(r)
			if r.shape != cur.shape:
				try:
					ok = len(broadcast(cur, r)[1][1]) == len(cur.flat)
				except Raised:
					ok = False
				if not ok:
					raise Raised('ValueError')
				r = Arr(cur.shape, broadcast(cur, r)[1][1])
			if isinstance(s.target, ast.Subscript):
				o = self.ev(s.target.value, env)
				if isinstance(o, Arr):
					setitem(o, self.key(s.target.slice, env), r)
				else:
					cur.flat[:] = list(r.flat)
			else:
				cur.flat[:] = list(r.flat)
			return
		self.assign(s.target, r, env)

	def s_Return(self, s, env):
		raise Ret(self.ev(s.value, env) if s.value is not None else None)

	def s_If(self, s, env):
		self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

	def s_For(self, s, env):
		broke = False
		for v in self.iterate(self.ev(s.iter, env)):
			self.assign(s.target, v, env)
			try:
				self.block(s.body, env)
			except Cont:
				continue
			except Brk:
				broke = True
				break
		if not broke:
			self.block(s.orelse, env)

	def s_While(self, s, env):
		while self.truth(self.ev(s.test, env)):
			self.steps -= 1
			if self.steps < 0:
				raise Cannot('too long')
			try:
				self.block(s.body, env)
			except Cont:
				continue
			except Brk:
				return
		self.block(s.orelse, env)

	def s_Break(self, s, env): raise Brk()
	def s_Continue(self, s, env): raise Cont()

	def s_Try(self, s, env):
		try:
			try:
				self.block(s.body, env)
			except Raised as e:
				for h in s.handlers:
					if self.catches(h.type, e.name):
						if h.name:
							env[h.name] = Ext('exception')
						env['@raised'] = env.get('@raised', ()) + (e,)
						try:
							self.block(h.body, env)
						finally:
							env['@raised'] = env['@raised'][:-1]
						break
				else:
					raise
			else:
				self.block(s.orelse, env)
		except (Raised, Ret, Brk, Cont):
			self.block(s.finalbody, env)
			raise
		self.block(s.finalbody, env)

	def catches(self, t, name):
		if t is None:
			return True
		if isinstance(t, ast.Tuple):
			return any(self.catches(x, name) for x in t.elts)
		n = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else ''
		return n in (name, 'Exception', 'BaseException') or name in FAMILY.get(n, ())

	def s_With(self, s, env):
		leave = []
		for item in s.items:
			c = item.context_expr
			fn = self.ev(c.func, env) if isinstance(c, ast.Call) else None
			if isinstance(fn, Ext) and fn.path in QUIET:
				if item.optional_vars is not None:
					raise Cannot('with')
				continue
			v = self.ev(c, env)
			if not isinstance(v, Obj) or '__exit__' not in v.attrs:
				raise Cannot('with')
			x = self.call(v.attrs['__enter__'], [], {})
			if item.optional_vars is not None:
				self.assign(item.optional_vars, x, env)
			leave.append(v)
		try:
			self.block(s.body, env)
		finally:
			for v in reversed(leave):
				self.call(v.attrs['__exit__'], [None, None, None], {})

	def s_Raise(self, s, env):
		e = s.exc
		if e is None:
			raise env['@raised'][-1] if env.get('@raised') else Raised('Exception')
		if isinstance(e, ast.Call):
			e = e.func
		raise Raised(e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else 'Exception')

	def s_Assert(self, s, env):
		if not self.truth(self.ev(s.test, env)):
			raise Raised('AssertionError')

	def s_Import(self, s, env):
		for a in s.names:
			env[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])

	def s_ImportFrom(self, s, env):
		f = env.get('@f')
		mod = s.module or ''
		if s.level and f is not None:
			base = f.module.name.split('.')
			base = base[:len(base) - s.level + (1 if f.module.is_pkg else 0)]
			mod = '.'.join(base + ([s.module] if s.module else []))
		for a in s.names:
			m = self.P.modules.get(mod)
			r = self.P.lookup(m, a.name) if m is not None else None
			if r is None and self.P.modules.get(mod + '.' + a.name) is not None:
				r = ('module', self.P.modules[mod + '.' + a.name])
			env[a.asname or a.name] = self.from_ref(r, a.name, m) if r is not None else Ext('%s.%s' % (mod, a.name))

	def s_FunctionDef(self, s, env):
		env[s.name] = Fn(env['@f'], s, env)

	def s_Delete(self, s, env): pass

	def assign(self, t, v, env):
		if isinstance(t, ast.Name):
			env[t.id] = v
		elif isinstance(t, (ast.Tuple, ast.List)):
			vs = self.iterate(v)
			star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
			if star:
				i = star[0]
				k = len(t.elts) - i - 1
				if len(vs) < len(t.elts) - 1:
					raise Raised('ValueError')
				for e, x in zip(t.elts[:i], vs[:i]):
					self.assign(e, x, env)
				self.assign(t.elts[i].value, list(vs[i:len(vs) - k]), env)
				for e, x in zip(t.elts[i + 1:], vs[len(vs) - k:]):
					self.assign(e, x, env)
				return
			if len(vs) != len(t.elts):
				raise Raised('ValueError')
			for e, x in zip(t.elts, vs):
				self.assign(e, x, env)
		elif isinstance(t, ast.Attribute):
			o = self.ev(t.value, env)
			if isinstance(o, Obj):
				o.attrs[t.attr] = v
			elif t.attr == 'value' and decision(o):
				pass				# a starting guess for the solver
			else:
				raise Cannot('attribute store')
		elif isinstance(t, ast.Subscript):
			o = self.ev(t.value, env)
			k = self.key(t.slice, env)
			if isinstance(o, Arr):
				setitem(o, k, v)
			elif isinstance(o, Ext) and o.path.startswith('cvxopt'):
				pass				# options of a solver
			elif isinstance(o, (list, dict)):
				o[integer(k) if isinstance(o, list) else k] = v
			else:
				raise Cannot('item store')
		else:
			raise Cannot('target')

	def iterate(self, v):
		if isinstance(v, Iter):
			out = list(v)
			del v[:]
			return out
		if isinstance(v, (list, tuple, range, str)):
			return list(v)
		if isinstance(v, dict):
			return list(v)
		if isinstance(v, Arr):
			if not v.shape:
				raise Raised('TypeError')
			return [getitem(v, i) for i in range(v.shape[0])]
		if isinstance(v, (Poly, int, float, bool)) or v is None:
			raise Raised('TypeError')
		raise Cannot('iteration over %r' % (v,))

	def truth(self, v):
		if v is None or isinstance(v, (bool, int, float, str, list, tuple, dict)):
			return bool(v)
		if isinstance(v, Arr):
			if len(v.flat) == 1:
				return self.truth(v.flat[0])
			raise Raised('ValueError') if len(v.flat) > 1 else Cannot('empty truth')
		if isinstance(v, (Obj, Fn)):
			return True
		x = num(v)
		if x is not None:
			return bool(x)
		raise Cannot('undecided condition')

	# expressions ---------------------------------------------------------------------
	def ev(self, e, env):
		self.steps -= 1
		if self.steps < 0:
			raise Cannot('too long')
		m = getattr(self, 'e_' + type(e).__name__, None)
		if m is None:
			raise Cannot('expression ' + type(e).__name__)
		return m(e, env)

	def e_Constant(self, e, env):
		v = e.value
		if isinstance(v, float):
			return v if v in (math.inf, -math.inf) or v != v else Poly.const(v)
		return v

	def e_Name(self, e, env):
		if e.id in env:
			return env[e.id]
		f = env.get('@f')
		r = self.P.lookup(f.module, e.id) if f is not None else None
		if r is None:
			if e.id in ('True', 'False', 'None'):
				return {'True': True, 'False': False, 'None': None}[e.id]
			return Ext('builtins.' + e.id)
		return self.from_ref(r, e.id, f.module)

	def from_ref(self, r, name=None, module=None):
		if r[0] == 'ext':
			return Ext(r[1])
		if r[0] == 'func':
			return Fn(r[1], r[1].node)
		if r[0] == 'class':
			return ('class', r[1])
		if r[0] == 'module':
			return Module(r[1])
		if r[0] == 'assign' and isinstance(r[1], ast.AST):
			return self.ev(r[1], {'@f': _Mod(r[2])})
		raise Cannot('name %s' % name)

	def e_Attribute(self, e, env):
		v = self.ev(e.value, env)
		return self.attr(v, e.attr)

	def attr(self, v, a):
		if isinstance(v, Module):
			r = self.P.lookup(v.name, a)
			if r is None:
				raise Cannot('module attribute')
			return self.from_ref(r, a, v.name)
		if isinstance(v, Ext):
			p = v.path + '.' + a
			if p in ('numpy.pi', 'math.pi', 'scipy.pi'):
				return Poly.var('pi')
			if p in ('numpy.inf', 'math.inf'):
				return math.inf
			if p in ('numpy.nan', 'math.nan'):
				return math.nan
			if p == 'numpy.newaxis':
				return None
			return Ext(p)
		if isinstance(v, Arr):
			if a == 'shape': return v.shape
			if a == 'T':
				t = transpose(v)
				return Mat(t.shape, t.flat) if isinstance(v, Mat) else t
			if a == 'ndim': return len(v.shape)
			if a == 'size': return len(v.flat)
			if a == 'flat': return Arr((len(v.flat),), v.flat)
			if a in ('real',): return v
			if a == 'value' and decision(v): return solved(v)
			return ('bound', v, a)
		if isinstance(v, (Poly, int, float)) and not isinstance(v, bool):
			if a == 'shape': return () if isinstance(v, Poly) else self.noattr()
			if a == 'ndim': return 0
			if a == 'T': return v
			if a == 'value' and decision(v): return solved(v)
			return ('bound', v, a)
		if isinstance(v, (list, tuple, dict, str)) and not (isinstance(v, tuple) and len(v) > 1 and v[0] in ('class', 'bound')):
			if a in ('shape', 'T', 'ndim'):
				raise Raised('AttributeError')
			return ('bound', v, a)
		if v is None:
			raise Raised('AttributeError')
		if a == '__name__' and hasattr(v, '__name__'):
			return v.__name__
		if isinstance(v, Obj):
			if a in v.attrs:
				return v.attrs[a]
			if isinstance(v.cls, str):
				raise Cannot('attribute of ' + v.cls)
			r = v.cls.lookup(a)
			if r is None:
				raise Raised('AttributeError')
			if r[0] == 'method':
				f = r[1]
				if any(getattr(d, 'id', getattr(d, 'attr', '')) in ('property', 'cached_property') for d in f.node.decorator_list):
					return self.call(Fn(f, f.node, None, v))
				return Fn(f, f.node, None, None if f.is_static else v)
			if isinstance(r[1], ast.AST):
				return self.ev(r[1], {'@f': _Mod(r[2].module)})
			raise Cannot('class attribute')
		if isinstance(v, tuple) and v[0] == 'class':
			r = v[1].lookup(a)
			if r and r[0] == 'method':
				return Fn(r[1], r[1].node, None, None)
			raise Cannot('class attribute')
		raise Cannot('attribute %s' % a)

	def noattr(self):
		raise Raised('AttributeError')

	def key(self, s, env):
		if isinstance(s, ast.Slice):
			return slice(*[None if x is None else self.ev(x, env) for x in (s.lower, s.upper, s.step)])
		if isinstance(s, ast.Tuple):
			return tuple(self.key(x, env) for x in s.elts)
		if isinstance(s, ast.Constant) and s.value is Ellipsis:
			return Ellipsis
		return self.ev(s, env)

	def e_Subscript(self, e, env):
		v = self.ev(e.value, env)
		k = self.key(e.slice, env)
		if isinstance(v, Arr):
			return getitem(v, k)
		if isinstance(v, (list, tuple, str, range)):
			if isinstance(k, slice):
				return v[slice(*[None if x is None else integer(x) for x in (k.start, k.stop, k.step)])]
			try:
				return v[integer(k)]
			except IndexError:
				raise Raised('IndexError')
		if isinstance(v, dict):
			if k not in v:
				raise Raised('KeyError')
			return v[k]
		if isinstance(v, (Poly, int, float)) or v is None:
			raise Raised('IndexError' if isinstance(v, Poly) else 'TypeError')
		raise Cannot('subscript')

	def binop(self, op, a, b):
		for x, y, r in ((a, b, ''), (b, a, 'r')):
			# operators of the package's own classes
			if isinstance(x, Obj) and not isinstance(x.cls, str) and op in DUNDER:
				m = x.cls.lookup('__%s%s__' % (r, DUNDER[op]))
				if m and m[0] == 'method':
					return self.call(Fn(m[1], m[1].node, None, x), [y], {})
		if isinstance(a, Obj) and a.cls == 'atom' or isinstance(b, Obj) and b.cls == 'atom':
			raise Cannot('operand')
		if op == 'MatMult':
			return dot(a, b)
		if op == 'Mult' and isinstance(a, Arr) and isinstance(b, Arr) and a.shape and b.shape and (isinstance(a, Mat) or isinstance(b, Mat) or decision(a) or decision(b)):
			if len(a.flat) > 1 and len(b.flat) > 1:
				return dot(a, b)
		if op in ('LShift', 'RShift'):
			return Obj('constraint', {'op': 'psd', 'l': a if op == 'LShift' else b, 'r': b if op == 'LShift' else a})
		if isinstance(a, str) or isinstance(b, str):
			if op == 'Mod' or op == 'Add' and isinstance(a, str) and isinstance(b, str):
				return a + b if op == 'Add' else a
			raise Cannot('string operator')
		if op == 'Add' and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) == type(b):
			return a + b
		if op == 'Mult' and isinstance(a, (list, tuple)) and isinstance(b, int):
			return a * b
		if op == 'Mult' and isinstance(b, (list, tuple)) and isinstance(a, int):
			return b * a
		if op in ('BitAnd', 'BitOr', 'BitXor'):
			def bit(x, y):
				if isinstance(x, bool) and isinstance(y, bool):
					return x & y if op == 'BitAnd' else x | y if op == 'BitOr' else x ^ y
				raise Cannot('bit operator')
			return elementwise(bit, a, b)
		for x in (a, b):
			if x is None or isinstance(x, (Obj, Fn, Ext, dict)):
				if x is None:
					raise Raised('TypeError')
				raise Cannot('operand')
		if op == 'Div' and (isinstance(a, Arr) or isinstance(b, Arr)):
			def over(x, y):
				if not infinite(y) and not isinstance(y, bool) and num(y) == 0:
					if infinite(x):
						return x
					t = sign(poly(x))
					return math.inf if t > 0 else -math.inf if t < 0 else math.nan
				return arith(op, x, y)
			return elementwise(over, a, b)
		return elementwise(lambda x, y: arith(op, x, y), a, b)

	def e_BinOp(self, e, env):
		return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))

	def e_UnaryOp(self, e, env):
		v = self.ev(e.operand, env)
		if isinstance(e.op, ast.Not):
			return not self.truth(v)
		if isinstance(e.op, ast.UAdd):
			return v
		if isinstance(e.op, ast.Invert):
			def inv(x):
				if isinstance(x, bool):
					return not x
				raise Cannot('invert')
			return elementwise(inv, v)
		return elementwise(lambda x: -x if isinstance(x, (int, float)) and not isinstance(x, bool) else -poly(x), v)

	def e_BoolOp(self, e, env):
		v = None
		for x in e.values:
			v = self.ev(x, env)
			if self.truth(v) != isinstance(e.op, ast.And):
				return v
		return v

	def e_Compare(self, e, env):
		l = self.ev(e.left, env)
		out = True
		for op, c in zip(e.ops, e.comparators):
			r = self.ev(c, env)
			out = self.cmp(op, l, r)
			if len(e.ops) > 1 and not self.truth(out):
				return False
			l = r
		return out

	def cmp(self, op, l, r):
		if decision(l) or decision(r):
			n = CMP.get(type(op))
			if n is None:
				raise Cannot('comparison')
			return Obj('constraint', {'op': n, 'l': l, 'r': r})
		if isinstance(op, (ast.Is, ast.IsNot)):
			same = l is r if l is None or r is None or not isinstance(l, (bool, int)) else l is r
			return same == isinstance(op, ast.Is)
		if isinstance(op, (ast.In, ast.NotIn)):
			if isinstance(r, dict):
				v = l in r
			elif isinstance(r, (list, tuple, str)):
				v = any(self.same(x, l) for x in r) if not isinstance(r, str) else l in r
			else:
				raise Cannot('membership')
			return v == isinstance(op, ast.In)
		name = CMP.get(type(op))
		if name in ('Eq', 'NotEq') and any(isinstance(x, Poly) and isinstance(y, (str, type(None))) for x, y in ((l, r), (r, l))):
			return name == 'NotEq'
		if name in ('Eq', 'NotEq') and any(isinstance(x, Ext) and isinstance(y, (str, type(None))) for x, y in ((l, r), (r, l))):
			return name == 'NotEq'
		if name in ('Eq', 'NotEq') and not (isinstance(l, (Arr, Poly)) or isinstance(r, (Arr, Poly))):
			if isinstance(l, (str, tuple, list, dict, int, float, bool, type(None))) and isinstance(r, (str, tuple, list, dict, int, float, bool, type(None))):
				return (l == r) == (name == 'Eq')
			raise Cannot('comparison')
		if isinstance(l, (tuple, list)) and type(l) is type(r):
			for x, y in zip(l, r):
				if isinstance(x, (Arr, tuple, list)) or isinstance(y, (Arr, tuple, list)):
					raise Cannot('comparison')
				if not compare('Eq', x, y):
					return compare(name, x, y)
			return compare(name, len(l), len(r))
		return elementwise(lambda x, y: compare(name, x, y), l, r)

	def same(self, x, y):
		if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
			return isinstance(x, str) and isinstance(y, str) and x == y or x is None and y is None
		if isinstance(x, (Poly, Arr)) or isinstance(y, (Poly, Arr)):
			a, b = num(x), num(y)
			if a is None or b is None:
				raise Cannot('membership')
			return a == b
		return x == y

	def e_IfExp(self, e, env):
		return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

	def e_List(self, e, env):
		out = []
		for x in e.elts:
			if isinstance(x, ast.Starred):
				out += self.iterate(self.ev(x.value, env))
			else:
				out.append(self.ev(x, env))
		return out

	def e_Tuple(self, e, env):
		return tuple(self.e_List(e, env))

	def e_Dict(self, e, env):
		out = {}
		for k, v in zip(e.keys, e.values):
			if k is None:
				out.update(self.ev(v, env))
			else:
				out[self.ev(k, env)] = self.ev(v, env)
		return out

	def e_Yield(self, e, env):
		if '@yield' not in env:
			raise Cannot('yield')
		env['@yield'].append(self.ev(e.value, env) if e.value is not None else None)
		if len(env['@yield']) > 10000:
			raise Cannot('endless generator')

	def e_YieldFrom(self, e, env):
		env['@yield'].extend(self.iterate(self.ev(e.value, env)))

	def e_Lambda(self, e, env):
		return Fn(env['@f'], e, env)

	def e_JoinedStr(self, e, env):
		return ''

	def comp(self, gens, env, leaf):
		if not gens:
			leaf(env)
			return
		g = gens[0]
		for v in self.iterate(self.ev(g.iter, env)):
			sub = dict(env)
			self.assign(g.target, v, sub)
			if all(self.truth(self.ev(c, sub)) for c in g.ifs):
				self.comp(gens[1:], sub, leaf)

	def e_ListComp(self, e, env):
		out = []
		self.comp(e.generators, env, lambda s: out.append(self.ev(e.elt, s)))
		return out

	e_GeneratorExp = e_ListComp

	def e_DictComp(self, e, env):
		out = {}
		def leaf(s):
			out[self.ev(e.key, s)] = self.ev(e.value, s)
		self.comp(e.generators, env, leaf)
		return out

	def e_Call(self, e, env):
		fn = self.super_(e, env)
		if fn is None:
			fn = self.ev(e.func, env)
		args, kw = [], {}
		for a in e.args:
			if isinstance(a, ast.Starred):
				args += self.iterate(self.ev(a.value, env))
			else:
				args.append(self.ev(a, env))
		for k in e.keywords:
			if k.arg is None:
				d = self.ev(k.value, env)
				if not isinstance(d, dict):
					raise Cannot('keywords')
				kw.update(d)
			else:
				kw[k.arg] = self.ev(k.value, env)
		if isinstance(fn, tuple) and fn and fn[0] == 'bound':
			return self.method(fn[1], fn[2], args, kw)
		return self.call(fn, args, kw)

	def super_(self, e, env):
		f = e.func
		if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
			me = env.get('self')
			fn = env['@f']
			if not isinstance(me, Obj) or fn.cls is None:
				raise Cannot('super')
			r = me.cls.lookup(f.attr, after=fn.cls)
			if r and r[0] == 'method':
				return Fn(r[1], r[1].node, None, me)
			if f.attr == '__init__':
				return lambda *a, **k: None
			raise Cannot('super')
		return None

	def method(self, v, name, args, kw):
		if isinstance(v, (Arr, Poly)) or isinstance(v, (int, float)) and not isinstance(v, bool):
			if name == 'reshape':
				shape = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
				return reshape_(to_arr(v), shape, kw.get('order', 'C'))
			if name == 'ravel':
				return reshape(to_arr(v), (-1,))
			if name == 'flatten':
				a = to_arr(v)
				if (args[0] if args else kw.get('order', 'C')) == 'F':
					a = transpose(a)
				return Arr((len(a.flat),), a.flat)
			if name == '__matmul__':
				return dot(v, args[0])
			if name == '__rmatmul__':
				return dot(args[0], v)
			if name in ('argsort', 'argmax', 'argmin', 'cumsum', 'clip', 'trace'):
				return self.ext('numpy.' + name, [v] + args, kw)
			if name in ('toarray', 'todense', 'A'):
				return Arr(v.shape, v.flat)
			if name in ('tocsr', 'tocsc', 'tocoo') and isinstance(v, Mat):
				return v
			if name in ('copy', 'astype', 'conj', 'view'):
				a = to_arr(v)
				return unwrap(Arr(a.shape, a.flat))
			if name == 'dot':
				return dot(v, args[0])
			if name == 'transpose':
				axes = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
				return transpose(to_arr(v), [integer(x) for x in axes] or None)
			if name == 'tolist':
				return list(self.iterate(v))
			if name in ('sum', 'prod', 'mean', 'min', 'max', 'all', 'any', 'squeeze', 'repeat'):
				return self.ext('numpy.' + name, [v] + args, kw)
			if name == 'item' and not args:
				a = to_arr(v)
				if len(a.flat) != 1:
					raise Raised('ValueError')
				return a.flat[0]
		if isinstance(v, list):
			if name == 'append':
				v.append(args[0])
				return None
			if name == 'extend':
				v.extend(self.iterate(args[0]))
				return None
			if name == 'copy':
				return list(v)
			if name == 'index':
				return v.index(args[0])
			if name == 'insert':
				v.insert(integer(args[0]), args[1])
				return None
			if name == 'pop':
				return v.pop(*[integer(a) for a in args])
		if isinstance(v, dict):
			if name == 'items': return [(k, x) for k, x in v.items()]
			if name == 'keys': return list(v)
			if name == 'values': return list(v.values())
			if name == 'get': return v.get(*args)
			if name == 'copy': return dict(v)
			if name == 'update':
				v.update(args[0] if args else {}, **kw)
				return None
			if name == 'pop':
				if args[0] in v or len(args) > 1:
					return v.pop(*args)
				raise Raised('KeyError')
			if name == 'setdefault':
				return v.setdefault(*args)
		if isinstance(v, str):
			if name in ('lower', 'upper', 'strip') and not args:
				return getattr(v, name)()
			if name in ('startswith', 'endswith') and len(args) == 1:
				return getattr(v, name)(args[0])
			return ''
		raise Cannot('method %s' % name)

	# external functions -----------------------------------------------------------------
	def ext(self, path, args, kw):
		if path in self.hooks:
			return self.hooks[path](self, args, kw)
		if path in QUIET:
			return None
		mod, _, n = path.rpartition('.')
		if mod == 'builtins':
			return self.builtin(n, args, kw)
		if mod == 'copy' and n in ('copy', 'deepcopy'):
			v = args[0]
			if isinstance(v, Arr):
				return Arr(v.shape, v.flat)
			return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v
		if mod == 'warnings':
			return None
		if path == 'scipy.spatial.distance.cdist':
			return cdist(*args, **kw)
		if path == 'scipy.spatial.distance.pdist':
			D = cdist(args[0], args[0], *args[1:], **kw)
			n = D.shape[0]
			return Arr((n * (n - 1) // 2,), [D.flat[i * n + j] for i in range(n) for j in range(i + 1, n)])
		if path == 'scipy.spatial.distance.squareform' and not kw and len(args) == 1:
			v = to_arr(args[0])
			if len(v.shape) == 1:
				n = next(k for k in range(1, len(v.flat) + 3) if k * (k - 1) // 2 >= len(v.flat))
				if n * (n - 1) // 2 != len(v.flat):
					raise Raised('ValueError')
				it = {}
				k = 0
				for i in range(n):
					for j in range(i + 1, n):
						it[i, j] = it[j, i] = v.flat[k]
						k += 1
				return Arr((n, n), [it.get((i, j), ZERO) for i in range(n) for j in range(n)])
		if mod == 'scipy.sparse' and n in ('coo_matrix', 'csr_matrix', 'csc_matrix', 'lil_matrix'):
			return sparse(self, args, kw)
		if mod == 'itertools' and n in ('combinations', 'permutations', 'product', 'chain', 'combinations_with_replacement'):
			if n == 'product' and 'repeat' in kw:
				kw = {'repeat': integer(kw['repeat'])}
			a = [list(self.iterate(x)) for x in (args if n in ('product', 'chain') else args[:1])]
			a += [integer(x) for x in args[1:]] if n not in ('product', 'chain') else []
			return list(getattr(itertools, n)(*a, **kw))
		if mod in ('numpy', 'math', 'scipy', 'autograd.numpy', 'numpy.linalg', 'scipy.linalg'):
			if mod.endswith('linalg'):
				return self.linalg(n, args, kw)
			return self.np(n, args, kw)
		raise Cannot('call of ' + path)

	def linalg(self, n, args, kw):
		if n in ('eigh', 'eigvalsh', 'svd', 'qr', 'svdvals'):
			return self.factor(n, args, kw)
		if n == 'norm' and len(args) == 1 and not kw:
			return power(summed([poly(x) * poly(x) for x in to_arr(args[0]).flat]), Fr(1, 2))
		if n == 'norm' and not set(kw) - {'ord', 'axis'} and len(args) < 4:
			o = args[1] if len(args) > 1 else kw.get('ord')
			o = num(o) if isinstance(o, Poly) else o
			axis = args[2] if len(args) > 2 else kw.get('axis')
			if axis is None and len(to_arr(args[0]).shape) != 1 and o not in (None, 'fro'):
				raise Cannot('matrix norm')
			a = args[0]
			if o in (None, 2, 'fro'):
				return elementwise(lambda x: power(poly(x), Fr(1, 2)), self.np('sum', [elementwise(lambda x: poly(x) * poly(x), a)], {'axis': axis}))
			if o == 1:
				return self.np('sum', [self.np('abs', [a], {})], {'axis': axis})
			if o == math.inf:
				return self.np('max', [self.np('abs', [a], {})], {'axis': axis})
		raise Cannot('linalg ' + n)

	factors = ()

	def factor(self, n, args, kw):
		"""a factorisation of a matrix of formulas: a representative orthonormal frame and fresh symbols for the
		eigenvalues (singular values); self.spectrum gives the order; self.factors records what was factored"""
		A = to_arr(args[0])
		self.factors = list(self.factors)
		k = len(self.factors)
		if n in ('eigh', 'eigvalsh'):
			if set(kw) - {'lower', 'UPLO', 'eigvals_only'} or len(args) > 1 or kw.get('eigvals_only'):
				raise Cannot(n)
			m = A.shape[0]
			if A.shape != (m, m):
				raise Raised('ValueError')
			w = symbols('ew%d' % k, (m,))
			# the columns are read from last to first: in two dimensions, a reflection, so that reading rows instead shows then
			V = frame(m) if m != 2 else Arr((2, 2), [Poly.const(Fr(x, 5)) for x in (3, 4, 4, -3)])
			self.factors.append({'kind': 'eigh', 'arg': A, 'w': w, 'V': V})
			self.ordered([w.flat[i] for i in range(m)])
			return w if n == 'eigvalsh' else (w, V)
		if n in ('svd', 'svdvals'):
			full = kw.get('full_matrices', args[1] if len(args) > 1 else True)
			uv = kw.get('compute_uv', args[2] if len(args) > 2 else True)
			if set(kw) - {'full_matrices', 'compute_uv'}:
				raise Cannot(n)
			m, p = A.shape
			r = min(m, p)
			sv = symbols('sv%d' % k, (r,))
			U, V = frame(m), frame(p)
			self.factors.append({'kind': 'svd', 'arg': A, 's': sv, 'U': U, 'V': V})
			self.ordered(list(sv.flat)[::-1])
			if n == 'svdvals' or not uv:
				return sv
			if not full:
				U, V = getitem(U, (slice(None), slice(0, r))), getitem(V, (slice(None), slice(0, r)))
			return (U, sv, transpose(V))
		if n == 'qr':
			mode = kw.get('mode', args[1] if len(args) > 1 else 'reduced')
			if self.qr_frames and mode in ('reduced', 'economic') and A.shape[0] >= A.shape[1]:
				m, n = A.shape
				Q = getitem(frame(m), (slice(None), slice(0, n)))
				R = symbols('qr%d_' % k, (n, n))
				R = Arr((n, n), [R.flat[i * n + j] if j >= i else ZERO for i in range(n) for j in range(n)])
				for i, v in enumerate(self.diagonal(n)):
					if not v:
						R.flat[i * n + i] = ZERO
					for a in R.flat[i * n + i].atoms():
						CELL[0][a[1]] = v
				self.factors.append({'kind': 'qr', 'arg': A, 'Q': Q, 'R': R})
				return (Q, R)
			if mode not in ('reduced', 'complete', 'full', 'economic') or len(args) > 2 or set(kw) - {'mode'}:
				raise Cannot('qr')
			return householder(A, mode in ('complete', 'full'))
		raise Cannot(n)

	def ordered(self, increasing):
		"""put values for the symbols into the cell, in increasing order"""
		if CELL[0] is None:
			return
		vals = list(self.spectrum(len(increasing)))
		for s, v in zip(increasing, vals):
			for a in s.atoms():
				CELL[0][a[1]] = v

	qr_frames = False

	def diagonal(self, n):
		"""signs of the diagonal of the triangular factor in the cell"""
		return [1.5, -.7, 2.2, -1.1][:n]

	def spectrum(self, m):
		return [0.5 + i * 1.25 for i in range(m)]

	def builtin(self, n, args, kw):
		if n == 'len':
			v = args[0]
			if isinstance(v, Arr):
				if not v.shape:
					raise Raised('TypeError')
				return v.shape[0]
			if isinstance(v, (list, tuple, dict, str, range)):
				return len(v)
			if isinstance(v, Obj) and '@len' in v.attrs:
				return v.attrs['@len']
			if isinstance(v, Obj) and not isinstance(v.cls, str):
				m = v.cls.lookup('__len__')
				if m and m[0] == 'method':
					return self.call(Fn(m[1], m[1].node, None, v))
			if isinstance(v, Obj) and '@len' in v.attrs:
				return v.attrs['@len']
			if isinstance(v, (Poly, int, float)) or v is None:
				raise Raised('TypeError')
			raise Cannot('len')
		if n == 'range':
			return range(*[integer(a) for a in args])
		if n in ('list', 'tuple'):
			v = self.iterate(args[0]) if args else []
			return tuple(v) if n == 'tuple' else list(v)
		if n == 'zip':
			return Iter(tuple(t) for t in zip(*[self.iterate(a) for a in args]))
		if n == 'enumerate':
			return Iter((i, v) for i, v in enumerate(self.iterate(args[0]), *[integer(a) for a in args[1:]]))
		if n == 'iter':
			return Iter(self.iterate(args[0]))
		if n == 'next':
			if not isinstance(args[0], Iter):
				raise Cannot('next')
			if not args[0]:
				if len(args) > 1:
					return args[1]
				raise Raised('StopIteration')
			return args[0].pop(0)
		if n == 'reversed':
			return Iter(reversed(self.iterate(args[0])))
		if n in ('float', 'int', 'complex'):
			v = args[0]
			if isinstance(v, Arr):
				if len(v.flat) != 1:
					raise Raised('TypeError')
				v = v.flat[0]
			if v is None or isinstance(v, (list, tuple)):
				raise Raised('TypeError')
			if n == 'int':
				return integer(v)
			return v
		if n == 'dict':
			d = dict(args[0]) if args else {}
			d.update(kw)
			return d
		if n == 'sum':
			vs = self.iterate(args[0])
			s = args[1] if len(args) > 1 else 0
			for v in vs:
				s = self.binop('Add', s, v)
			return s
		if n in ('abs',):
			return self.np('abs', args, kw)
		if n in ('min', 'max'):
			vs = list(self.iterate(args[0]) if len(args) == 1 else args)
			if kw.get('key') is not None:
				if not vs:
					raise Raised('ValueError')
				ks = [self.call(kw['key'], [v]) for v in vs]
				best = 0
				for i in range(1, len(vs)):
					if self.truth(self.cmp(ast.Gt() if n == 'max' else ast.Lt(), ks[i], ks[best])):
						best = i
				return vs[best]
			if any(isinstance(v, Arr) and v.shape for v in vs):
				if any(len(to_arr(v).flat) != 1 for v in vs):
					raise Raised('ValueError') if len(vs) > 1 else Cannot('one array')
				best = 0
				for i in range(1, len(vs)):
					if compare('Gt' if n == 'max' else 'Lt', to_arr(vs[i]).flat[0], to_arr(vs[best]).flat[0]):
						best = i
				return vs[best]
			return extreme(vs, n == 'max')
		if n == 'isinstance':
			return self.isinst(args[0], args[1])
		if n == 'hasattr':
			try:
				self.attr(args[0], args[1])
				return True
			except Raised:
				return False
		if n == 'getattr':
			try:
				return self.attr(args[0], args[1])
			except Raised:
				if len(args) > 2:
					return args[2]
				raise
		if n == 'print':
			return None
		if n == 'callable':
			return isinstance(args[0], (Fn, Ext)) or isinstance(args[0], Obj) and not isinstance(args[0].cls, str) and bool(args[0].cls.lookup('__call__')) or callable(args[0]) and not isinstance(args[0], (Obj, Arr, Poly))
		if n == 'bool':
			return self.truth(args[0])
		if n == 'str':
			return ''
		if n == 'all':
			return all(self.truth(v) for v in self.iterate(args[0]))
		if n == 'any':
			return any(self.truth(v) for v in self.iterate(args[0]))
		if n == 'slice':
			return slice(*args)
		if n == 'map':
			return [self.call(args[0], list(t)) for t in zip(*[self.iterate(a) for a in args[1:]])]
		if n == 'pow':
			return self.binop('Pow', args[0], args[1])
		if n == 'round':
			return args[0]
		if n in ('ValueError', 'TypeError', 'Exception', 'object', 'NotImplementedError', 'AttributeError', 'KeyError', 'IndexError', 'AssertionError', 'RuntimeError'):
			return Ext('exception')
		raise Cannot('builtin ' + n)

	def isinst(self, v, t):
		if isinstance(t, tuple) and t and t[0] not in ('class',):
			return any(self.isinst(v, x) for x in t)
		if isinstance(t, tuple) and t[0] == 'class':
			return isinstance(v, Obj) and not isinstance(v.cls, str) and t[1] in v.cls.mro()
		if isinstance(t, Ext):
			n = t.path.split('.')[-1]
			table = {'list': list, 'tuple': tuple, 'dict': dict, 'str': str, 'ndarray': Arr, 'bool': bool}
			if n in table:
				return isinstance(v, table[n])
			if n in ('int', 'Integral', 'integer'):
				return isinstance(v, int)
			if n in ('float', 'floating', 'Real', 'Number'):
				return isinstance(v, (Poly, float)) or n in ('Real', 'Number') and isinstance(v, int)
			if n == 'Iterable':
				return isinstance(v, (list, tuple, dict, str, Arr))
		raise Cannot('isinstance')

	def np(self, n, args, kw):
		logical = getattr(kw.get('dtype'), 'path', None) in ('numpy.bool', 'numpy.bool_', 'builtins.bool') and n in ('zeros', 'ones')
		kw = {k: v for k, v in kw.items() if k not in ('dtype', 'copy', 'order', 'keepdims') or k == 'keepdims' and v}
		if 'keepdims' in kw or 'out' in kw or 'where' in kw:
			raise Cannot('numpy option')
		if n in UFUNC and UFUNC[n] is not None and not kw:
			return UFUNC[n](args[0])
		if n in BINARY and not kw:
			return self.binop(BINARY[n], args[0], args[1])
		if n in ('array', 'asarray', 'copy', 'ascontiguousarray', 'asfarray', 'asanyarray'):
			a = to_arr(args[0])
			return Arr(a.shape, a.flat)
		if n in ('float64', 'float', 'double', 'float32'):
			return args[0]
		if n == 'atleast_1d': return atleast(args[0], 1)
		if n == 'atleast_2d':
			if len(args) > 1:
				return [atleast(a, 2) for a in args]
			return atleast(args[0], 2)
		if n == 'vstack': return concat([atleast(a, 2) for a in self.iterate(args[0])], 0)
		if n == 'hstack':
			ps = [atleast(a, 1) for a in self.iterate(args[0])]
			if not ps:
				raise Raised('ValueError')
			return concat(ps, 0 if len(ps[0].shape) == 1 else 1)
		if n == 'column_stack':
			ps = [to_arr(a) for a in self.iterate(args[0])]
			return concat([Arr(p.shape + (1,), p.flat) if len(p.shape) == 1 else p for p in ps], 1)
		if n == 'dstack':
			ps = [atleast(a, 2) for a in self.iterate(args[0])]
			return concat([Arr(p.shape + (1,), p.flat) if len(p.shape) == 2 else p for p in ps], 2)
		if n == 'concatenate': return concat(self.iterate(args[0]), integer(args[1] if len(args) > 1 else kw.get('axis', 0)))
		if n == 'stack':
			ps = [to_arr(a) for a in self.iterate(args[0])]
			ax = integer(args[1] if len(args) > 1 else kw.get('axis', 0))
			nd = len(ps[0].shape) + 1
			ax = ax % nd
			return concat([reshape(p, p.shape[:ax] + (1,) + p.shape[ax:]) for p in ps], ax)
		if n in ('zeros', 'ones', 'empty', 'full'):
			s = args[0] if args else kw['shape']
			if isinstance(s, Arr) and len(s.shape) == 1:
				s = list(s.flat)
			s = tuple(integer(x) for x in s) if isinstance(s, (tuple, list)) else (integer(s),)
			v = {'zeros': ZERO, 'ones': ONE}.get(n)
			if logical:
				v = n == 'ones'
			if n == 'full':
				v = args[1]
			if n == 'empty':
				v = Poly.var('uninitialised')
			return Arr(s, [v] * math.prod(s))
		if n in ('zeros_like', 'ones_like', 'full_like'):
			a = to_arr(args[0])
			return unwrap(Arr(a.shape, [ZERO if n[0] == 'z' else ONE if n[0] == 'o' else args[1]] * len(a.flat)))
		if n in ('eye', 'identity'):
			k = integer(args[0])
			m = integer(args[1]) if len(args) > 1 else k
			return Arr((k, m), [ONE if i == j else ZERO for i in range(k) for j in range(m)])
		if n == 'arange':
			r = range(*[integer(a) for a in args])
			return Arr((len(r),), list(r))
		if n == 'tile':
			a = to_arr(args[0])
			reps = args[1]
			reps = [integer(x) for x in reps] if isinstance(reps, (tuple, list)) else [integer(reps)]
			while len(a.shape) < len(reps):
				a = Arr((1,) + a.shape, a.flat)
			reps = [1] * (len(a.shape) - len(reps)) + reps
			for ax, r in enumerate(reps):
				a = concat([a] * r, ax)
			return a
		if n == 'repeat':
			a = to_arr(args[0])
			k = integer(args[1] if len(args) > 1 else kw['repeats'])
			ax = args[2] if len(args) > 2 else kw.get('axis')
			if ax is None:
				return Arr((len(a.flat) * k,), [x for x in a.flat for _ in range(k)])
			ax = integer(ax)
			return concat([p for i in range(a.shape[ax]) for p in [to_arr(getitem(a, tuple(slice(None) if j != ax else slice(i, i + 1) for j in range(len(a.shape)))))] * k], ax)
		if n in ('dot', 'matmul', 'inner') and len(args) == 2:
			if n == 'inner':
				b = to_arr(args[1])
				return dot(args[0], transpose(b) if len(b.shape) == 2 else b)
			return dot(args[0], args[1])
		if n == 'outer':
			a, b = reshape(to_arr(args[0]), (-1, 1)), reshape(to_arr(args[1]), (1, -1))
			return elementwise(lambda x, y: arith('Mult', x, y), a, b)
		if n == 'einsum':
			return self.einsum(*args)
		if n == 'sum': return reduce_(args[0], args[1] if len(args) > 1 else kw.get('axis'), summed)
		if n in ('prod', 'product'): return reduce_(args[0], args[1] if len(args) > 1 else kw.get('axis'), prodded)
		if n == 'mean': return reduce_(args[0], args[1] if len(args) > 1 else kw.get('axis'), lambda xs: div(summed(xs), Poly.const(len(xs))))
		if n in ('std', 'var'):
			if set(kw) - {'axis', 'ddof'}:
				raise Cannot(n)
			dd = integer(kw.get('ddof', 0))

			def spread(xs):
				mu = div(summed(xs), Poly.const(len(xs)))
				v = div(summed([(poly(x) - mu) * (poly(x) - mu) for x in xs]), Poly.const(len(xs) - dd))
				return power(v, Fr(1, 2)) if n == 'std' else v
			return reduce_(args[0], args[1] if len(args) > 1 else kw.get('axis'), spread)
		if n == 'reshape':
			return reshape_(to_arr(args[0]), args[1] if isinstance(args[1], (tuple, list)) else (args[1],), kw.get('order', 'C'))
		if n in ('ravel',): return reshape(to_arr(args[0]), (-1,))
		if n == 'transpose': return transpose(to_arr(args[0]), [integer(x) for x in args[1]] if len(args) > 1 else None)
		if n == 'squeeze':
			a = to_arr(args[0])
			return unwrap(Arr([s for s in a.shape if s != 1], a.flat))
		if n == 'expand_dims':
			a = to_arr(args[0])
			ax = integer(args[1] if len(args) > 1 else kw['axis']) % (len(a.shape) + 1)
			return reshape(a, a.shape[:ax] + (1,) + a.shape[ax:])
		if n == 'diag':
			a = to_arr(args[0])
			off = integer(args[1] if len(args) > 1 else kw.get('k', 0))
			if len(a.shape) == 1:
				n = len(a.flat)
				k = n + abs(off)
				lo = max(-off, 0)
				return Arr((k, k), [a.flat[i - lo] if j - i == off else ZERO for i in range(k) for j in range(k)])
			if off:
				raise Cannot('diagonal')
			return Arr((min(a.shape),), [a.flat[i * a.shape[1] + i] for i in range(min(a.shape))])
		if n == 'finfo':
			return Obj('finfo', {'eps': Poly.const(Fr(1, 2 ** 52)), 'tiny': Poly.const(Fr(1, 2 ** 1022)), 'max': math.inf})
		if n == 'shape': return to_arr(args[0]).shape
		if n == 'ndim': return len(to_arr(args[0]).shape)
		if n == 'size': return len(to_arr(args[0]).flat)
		if n in ('all', 'any'):
			return reduce_(args[0], args[1] if len(args) > 1 else kw.get('axis'), lambda xs: (all if n == 'all' else any)([self.truth(x) for x in xs]))
		if n == 'tensordot':
			a, b = to_arr(args[0]), to_arr(args[1])
			axes = args[2] if len(args) > 2 else kw.get('axes', 2)
			if isinstance(axes, int):
				axes = (list(range(len(a.shape) - axes, len(a.shape))), list(range(axes)))
			p, q = [[integer(i) for i in (x if isinstance(x, (list, tuple)) else [x])] for x in axes]
			p, q = [i % len(a.shape) for i in p], [i % len(b.shape) for i in q]
			if len(p) != len(q) or any(a.shape[i] != b.shape[j] for i, j in zip(p, q)):
				raise Raised('ValueError')
			la = 'abcdefgh'[:len(a.shape)]
			lb = list('ijklmnop'[:len(b.shape)])
			for i, j in zip(p, q):
				lb[j] = la[i]
			out = ''.join(c for i, c in enumerate(la) if i not in p) + ''.join(c for j, c in enumerate(lb) if j not in q)
			return self.einsum('%s,%s->%s' % (la, ''.join(lb), out), a, b)
		if n == 'trace':
			a = to_arr(args[0])
			return summed([a.flat[i * a.shape[1] + i] for i in range(min(a.shape))])
		if n in ('min', 'max', 'amin', 'amax'):
			def ext(xs):
				return extreme(xs, n in ('max', 'amax'))
			return reduce_(args[0], args[1] if len(args) > 1 else kw.get('axis'), ext)
		if n in ('maximum', 'minimum', 'fmax', 'fmin'):
			return elementwise(lambda x, y: extreme([x, y], n in ('maximum', 'fmax')), args[0], args[1])
		if n == 'clip' and len(args) == 3:
			v = args[0]
			v = v if args[1] is None else elementwise(lambda x, y: extreme([x, y], True), v, args[1])
			return v if args[2] is None else elementwise(lambda x, y: extreme([x, y], False), v, args[2])
		if n in ('floor', 'ceil'):
			return elementwise(lambda x: floor(poly(x)) if n == 'floor' else -floor(-poly(x)), args[0])
		if n == 'sign':
			return elementwise(lambda x: sign(poly(x)), args[0])
		if n in ('argmax', 'argmin', 'nanargmax', 'nanargmin') and not set(kw) - {'axis'}:
			def where(xs):
				best = 0
				for i in range(1, len(xs)):
					if compare('Gt' if 'max' in n else 'Lt', xs[i], xs[best]):
						best = i
				return best
			axis = args[1] if len(args) > 1 else kw.get('axis')
			if axis is None:
				return where(to_arr(args[0]).flat)
			return reduce_(args[0], axis, where)
		if n in ('argsort', 'sort'):
			a = to_arr(args[0])
			axis = integer(args[1] if len(args) > 1 else kw.get('axis', -1))
			if set(kw) - {'axis'} or len(a.shape) == 0:
				raise Cannot(n)
			if len(a.shape) > 1:
				if len(a.shape) != 2:
					raise Cannot(n)
				t = transpose(a) if axis == 0 else a
				k = t.shape[1]
				out = []
				for i in range(t.shape[0]):
					r = list(t.flat[i * k:(i + 1) * k])
					out += [r[j] if n == 'sort' else j for j in order(r)]
				out = Arr(t.shape, out)
				return transpose(out) if axis == 0 else out
			o = order(list(a.flat))
			return Arr(a.shape, [a.flat[i] if n == 'sort' else i for i in o])
		if n in ('tril_indices', 'triu_indices'):
			r = integer(args[0])
			k = integer(args[1] if len(args) > 1 else kw.get('k', 0))
			ij = [(i, j) for i in range(r) for j in range(r) if (j - i <= k if n[3] == 'l' else j - i >= k)]
			return (Arr((len(ij),), [i for i, _ in ij]), Arr((len(ij),), [j for _, j in ij]))
		if n == 'linspace':
			m = integer(args[2] if len(args) > 2 else kw.get('num', 50))
			if set(kw) - {'num'}:
				raise Cannot('linspace')
			if to_arr(args[0]).shape or to_arr(args[1]).shape:
				step = [self.binop('Add', args[0], self.binop('Mult', self.binop('Sub', args[1], args[0]), Poly.const(Fr(i, max(m - 1, 1))))) for i in range(m)]
				return self.np('stack', [step], {})
			a, b = poly(args[0]), poly(args[1])
			return Arr((m,), [a + (b - a) * Poly.const(Fr(i, max(m - 1, 1))) for i in range(m)])
		if n == 'argwhere':
			a = to_arr(args[0])
			hit = [idx for idx, x in zip(iproduct(*[range(k) for k in a.shape]), a.flat) if self.truth(x)]
			return Arr((len(hit), len(a.shape)), [i for idx in hit for i in idx])
		if n in ('logical_and', 'logical_or'):
			return self.binop('BitAnd' if n == 'logical_and' else 'BitOr', args[0], args[1])
		if n == 'isscalar': return not isinstance(args[0], (Arr, list, tuple))
		if n in ('abs', 'absolute', 'fabs'):
			def ab(x):
				if infinite(x):
					return abs(x)
				return -poly(x) if sign(poly(x)) < 0 else x
			return elementwise(ab, args[0])
		if n == 'meshgrid' and not set(kw) - {'indexing'}:
			vs = [list(to_arr(a).flat) for a in args]
			shape = [len(v) for v in vs]
			axes_ = list(range(len(vs)))
			if kw.get('indexing', 'xy') == 'xy' and len(vs) > 1:
				axes_[0], axes_[1] = 1, 0
			out_shape = tuple(shape[i] for i in axes_)
			outs = []
			for k, v in enumerate(vs):
				outs.append(Arr(out_shape, [v[ix[axes_.index(k)]] for ix in iproduct(*[range(s_) for s_ in out_shape])]))
			return outs
		if n in ('isclose', 'allclose'):
			opt = dict(zip(('rtol', 'atol', 'equal_nan'), args[2:]))
			opt.update(kw)
			rt, at_ = opt.get('rtol', Fr(1, 10 ** 5)), opt.get('atol', Fr(1, 10 ** 8))

			def close(x, y):
				if infinite(x) or infinite(y):
					return x == y
				p, q = poly(x), poly(y)
				d = p - q
				d = d if sign(d) >= 0 else -d
				q = q if sign(q) >= 0 else -q
				return sign(d - poly(at_) - poly(rt) * q) <= 0
			out = elementwise(close, args[0], args[1])
			if n == 'isclose':
				return out
			return all(x for x in to_arr(out).flat)
		if n in ('isinf', 'isnan'):
			return elementwise(lambda x: isinstance(x, float) and (abs(x) == math.inf if n == 'isinf' else x != x), args[0])
		if n in ('isfinite',):
			return elementwise(lambda x: not (isinstance(x, float) and (x != x or abs(x) == math.inf)), args[0])
		if n in ('cumsum',) and len(args) == 1:
			a = to_arr(args[0])
			out, s = [], ZERO
			for x in a.flat:
				s = s + poly(x)
				out.append(s)
			return Arr((len(out),), out)
		if n == 'where' and len(args) == 3:
			def pick(c, x, y):
				return x if self.truth(c) else y
			return elementwise(pick, *args)
		raise Cannot('numpy ' + n)

	def einsum(self, spec, *ops):
		if not isinstance(spec, str) or '->' not in spec:
			raise Cannot('einsum')
		ins, out = spec.replace(' ', '').split('->')
		ins = ins.split(',')
		ops = [to_arr(o) for o in ops]
		size = {}
		for s, o in zip(ins, ops):
			if len(s) != len(o.shape):
				raise Raised('ValueError')
			for c, n in zip(s, o.shape):
				if size.setdefault(c, n) != n:
					raise Raised('ValueError')
		inner = [c for c in size if c not in out]
		flat = []
		for idx in iproduct(*[range(size[c]) for c in out]):
			s = ZERO
			for jdx in iproduct(*[range(size[c]) for c in inner]):
				at = dict(zip(list(out) + inner, idx + jdx))
				t = ONE
				for sp, o in zip(ins, ops):
					t = t * poly(o.flat[sum(at[c] * k for c, k in zip(sp, strides(o.shape)))])
				s = s + t
			flat.append(s)
		return unwrap(Arr([size[c] for c in out], flat))


def own_nodes(node):
	"""nodes of a function, nested functions left out"""
	st = list(node.body)
	while st:
		x = st.pop()
		yield x
		if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
			st.extend(ast.iter_child_nodes(x))


class _Mod:
	"""stands for module-level code"""
	def __init__(self, module):
		self.module, self.cls, self.short, self.node = module, None, '<module>', None


FRAMES = {
	1: [[-1]],
	2: [[Fr(3, 5), Fr(-4, 5)], [Fr(4, 5), Fr(3, 5)]],
	3: [[Fr(2, 7), Fr(3, 7), Fr(6, 7)], [Fr(6, 7), Fr(2, 7), Fr(-3, 7)], [Fr(3, 7), Fr(-6, 7), Fr(2, 7)]],
	4: [[Fr(1, 2), Fr(1, 2), Fr(1, 2), Fr(1, 2)], [Fr(7, 10), Fr(-1, 10), Fr(-7, 10), Fr(1, 10)], [Fr(1, 10), Fr(7, 10), Fr(-1, 10), Fr(-7, 10)], [Fr(1, 2), Fr(-1, 2), Fr(1, 2), Fr(-1, 2)]],
}


def frame(m):
	"""a representative orthonormal basis (rational entries, no zeros)"""
	if m not in FRAMES:
		raise Cannot('frame')
	return Arr((m, m), [Poly.const(x) for row in FRAMES[m] for x in row])


def householder(A, full):
	"""QR factorisation of a matrix of numbers with orthonormal columns"""
	m, n = A.shape
	a = [[poly(A.flat[i * n + j]).value() for j in range(n)] for i in range(m)]
	if any(x is None for r in a for x in r) or n > m:
		raise Cannot('qr of symbols')
	if any(sum(a[k][i] * a[k][j] for k in range(m)) != (i == j) for i in range(n) for j in range(n)):
		raise Cannot('qr')
	Q = [[Fr(i == j) for j in range(m)] for i in range(m)]
	R = [r[:] for r in a]
	for j in range(n):
		v = [R[i][j] if i >= j else Fr(0) for i in range(m)]
		v[j] += 1 if v[j] >= 0 else -1
		vv = sum(x * x for x in v)
		for M in (R,):
			for c in range(n):
				t = 2 * sum(v[i] * M[i][c] for i in range(m)) / vv
				for i in range(m):
					M[i][c] -= t * v[i]
		for i in range(m):
			t = 2 * sum(Q[i][k] * v[k] for k in range(m)) / vv
			for k in range(m):
				Q[i][k] -= t * v[k]
	r = m if full else n
	con = Poly.const
	return (Arr((m, r), [con(Q[i][j]) for i in range(m) for j in range(r)]), Arr((r, n), [con(R[i][j]) for i in range(r) for j in range(n)]))


def rename(p, fn):
	"""the formula with its (top level) variables renamed"""
	out = {}
	for m, c in p.t.items():
		d = {}
		for a, e in m:
			if a[0] == 'v':
				a = ('v', fn(a[1]))
			elif decision(p) and a[0] in ('Q', 'E', 'L', 'c', 's'):
				raise Cannot('solution inside a function')
			d[a] = d.get(a, 0) + e
		for mm, cc in norm_mono(d, c):
			out[mm] = out.get(mm, 0) + cc
	return Poly(out)


def on_entries(v, fn):
	if isinstance(v, Arr):
		return Arr(v.shape, [fn(poly(x)) for x in v.flat])
	return fn(poly(v))


def solved(v):
	"""what the solver returns for an expression"""
	return on_entries(v, lambda p: rename(p, lambda n: '!' + n[1:] if n.startswith('?') else n))


def asked(v):
	"""the expression behind a returned value"""
	return on_entries(v, lambda p: rename(p, lambda n: '?' + n[1:] if n.startswith('!') else n))


def symbols(name, shape):
	"""an array of independent symbols name[i,j]"""
	return Arr(shape, [Poly.var('%s[%s]' % (name, ','.join(map(str, idx)))) for idx in iproduct(*[range(s) for s in shape])])
