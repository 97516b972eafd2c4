"""Hash-consed value terms.

The abstract interpreter (interp.py) maps every expression of the analysed
program to one of these terms (a value-flow graph in gated-SSA form).  Nothing
is executed: a term records *which operations* a value was built from.
"""
from __future__ import annotations

_table = {}
_count = [0]


class T:
	__slots__ = ('op', 'args', 'id', '__weakref__')

	def __init__(self, op, args, id):
		self.op = op
		self.args = args
		self.id = id

	def __repr__(self):
		return show(self, 4)

	def __hash__(self):
		return self.id

	def __eq__(self, other):
		return self is other


def _key(a):
	if isinstance(a, T):
		return ('T', a.id)
	if isinstance(a, tuple):
		return tuple(_key(x) for x in a)
	if isinstance(a, (bool, int, float, complex, str, bytes)) or a is None or a is Ellipsis:
		return (type(a).__name__, repr(a))
	return ('py', id(a))


_keep = []


def mk(op, *args):
	k = (op, _key(args))
	t = _table.get(k)
	if t is None:
		_count[0] += 1
		t = T(op, args, _count[0])
		_table[k] = t
		_keep.append(args)
	return t


def const(v):
	return mk('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk('undef')


def is_const(t, *vals):
	if t.op != 'const':
		return False
	if not vals:
		return True
	return any(t.args[0] is v or (type(t.args[0]) is type(v) and t.args[0] == v) for v in vals)


def param(name, tag='any'):
	"""An input of the analysed entry point; tag says what is assumed about it."""
	return mk('param', name, tag)


def ext(name):
	return mk('ext', name)


_fresh = [0]


def fresh():
	_fresh[0] += 1
	return _fresh[0]


# ---- mu nodes: loop-carried values ---------------------------------------
LOOPS = {}   # loop key -> iterated value
MU = {}    # mu term -> {'init': T, 'back': T, 'loop': str}


def subterms(t):
	"""Direct sub-terms of t (mu: init and back)."""
	if t.op == 'mu':
		d = MU.get(t)
		if d:
			if d['init'] is not None:
				yield d['init']
			if d['back'] is not None:
				yield d['back']
		return
	stack = list(t.args)
	while stack:
		a = stack.pop()
		if isinstance(a, T):
			yield a
		elif isinstance(a, tuple):
			stack.extend(a)


def walk(t, follow=None):
	seen = set()
	stack = [t]
	while stack:
		x = stack.pop()
		if x in seen:
			continue
		seen.add(x)
		yield x
		if follow is None or follow(x):
			stack.extend(subterms(x))


def contains(t, pred):
	return any(pred(x) for x in walk(t))


INFIX = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'pow': '**', 'matmul': '@', 'and': '&', 'or': '|',
	'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!=', 'is': 'is', 'isnot': 'is not', 'in': 'in', 'notin': 'not in'}


def show(t, depth=6):
	if not isinstance(t, T):
		if isinstance(t, tuple):
			return '(' + ', '.join(show(x, depth) for x in t) + ')'
		return str(t)
	if t.op == 'const':
		return repr(t.args[0])
	if t.op == 'param':
		return t.args[0]
	if t.op == 'ext':
		return t.args[0].replace('numpy', 'np')
	if depth <= 0:
		return '..'
	d = depth - 1
	if t.op in INFIX:
		return '(%s %s %s)' % (show(t.args[0], d), INFIX[t.op], show(t.args[1], d))
	if t.op == 'neg':
		return '-%s' % show(t.args[0], d)
	if t.op == 'call':
		f, a, k = t.args
		return '%s(%s)' % (show(f, d), ', '.join([show(x, d) for x in a] + ['%s=%s' % (n, show(v, d)) for n, v in k]))
	if t.op == 'field':
		return '%s.%s' % (show(t.args[0], d), t.args[1])
	if t.op == 'index':
		return '%s[%s]' % (show(t.args[0], d), show(t.args[1], d))
	if t.op in ('list', 'tuple'):
		return '[%s]' % ', '.join(show(x, d) for x in t.args)
	if t.op == 'phi':
		return 'phi{%s}' % '; '.join('%s: %s' % (' & '.join(('' if p else '!') + show(c, d - 1) for c, p in pc), show(v, d)) for pc, v in t.args)
	if t.op == 'mu':
		return 'mu<%s>' % (t.args[-1],)
	if t.op == 'ref':
		return '<%s#%s>' % (t.args[1], t.args[0])
	return '%s(%s)' % (t.op, ', '.join(show(x, d) for x in t.args))
