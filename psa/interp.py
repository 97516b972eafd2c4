"""Whole-program abstract interpreter for the analysed package.

It evaluates functions over *terms* (terms.py) instead of numbers.  All branches are
followed and joined at merge points into gated phi terms; loops become mu terms
(one abstract iteration, fixed point over the set of changed cells); project calls are
inlined through resolved callees (methods by MRO of the abstract receiver), so moving a
statement, extracting a helper or rewriting a loop does not change the result much.
External calls (numpy, scipy, cvxpy, ...) stay as call terms with canonical names.

No path enumeration, no solver, no concrete execution.
"""
from __future__ import annotations
import ast
import builtins as _bi
from .terms import *
from .terms import _key
from . import terms as TM
from .loader import Func, Class, Module, BUILTINS

MAXDEPTH = 22
UNROLL = 8
BUDGET = 4000000


class AbsRaise(Exception):
	def __init__(self, exc):
		self.exc = exc


class AbsDead(Exception):
	"""current path ended (all callee paths raised)"""


class Budget(Exception):
	pass


class State:
	__slots__ = ('frames', 'heap', 'pc')

	def __init__(self, frames=None, heap=None, pc=()):
		self.frames = frames if frames is not None else {}
		self.heap = heap if heap is not None else {}
		self.pc = pc

	def copy(self):
		return State(dict(self.frames), dict(self.heap), self.pc)

	def become(self, o):
		self.frames = o.frames
		self.heap = o.heap
		self.pc = o.pc

	def get(self, fid, name):
		return self.frames[fid].get(name)

	def set(self, fid, name, v):
		env = dict(self.frames[fid])
		env[name] = v
		self.frames[fid] = env

	def assume(self, c, pol):
		if (c, pol) not in self.pc:
			self.pc = self.pc + ((c, pol),)


class Frame:
	def __init__(self, func, fid):
		self.func = func
		self.fid = fid
		self.returns = []
		self.loops = []      # stack of (breaks, continues)
		self.yields = None
		self.closures = False
		self.globals = set()
		self.nonlocals = set()


BINOP = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.Pow: 'pow', ast.MatMult: 'matmul',
	ast.Mod: 'mod', ast.FloorDiv: 'floordiv', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
	ast.LShift: 'lshift', ast.RShift: 'rshift'}
CMPOP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne', ast.Is: 'is',
	ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}
NEGCMP = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq', 'is': 'isnot', 'isnot': 'is', 'in': 'notin', 'notin': 'in'}

# methods of array-like values that mean the numpy function of the same name
NPMETH = {'sum', 'min', 'max', 'mean', 'std', 'all', 'any', 'flatten', 'reshape', 'copy', 'transpose', 'argmin',
	'argmax', 'argsort', 'round', 'cumsum', 'prod', 'nonzero', 'squeeze', 'clip', 'trace', 'ravel', 'conj',
	'repeat', 'take', 'diagonal', 'var', 'astype', 'tolist', 'searchsorted', 'swapaxes', 'item'}

# canonical external functions -> primitive op
EXTOP2 = {
	'numpy.dot': 'matmul', 'numpy.matmul': 'matmul', 'numpy.add': 'add', 'numpy.subtract': 'sub',
	'numpy.multiply': 'mul', 'numpy.divide': 'div', 'numpy.true_divide': 'div', 'numpy.power': 'pow',
	'numpy.logical_and': 'and', 'numpy.logical_or': 'or', 'numpy.bitwise_and': 'and', 'numpy.bitwise_or': 'or',
	'numpy.less': 'lt', 'numpy.less_equal': 'le', 'numpy.greater': 'gt', 'numpy.greater_equal': 'ge',
	'numpy.equal': 'eq', 'numpy.not_equal': 'ne', 'cvxpy.matmul': 'matmul', 'cvxpy.multiply': 'mul',
	'operator.add': 'add', 'operator.mul': 'mul', 'operator.and_': 'and',
}
EXTOP1 = {'numpy.logical_not': 'not', 'numpy.invert': 'not', 'numpy.negative': 'neg', 'numpy.bitwise_not': 'not'}
ALIAS = {
	'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs',
	'builtins.abs': 'numpy.abs', 'numpy.asarray': 'numpy.array', 'numpy.alltrue': 'numpy.all', 'numpy.ravel': 'numpy.flatten',
	'builtins.all': 'numpy.all', 'builtins.any': 'numpy.any', 'numpy.linalg.linalg.norm': 'numpy.linalg.norm',
	'scipy.linalg.norm': 'numpy.linalg.norm', 'builtins.sum': 'numpy.sum', 'numpy.sometrue': 'numpy.any',
	'numpy.product': 'numpy.prod', 'numpy.float': 'builtins.float', 'numpy.int': 'builtins.int', 'numpy.bool': 'builtins.bool',
	'builtins.round': 'numpy.round', 'numpy.concatenate': 'numpy.concatenate', 'scipy.linalg.svd': 'numpy.linalg.svd',
	'scipy.linalg.eigh': 'numpy.linalg.eigh', 'scipy.linalg.qr': 'numpy.linalg.qr', 'scipy.linalg.lstsq': 'numpy.linalg.lstsq',
	'math.sqrt': 'numpy.sqrt', 'math.exp': 'numpy.exp', 'math.log': 'numpy.log', 'math.floor': 'numpy.floor',
	'math.ceil': 'numpy.ceil', 'math.pi': 'numpy.pi', 'math.inf': 'numpy.inf', 'scipy.sqrt': 'numpy.sqrt',
	'cvxpy.expressions.variable.Variable': 'cvxpy.Variable', 'cvxpy.Variable': 'cvxpy.Variable', 'numpy.Inf': 'numpy.inf',
	'numpy.absolute': 'numpy.abs', 'numpy.vdot': 'numpy.inner',
}
ALLOC = {'cvxpy.Variable', 'cvxpy.Parameter', 'cvxpy.Bool', 'cvxpy.Int'}
TRANSPARENT_ITER = {'tqdm.tqdm', 'builtins.iter', 'builtins.reversed', 'builtins.list', 'builtins.tuple', 'builtins.sorted', 'numpy.array', 'numpy.copy', 'tqdm.tqdm.tqdm'}


class Interp:
	def __init__(self, project, overrides=None, callbacks=True):
		self.P = project
		self.raise_stack = [[]]
		self.frames = []
		self.ctx = ()
		self.fid = 0
		self.events = []
		self.funcs = {}       # T -> (Func-like, closure fid, defaults, kwdefaults)
		self.objclass = {}    # oid -> Class
		self.opaque = set()   # oids whose unknown attributes are symbolic
		self.steps = 0
		self.overrides = overrides or {}    # (attr name) -> T or callable(interp, st, selfT)
		self.analysed = set()
		self.callsites = 0
		self.may_attr = False
		self.modconst = {}
		self.hooks = {}       # Func qualname -> callable(interp, st, args, kwargs) -> T
		self.probs = set()
		self.dry = 0
		self.ext_seen = {}    # external name -> set of functions whose code mentions it
		self.inline_filter = None

	# ------------------------------------------------------------------ utils
	def node_key(self, node):
		return (getattr(node, '_nk', None) or self._nk(node))

	_nkc = [0]

	def _nk(self, node):
		Interp._nkc[0] += 1
		node._nk = 'n%d' % Interp._nkc[0]
		return node._nk

	def oid(self, node, tag=''):
		return '%s/%s%s' % ('>'.join(self.ctx), self.node_key(node), tag)

	def snap(self, t, st, _seen=None):
		"""Replace references to mutable containers by their present contents."""
		if t.op == 'ref' and t.args[1] in ('list', 'dict', 'set'):
			_seen = _seen or frozenset()
			if t in _seen:
				return mk('unk', 'rec')
			c = st.heap.get((t.args[0], '#'))
			if c is None:
				return mk('unk', 'lostlist')
			return self.snap_content(c, st, _seen | {t})
		if t.op in ('tuple', 'phi', 'list', 'lapp', 'lext', 'dict'):
			return self.snap_content(t, st, _seen or frozenset())
		return t

	def snap_content(self, c, st, seen):
		if c.op in ('list', 'tuple'):
			return mk(c.op, *[self.snap(x, st, seen) for x in c.args])
		if c.op in ('lapp', 'lext'):
			return mk(c.op, *[self.snap(x, st, seen) for x in c.args])
		if c.op == 'dict':
			ents, rest = c.args
			return mk('dict', tuple((k, self.snap(v, st, seen)) for k, v in ents), rest)
		if c.op == 'phi':
			return mk('phi', *[(pc, self.snap(v, st, seen)) for pc, v in c.args])
		if c.op == 'ref':
			return self.snap(c, st, seen)
		return c

	def content(self, t, st):
		"""list/tuple content term of a value, or None"""
		if t.op == 'ref' and t.args[1] in ('list', 'set'):
			return st.heap.get((t.args[0], '#'))
		if t.op in ('list', 'tuple', 'lapp', 'lext'):
			return t
		return None

	def concrete_items(self, t, st):
		"""list of element terms when the sequence is statically known"""
		c = self.content(t, st)
		if c is not None:
			if c.op in ('list', 'tuple'):
				return list(c.args)
			if c.op == 'lapp':
				b = self.concrete_items(c.args[0], st)
				return None if b is None else b + [c.args[1]]
			if c.op == 'lext':
				a = self.concrete_items(c.args[0], st)
				b = self.concrete_items(c.args[1], st)
				return None if a is None or b is None else a + b
			return None
		if t.op == 'const' and isinstance(t.args[0], (tuple, str)):
			return [const(x) for x in t.args[0]]
		if t.op == 'ref' and t.args[1] == 'dict':
			c = st.heap.get((t.args[0], '#'))
			if c is not None and c.op == 'dict' and c.args[1] is NONE:
				return [const(k) for k, _ in c.args[0]]
			return None
		if t.op == 'call' and t.args[0].op == 'ext':
			n = t.args[0].args[0]
			a = t.args[1]
			if n == 'builtins.range' and all(x.op == 'const' and isinstance(x.args[0], int) for x in a):
				r = range(*[x.args[0] for x in a])
				return [const(i) for i in r] if len(r) <= UNROLL else None
			if n == 'builtins.zip':
				cols = [self.concrete_items(x, st) for x in a]
				if any(c is None for c in cols):
					return None
				return [mk('tuple', *r) for r in zip(*cols)]
			if n == 'builtins.enumerate':
				c = self.concrete_items(a[0], st)
				start = a[1].args[0] if len(a) > 1 and a[1].op == 'const' else 0
				return None if c is None else [mk('tuple', const(i + start), x) for i, x in enumerate(c)]
			if n in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.sorted') and a:
				if n == 'builtins.sorted':
					return None
				return self.concrete_items(a[0], st)
			if n == 'builtins.reversed' and a:
				c = self.concrete_items(a[0], st)
				return None if c is None else c[::-1]
			if n in TRANSPARENT_ITER and n.startswith('tqdm') and a:
				return self.concrete_items(a[0], st)
		return None

	def elem(self, t, key, st):
		"""element of iterable t for the loop named key"""
		c = self.content(t, st)
		if c is not None:
			items = self.concrete_items(t, st)
			if items is not None and len(items) == 1:
				return items[0]
			if items:
				return mk('anyof', mk('idx', key), *items)
			return mk('index', self.snap(t, st), mk('idx', key))
		if t.op == 'call' and t.args[0].op == 'ext':
			n = t.args[0].args[0]
			a = t.args[1]
			if n == 'builtins.range':
				i = mk('idx', key)
				if len(a) == 1:
					self.idxinfo[i] = (const(0), a[0])
					return i
				self.idxinfo[i] = (a[0], a[1])
				if len(a) >= 2 and is_const(a[0], 0) and len(a) == 2:
					return i
				if len(a) == 3:
					return mk('add', a[0], mk('mul', a[2], i))
				return mk('add', a[0], i)
			if n == 'builtins.zip':
				return mk('tuple', *[self.elem(x, key, st) for x in a])
			if n == 'builtins.enumerate':
				i = mk('idx', key)
				self.idxinfo[i] = (const(0), mk('call', ext('builtins.len'), (self.snap(a[0], st),), ()))
				return mk('tuple', i, self.elem(a[0], key, st))
			if n in ('builtins.reversed', 'builtins.iter', 'builtins.list', 'builtins.tuple', 'builtins.sorted') and a:
				return self.elem(a[0], key, st)
			if n.startswith('tqdm') and a:
				return self.elem(a[0], key, st)
			if n == 'dict.items':
				return mk('tuple', mk('unk', 'key', a[0]), mk('unk', 'val', a[0]))
		if t.op == 'map':
			return t.args[0] if len(t.args) > 3 and t.args[3] else subst_idx(t.args[0], t.args[1], mk('idx', key))
		if t.op == 'phi':
			return mk('phi', *[(pc, self.elem(v, key, st)) for pc, v in t.args])
		return mk('index', t, mk('idx', key))

	idxinfo = {}

	# ------------------------------------------------------------------ truth
	def truth(self, t, st):
		if t.op == 'const':
			return bool(t.args[0])
		for c, p in st.pc:
			if c is t:
				return p
		if t.op in ('func', 'class', 'module', 'bound', 'ext'):
			return True
		if t.op == 'ref':
			if t.args[1] in ('list', 'set'):
				items = self.concrete_items(t, st)
				return None if items is None else bool(items)
			if t.args[1] == 'dict':
				c = st.heap.get((t.args[0], '#'))
				if c is not None and c.op == 'dict' and c.args[1] is NONE:
					return bool(c.args[0])
				return None
			return True
		if t.op == 'list' or t.op == 'tuple':
			return bool(t.args)
		if t.op == 'not':
			v = self.truth(t.args[0], st)
			return None if v is None else not v
		if t.op == 'and':
			vs = [self.truth(x, st) for x in t.args]
			if False in vs:
				return False
			return True if all(v is True for v in vs) else None
		if t.op == 'or':
			vs = [self.truth(x, st) for x in t.args]
			if True in vs:
				return True
			return False if all(v is False for v in vs) else None
		if t.op in NEGCMP:
			n = mk(NEGCMP[t.op], *t.args)
			for c, p in st.pc:
				if c is n:
					return not p
		if t.op == 'phi':
			vs = {self.truth(v, st) for _, v in t.args}
			if len(vs) == 1:
				return vs.pop()
		return None

	def nonnull(self, t):
		if t.op == 'const':
			return t.args[0] is not None
		if t.op == 'param':
			return t.args[1] != 'maybe'
		if t.op == 'phi':
			vs = {self.nonnull(v) for _, v in t.args}
			if vs == {True}:
				return True
			if vs == {False}:
				return False
			return None
		if t.op in ('unk', 'mu', 'optval', 'field', 'anyof', 'undef'):
			return None
		if t.op == 'index':
			return True if t.args[0].op in ('param', 'update') else None
		if t.op == 'call':
			if t.args[0].op == 'ext':
				return t.args[0].args[0] not in ('dict.get', 'builtins.getattr')
			return None
		return True

	def cmp(self, op, a, b, st):
		if op in ('is', 'isnot'):
			if b is NONE or a is NONE:
				o = a if b is NONE else b
				n = self.nonnull(o)
				if n is not None:
					return const((not n) if op == 'is' else n)
				# phi of None/non-None : keep, but decide through the pc of alternatives
				if o.op == 'phi':
					alts = [(pc, self.nonnull(v)) for pc, v in o.args]
					live = [(pc, n) for pc, n in alts if not self.infeasible(pc, st)]
					ns = {n for _, n in live}
					if len(ns) == 1 and None not in ns:
						n = ns.pop()
						return const((not n) if op == 'is' else n)
				return mk(op, o, NONE)
			if a is b and a.op in ('const', 'ref', 'func', 'class'):
				return const(op == 'is')
			if a.op == 'const' and b.op == 'const':
				r = a.args[0] is b.args[0] or (a.args[0] == b.args[0] and type(a.args[0]) is type(b.args[0]))
				return const(r if op == 'is' else not r)
			return mk(op, a, b)
		if a.op == 'const' and b.op == 'const':
			x, y = a.args[0], b.args[0]
			try:
				return const({'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
					'eq': lambda: x == y, 'ne': lambda: x != y, 'in': lambda: x in y, 'notin': lambda: x not in y}[op]())
			except Exception:
				return mk(op, a, b)
		if op in ('in', 'notin'):
			items = self.concrete_items(b, st)
			if items is not None and a.op == 'const' and all(i.op == 'const' for i in items):
				r = any(i.args[0] == a.args[0] and (i.args[0] is None) == (a.args[0] is None) for i in items)
				return const(r if op == 'in' else not r)
			if b.op == 'ref' and b.args[1] == 'dict' and a.op == 'const':
				c = st.heap.get((b.args[0], '#'))
				if c is not None and c.op == 'dict':
					ks = [k for k, _ in c.args[0]]
					if a.args[0] in ks:
						return const(op == 'in')
					if c.args[1] is NONE:
						return const(op != 'in')
			return mk(op, a, self.snap(b, st))
		if op in ('eq', 'ne'):
			if a is b and a.op in ('param', 'ref', 'call', 'idx') and a.op != 'call':
				return const(op == 'eq')
			for u, v in ((a, b), (b, a)):
				if u.op == 'const' and (u.args[0] is None or isinstance(u.args[0], str)):
					if v.op == 'ref' or v.op in ('list', 'tuple', 'add', 'sub', 'mul', 'matmul', 'func', 'bound', 'class'):
						return const(op != 'eq')
					if v.op == 'param' and v.args[1] in ('array', 'scalar', 'bool', 'int', 'fun', 'list'):
						return const(op != 'eq')
					if u.args[0] is None:
						n = self.nonnull(v)
						if n:
							return const(op != 'eq')
		if a.op == 'const' and b.op != 'const':
			# one spelling: constants stand on the right
			a, b, op = b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)
		a, b = self.snap(a, st), self.snap(b, st)
		if b.op == 'const' and type(b.args[0]) is int and a.op == 'call' and a.args[0] is ext('builtins.len'):
			# ... and lengths are compared with > and <= where it makes no difference
			if op in ('ge', 'lt'):
				op, b = {'ge': 'gt', 'lt': 'le'}[op], const(b.args[0] - 1)
			elif b.args[0] == 0 and op in ('ne', 'eq'):
				op = {'ne': 'gt', 'eq': 'le'}[op]
		return mk(op, a, b)

	def infeasible(self, pc, st):
		for c, p in pc:
			v = self.truth(c, st)
			if v is not None and v != p:
				return True
		return False

	# ------------------------------------------------------------------ joins
	def phi(self, alts):
		"""alts: list of (pc, value)"""
		vals = [v for _, v in alts]
		if all(v is vals[0] for v in vals):
			return vals[0]
		flat = []
		for pc, v in alts:
			if v.op == 'phi':
				for pc2, v2 in v.args:
					flat.append((tuple(pc) + tuple(x for x in pc2 if x not in pc), v2))
			else:
				flat.append((tuple(pc), v))
		if len(flat) > 24:
			flat = [(tuple(pc), v) for pc, v in alts]
		vals = [v for _, v in flat]
		if all(v is vals[0] for v in vals):
			return vals[0]
		# boolean phis
		if len(flat) == 2:
			(p1, v1), (p2, v2) = flat
			if len(p1) == 1 and len(p2) == 1 and p1[0][0] is p2[0][0] and p1[0][1] != p2[0][1]:
				c = p1[0][0]
				if not p1[0][1]:
					v1, v2 = v2, v1
				if v1 is TRUE and v2 is FALSE:
					return c if c.op in NEGCMP or c.op in ('and', 'or', 'not') else mk('call', ext('builtins.bool'), (c,), ())
				if v1 is FALSE and v2 is TRUE:
					return mk('not', c)
		# merge duplicates
		out = []
		for pc, v in flat:
			if (pc, v) not in out:
				out.append((pc, v))
		return mk('phi', *out)

	def join(self, states):
		states = [s for s in states if s is not None]
		if not states:
			return None
		if len(states) == 1:
			return states[0]
		pcs = [s.pc for s in states]
		n = 0
		while all(len(p) > n for p in pcs) and all(p[n] == pcs[0][n] for p in pcs):
			n += 1
		prefix = pcs[0][:n]
		rel = [p[n:] for p in pcs]
		out = State({}, {}, prefix)
		fids = set()
		for s in states:
			fids.update(s.frames)
		for f in fids:
			envs = [s.frames.get(f) for s in states]
			have = [e for e in envs if e is not None]
			if all(e is have[0] for e in have):
				out.frames[f] = have[0]
				continue
			names = set()
			for e in have:
				names.update(e)
			env = {}
			for nme in names:
				vs = [(rel[i], envs[i].get(nme, UNDEF)) for i in range(len(states)) if envs[i] is not None]
				env[nme] = self.joinval(vs, states, out)
			out.frames[f] = env
		keys = set()
		for s in states:
			keys.update(s.heap)
		h0 = states[0].heap
		for k in keys:
			v0 = h0.get(k)
			same = True
			for s in states[1:]:
				if s.heap.get(k) is not v0:
					same = False
					break
			if same:
				out.heap[k] = v0
				continue
			if k[1] == '#':
				vs = [(rel[i], s.heap[k]) for i, s in enumerate(states) if k in s.heap]
			else:
				vs = [(rel[i], s.heap.get(k, UNDEF)) for i, s in enumerate(states)]
			out.heap[k] = vs[0][1] if len(vs) == 1 else self.joinval(vs, states, out)
		return out

	def joinval(self, vs, states, out):
		vals = [v for _, v in vs]
		if all(v is vals[0] for v in vals):
			return vals[0]
		if len(vs) == len(states) and all(v.op == 'ref' and v.args[1] in ('list', 'dict') for v in vals) and len({v.args[1] for v in vals}) == 1:
			# distinct lists on different branches: merge into one new cell
			kind = vals[0].args[1]
			nid = 'J(%s)' % ','.join(sorted({v.args[0] for v in vals}))[:2000]
			cs = []
			for (pc, v), s in zip(vs, states):
				c = s.heap.get((v.args[0], '#'))
				cs.append((pc, c if c is not None else mk('unk', 'lost')))
			out.heap[(nid, '#')] = self.phi(cs)
			return mk('ref', nid, kind)
		return self.phi(vs)

	# ------------------------------------------------------------------ entry points
	def new_state(self):
		return State()

	def run(self, f, args=(), kwargs=None, st=None, selfT=None):
		"""Analyse Func f as an entry point.  Returns (value, state) with the joined result."""
		st = st or self.new_state()
		ft = self.func_value(f, None)
		if selfT is not None:
			args = (selfT,) + tuple(args)
		v = self.call_func(ft, list(args), dict(kwargs or {}), st, None)
		return v, st

	def new(self, cls, args=(), kwargs=None, st=None, tag='entry'):
		st = st if st is not None else self.new_state()
		octx = self.ctx
		if tag != 'entry':
			self.ctx = octx + (tag,)
		try:
			v = self.instantiate(cls, list(args), dict(kwargs or {}), st, tag)
		finally:
			self.ctx = octx
		return v, st

	def opaque_obj(self, cls, tag):
		oid = 'opaque:' + tag
		self.objclass[oid] = cls
		self.opaque.add(oid)
		return mk('ref', oid, cls.qualname)

	def method(self, obj, name, args, kwargs, st):
		f = self.getattr(obj, name, st, None)
		return self.call(f, list(args), dict(kwargs or {}), st, None)

	# ------------------------------------------------------------------ functions
	def func_value(self, f, fid, defaults=None, kwdefaults=None):
		t = mk('func', f.qualname if isinstance(f, Func) else 'lambda', self.node_key(f.node), -1 if fid is None else fid)
		self.funcs[t] = (f, fid, defaults, kwdefaults)
		return t

	def call_func(self, ft, args, kwargs, st, node):
		f, cfid, defaults, kwdefaults = self.funcs[ft]
		self.steps += 1
		if self.steps > BUDGET:
			raise Budget()
		hook = self.hooks.get(f.qualname) or (self.hooks.get('.' + f.name) if f.cls is not None else None)
		if hook is not None:
			r = hook(self, st, args, kwargs)
			if r is not NotImplemented:
				return r
		nk = self.node_key(f.node)
		if self.frames and sum(1 for fr in self.frames if fr.func.node is f.node) >= 2 or len(self.frames) > MAXDEPTH:
			return mk('call', mk('recfn', f.qualname), tuple(self.snap(a, st) for a in args), tuple((k, self.snap(v, st)) for k, v in sorted(kwargs.items())))
		if self.inline_filter is not None and not self.inline_filter(f):
			return mk('call', mk('fn', f.qualname), tuple(self.snap(a, st) for a in args), tuple((k, self.snap(v, st)) for k, v in sorted(kwargs.items())))
		self.analysed.add(f.qualname)
		self.fid += 1
		fid = self.fid
		env = self.bind(f, args, kwargs, st, defaults, kwdefaults, cfid)
		env['$closure'] = mk('frameid', -1 if cfid is None else cfid)
		st.frames = dict(st.frames)
		st.frames[fid] = env
		fr = Frame(f, fid)
		self.frames.append(fr)
		octx = self.ctx
		self.ctx = octx + ((self.node_key(node) if node is not None else 'top') + ':' + nk,)
		pc0 = st.pc
		try:
			if isinstance(f.node, ast.Lambda):
				v = self.ev(f.node.body, st)
				rets = [(st.copy(), v)]
			else:
				if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(f.node)):
					oid = self.oid(f.node, 'gen')
					st.heap[(oid, '#')] = mk('list')
					fr.yields = mk('ref', oid, 'list')
				end = self.block(f.node.body, st.copy())
				rets = list(fr.returns)
				if end is not None:
					rets.append((end, NONE))
		finally:
			self.frames.pop()
			self.ctx = octx
		if not rets:
			raise AbsDead()
		if fr.yields is not None:
			j = self.join([s for s, _ in rets])
			val = fr.yields
		else:
			for s, v in rets:
				s.frames = dict(s.frames)
				s.frames[-fid] = {'ret': v}
			j = self.join([s for s, _ in rets])
			val = j.frames[-fid]['ret']
			j.frames = dict(j.frames)
			del j.frames[-fid]
		if not fr.closures:
			j.frames = dict(j.frames)
			j.frames.pop(fid, None)
		st.become(j)
		return val

	def bind(self, f, args, kwargs, st, defaults, kwdefaults, cfid):
		a = f.node.args
		env = {}
		names = [x.arg for x in a.posonlyargs + a.args]
		kwargs = dict(kwargs)
		star = None
		if args and args[-1].op == 'stararg':
			star = args[-1].args[0]
			args = args[:-1]
		rest = kwargs.pop('**', None)
		for n, v in zip(names, args):
			env[n] = v
		extra = list(args[len(names):])
		for n in names + [x.arg for x in a.kwonlyargs]:
			if n in kwargs:
				env[n] = kwargs.pop(n)
		dvals = defaults
		if dvals is None:
			dvals = [self.default(f, d, st) for d in a.defaults]
		for n, d in zip(names[len(names) - len(a.defaults):], dvals):
			if n not in env:
				env[n] = d if rest is None else self.phi([((), d), ((), mk('unk', 'kwrest', rest, const(n)))]) if self.rest_may(rest, n) else d
		if star is not None:
			for n in names:
				if n not in env:
					env[n] = mk('index', star, const('pos:' + n))
		for x, d in zip(a.kwonlyargs, a.kw_defaults):
			if x.arg not in env:
				env[x.arg] = self.default(f, d, st) if d is not None else mk('unk', 'missing', const(x.arg))
		for n in names:
			if n not in env:
				if rest is not None:
					env[n] = mk('unk', 'kwrest', rest, const(n))
				else:
					self.note('missing-argument', (f, n))
					env[n] = mk('unk', 'missing', const(n))
		if a.vararg is not None:
			oid = self.oid(f.node, 'va') + '|%d' % self.fid
			env[a.vararg.arg] = mk('tuple', *extra) if star is None else mk('call', ext('builtins.tuple'), (star,), ())
		elif extra:
			self.note('too-many-arguments', (f, len(args)))
		if a.kwarg is not None:
			oid = 'kw|%d' % self.fid
			st.heap[(oid, '#')] = mk('dict', tuple(sorted(kwargs.items(), key=lambda kv: kv[0])), rest if rest is not None else NONE)
			env[a.kwarg.arg] = mk('ref', oid, 'dict')
		elif kwargs:
			self.note('unexpected-keyword', (f, sorted(kwargs)))
		return env

	def rest_may(self, rest, n):
		return True

	def default(self, f, d, st):
		# defaults are evaluated in the defining module's scope
		fr = Frame(f, None)
		saved = self.frames
		self.frames = saved + [ModFrame(f.module)]
		octx = self.ctx
		self.ctx = ('default',)
		try:
			return self.ev(d, st)
		except (AbsRaise, AbsDead):
			return mk('unk', 'default')
		finally:
			self.frames = saved
			self.ctx = octx

	def note(self, kind, data, st=None, node=None):
		fn = self.frames[-1].func.qualname if self.frames and self.frames[-1].func is not None else '?'
		self.events.append({'kind': kind, 'data': data, 'pc': st.pc if st is not None else (), 'node': node, 'func': fn,
			'stack': tuple(fr.func.qualname for fr in self.frames if fr.func is not None)})

	def saw_ext(self, name):
		fn = self.frames[-1].func.qualname if self.frames and self.frames[-1].func is not None else '?'
		self.ext_seen.setdefault(name, set()).add(fn)

	# ------------------------------------------------------------------ calls
	def call(self, f, args, kwargs, st, node):
		self.callsites += 1
		if f.op == 'func':
			return self.call_func(f, args, kwargs, st, node)
		if f.op == 'bound':
			return self.call(f.args[0], [f.args[1]] + args, kwargs, st, node)
		if f.op == 'class':
			return self.instantiate(self.classes[f.args[0]], args, kwargs, st, node)
		if f.op == 'phi':
			fs = [(pc, v) for pc, v in f.args if v is not UNDEF and v is not NONE]
			if fs and all(v.op in ('func', 'bound', 'class', 'ext', 'param') for _, v in fs):
				return self.map_alts(fs, lambda v, s: self.call(v, list(args), dict(kwargs), s, node), st)
		if f.op == 'anyof':
			fs = [((), v) for v in f.args[1:]]
			if all(v.op in ('func', 'bound', 'class', 'ext') for _, v in fs):
				return self.map_alts(fs, lambda v, s: self.call(v, list(args), dict(kwargs), s, node), st)
		if f.op == 'ref' and f.args[0] in self.objclass:
			m = self.objclass[f.args[0]].lookup('__call__')
			if m and m[0] == 'method':
				return self.call_func(self.func_value(m[1], None), [f] + args, kwargs, st, node)
		if f.op == 'meth':
			return self.call_method(f.args[0], f.args[1], args, kwargs, st, node)
		if f.op == 'ext':
			return self.call_ext(f.args[0], args, kwargs, st, node)
		args = self.cbs(args, st)
		kw = kwargs.copy()
		r = kw.pop('**', None)
		a = tuple(self.snap(x, st) for x in args)
		k = tuple(sorted(((n, self.snap(v, st)) for n, v in kw.items()), key=lambda x: x[0]))
		if r is not None:
			k = k + (('**', r),)
		self.note('call-unknown', (f, a, k), st, node)
		return mk('call', f, a, k)

	def map_alts(self, alts, fn, st):
		outs = []
		for i, (pc, v) in enumerate(alts):
			s = st.copy()
			for c, p in pc:
				s.assume(c, p)
			if not pc:
				s.assume(mk('alt', fresh_key(alts), i), True)
			try:
				r = fn(v, s)
			except AbsRaise as e:
				self.raise_stack[-1].append((s, e.exc))
				continue
			except AbsDead:
				continue
			s.frames = dict(s.frames)
			s.frames['alt'] = {'v': r}
			outs.append(s)
		if not outs:
			raise AbsDead()
		j = self.join(outs)
		r = j.frames['alt']['v']
		j.frames = dict(j.frames)
		del j.frames['alt']
		st.become(j)
		return r

	def instantiate(self, cls, args, kwargs, st, node):
		oid = self.oid(node) + '!' + cls.name if isinstance(node, ast.AST) else 'obj:%s:%s' % (node, cls.name)
		self.objclass[oid] = cls
		ref = mk('ref', oid, cls.qualname)
		# a fresh object: forget the attributes of an earlier allocation at the same place
		for k in [k for k in st.heap if k[0] == oid]:
			del st.heap[k]
		if cls.ext_bases() and any('Exception' in str(b) or 'Error' in str(b) for b in cls.ext_bases()):
			return ref
		m = cls.lookup('__init__')
		if m and m[0] == 'method':
			self.call_func(self.func_value(m[1], None), [ref] + args, kwargs, st, node if isinstance(node, ast.AST) else None)
		return ref

	@property
	def classes(self):
		if not hasattr(self, '_classes'):
			self._classes = {c.qualname: c for c in self.P.classes()}
		return self._classes

	def cbs(self, args, st):
		"""arguments that are functions of the package, handed to code we do not see: analyse
		them once on symbolic inputs so that what they compute is part of the value."""
		out = []
		for a in args:
			if a.op in ('func', 'bound'):
				out.append(self.cb(a, st))
			else:
				out.append(a)
		return out

	def cb(self, a, st):
		ft = a if a.op == 'func' else a.args[0]
		if ft.op != 'func':
			return a
		f = self.funcs[ft][0]
		ar = f.node.args
		n = len(ar.args) - (1 if a.op == 'bound' else 0)
		nd = len(ar.defaults)
		ps = [param('cb:%s:%s' % (f.name, x.arg), 'array') for x in ar.args[len(ar.args) - n:len(ar.args) - nd]]
		s = st.copy()
		try:
			r = self.call(a, ps, {}, s, None)
			r = self.snap(r, s)
		except (AbsRaise, AbsDead):
			r = mk('unk', 'cb')
		return mk('lam', a, tuple(ps), r)

	def call_ext(self, name, args, kwargs, st, node):
		name = ALIAS.get(name, name)
		n = len(args)
		if name.startswith('builtins.'):
			r = self.builtin(name[9:], args, kwargs, st, node)
			if r is not None:
				return r
		if name in ('copy.deepcopy', 'copy.copy') and args:
			a = args[0]
			if a.op == 'ref':
				return self.clone(a, st, node, deep=name.endswith('deepcopy'))
			return mk('call', ext('numpy.copy'), (self.snap(a, st),), ())
		if name in EXTOP2 and n >= 2:
			return self.binop(EXTOP2[name], self.snap(args[0], st), self.snap(args[1], st), st)
		if name in EXTOP1 and n == 1:
			return self.unop(EXTOP1[name], self.snap(args[0], st))
		if name == 'functools.reduce' and n >= 2 and args[0].op in ('func', 'ext'):
			items = self.concrete_items(args[1], st)
			if items:
				acc = args[2] if n > 2 else items.pop(0)
				for x in items:
					acc = self.call(args[0], [acc, x], {}, st, node)
				return acc
		if name == 'itertools.chain' and not kwargs:
			its = [self.concrete_items(a, st) for a in args]
			if all(i is not None for i in its):
				return mk('list', *[x for i in its for x in i])
		args = self.cbs(args, st)
		a = tuple(self.snap(x, st) for x in args)
		kw = dict(kwargs)
		rest = kw.pop('**', None)
		k = tuple(sorted(((nm, self.snap(v, st)) for nm, v in kw.items()), key=lambda x: x[0]))
		if rest is not None:
			k = k + (('**', rest),)
		if name in ALLOC:
			v = mk('alloc', name, self.oid(node) if node is not None else 'x', a, k)
			self.note('alloc', v, st, node)
			return v
		t = mk('call', ext(name), a, k)
		if name == 'cvxpy.Problem':
			self.probs.add(t)
		self.note('extcall', t, st, node)
		return t

	def clone(self, a, st, node, deep=True, memo=None):
		memo = memo if memo is not None else {}
		if a in memo:
			return memo[a]
		oid = 'clone(%s)@%s' % (a.args[0], self.oid(node) if node is not None else '')
		r = mk('ref', oid, a.args[1])
		memo[a] = r
		if a.args[0] in self.objclass:
			self.objclass[oid] = self.objclass[a.args[0]]
		if a.args[0] in self.opaque:
			return a
		for k, v in list(st.heap.items()):
			if k[0] == a.args[0]:
				if deep and v.op == 'ref':
					v = self.clone(v, st, node, deep, memo)
				st.heap[(oid, k[1])] = v
		return r

	def builtin(self, name, args, kwargs, st, node):
		n = len(args)
		if name == 'len' and n == 1:
			a = args[0]
			items = self.concrete_items(a, st)
			if items is not None:
				return const(len(items))
			if a.op == 'ref' and a.args[0] in self.objclass:
				m = self.objclass[a.args[0]].lookup('__len__')
				if m and m[0] == 'method':
					return self.call_func(self.func_value(m[1], None), [a], {}, st, node)
			if a.op == 'ref' and a.args[1] == 'dict':
				return mk('call', ext('builtins.len'), (self.snap(a, st),), ())
			return mk('call', ext('builtins.len'), (self.snap(a, st),), ())
		if name == 'isinstance' and n == 2:
			return self.isinstance(args[0], args[1], st)
		if name == 'callable' and n == 1:
			if args[0].op in ('func', 'bound', 'class', 'lam'):
				return TRUE
			if args[0].op in ('list', 'tuple', 'const') or args[0].op == 'ref' and args[0].args[1] in ('list', 'dict'):
				return FALSE
			if args[0].op == 'param' and args[0].args[1] == 'fun':
				return TRUE
			if args[0].op == 'param' and args[0].args[1] in ('list', 'array'):
				return FALSE
			return None
		if name in ('list', 'tuple', 'set') and n <= 1:
			if n == 0:
				return self.newlist((), st, node, 'set' if name == 'set' else 'list') if name != 'tuple' else mk('tuple')
			items = self.concrete_items(args[0], st)
			if items is not None and name != 'set':
				return mk('tuple', *items) if name == 'tuple' else self.newlist(items, st, node)
			c = self.content(args[0], st)
			if c is not None and name == 'list':
				return self.newlist(None, st, node, content=c)
			return None
		if name == 'dict':
			ents = tuple(sorted(((k, v) for k, v in kwargs.items() if k != '**'), key=lambda x: x[0]))
			base = ()
			rest = kwargs.get('**', NONE)
			if n == 1:
				c = self.dictcontent(args[0], st)
				if c is None:
					return self.newdict((), self.snap(args[0], st), st, node)
				base = c.args[0]
				rest = c.args[1]
			d = dict(base)
			d.update(dict(ents))
			return self.newdict(tuple(d.items()), rest, st, node)
		if name in ('min', 'max'):
			if n == 1 and not kwargs:
				items = self.concrete_items(args[0], st)
				if items is not None:
					args = items
					n = len(items)
				else:
					return mk('call', ext('numpy.' + name), (self.snap(args[0], st),), ())
			if 'key' in kwargs:
				return mk('call', ext('builtins.%skey' % name), tuple(self.snap(a, st) for a in args), (('key', self.cb(kwargs['key'], st) if kwargs['key'].op in ('func', 'bound') else kwargs['key']),))
			if n >= 1:
				r = self.snap(args[0], st)
				for a in args[1:]:
					r = mk('call', ext('numpy.%simum' % name), (r, self.snap(a, st)), ())
				return r
		if name == 'sum' and n >= 1:
			items = self.concrete_items(args[0], st)
			if items is not None and n == 1:
				if not items:
					return const(0)
				r = items[0]
				for x in items[1:]:
					r = self.binop('add', self.snap(r, st), self.snap(x, st), st)
				return r
			return mk('call', ext('numpy.sum'), tuple(self.snap(a, st) for a in args), ())
		if name in ('all', 'any') and n == 1:
			items = self.concrete_items(args[0], st)
			if items is not None:
				if not items:
					return const(name == 'all')
				r = items[0]
				for x in items[1:]:
					r = self.binop('and' if name == 'all' else 'or', r, x, st)
				return r
		if name == 'getattr' and n >= 2 and args[1].op == 'const':
			try:
				return self.getattr(args[0], args[1].args[0], st, node)
			except AbsRaise:
				if n == 3:
					return args[2]
				raise
		if name == 'hasattr' and n == 2 and args[1].op == 'const':
			if args[0].op == 'ref' and args[0].args[0] in self.objclass and args[0].args[0] not in self.opaque:
				o = args[0]
				if self.objclass[o.args[0]].lookup(args[1].args[0]):
					return TRUE
				v = st.heap.get((o.args[0], args[1].args[0]))
				if v is None:
					return FALSE
				if not may_undef(v):
					return TRUE
			return None
		if name == 'setattr' and n == 3 and args[1].op == 'const':
			self.setattr(args[0], args[1].args[0], args[2], st, node)
			return NONE
		if name in ('float', 'int', 'bool', 'str') and n == 1:
			a = args[0]
			if a.op == 'const':
				try:
					return const({'float': float, 'int': int, 'bool': bool, 'str': str}[name](a.args[0]))
				except Exception:
					return None
			return None
		if name == 'map' and n >= 2:
			items = [self.concrete_items(a, st) for a in args[1:]]
			if all(i is not None for i in items):
				return self.newlist([self.call(args[0], list(r), {}, st, node) for r in zip(*items)], st, node)
			key = self.loopkey(node)
			v = self.call(args[0], [self.elem(a, key, st) for a in args[1:]], {}, st, node)
			return mk('map', self.snap(v, st), key, tuple(self.snap(a, st) for a in args[1:]), ())
		if name == 'super':
			fr = [f for f in self.frames if f.func is not None and f.func.cls is not None]
			if n == 0 and fr:
				f = fr[-1]
				selfname = f.func.node.args.args[0].arg
				return mk('super', f.func.cls.qualname, self.lookup_var(selfname, st))
			if n == 2 and args[0].op == 'class':
				return mk('super', args[0].args[0], args[1])
		if name == 'print':
			self.note('print', tuple(self.snap(a, st) for a in args), st, node)
			return NONE
		if name == 'type' and n == 1 and args[0].op == 'ref' and args[0].args[0] in self.objclass:
			return mk('class', self.objclass[args[0].args[0]].qualname)
		if name == 'next' and n >= 1:
			return mk('call', ext('builtins.next'), (self.snap(args[0], st),), ())
		if name == 'enumerate' or name == 'zip' or name == 'range':
			kw = tuple(sorted((k, self.snap(v, st)) for k, v in kwargs.items()))
			if name == 'zip' and any(a.op == 'stararg' for a in args):
				return mk('call', ext('builtins.zipstar'), tuple(self.snap(a, st) for a in args), ())
			return mk('call', ext('builtins.' + name), tuple(self.snap(a, st) for a in args), kw)
		if name == 'slice':
			return mk('slice', *[self.snap(a, st) for a in (args if n > 1 else [NONE] + args)])
		return None

	def isinstance(self, v, c, st):
		cs = self.concrete_items(c, st) if c.op == 'tuple' else [c]
		if cs is None:
			cs = [c]
		if v.op == 'phi':
			rs = [(pc, self.isinstance(x, c, st)) for pc, x in v.args if not self.infeasible(pc, st)]
			if rs and all(r is rs[0][1] for _, r in rs):
				return rs[0][1]
			if rs and all(r.op == 'const' for _, r in rs):
				return self.phi(rs)
		res = None
		for k in cs:
			r = None
			if k.op == 'class':
				if v.op == 'ref':
					if v.args[0] in self.objclass:
						r = self.objclass[v.args[0]].is_subclass(self.classes[k.args[0]])
					else:
						r = False
				elif v.op in ('const', 'list', 'tuple', 'func', 'add', 'sub', 'mul', 'matmul', 'alloc', 'update', 'bound'):
					r = False
				elif v.op == 'param' and v.args[1] in ('array', 'scalar', 'fun', 'int', 'bool', 'list', 'str'):
					r = False
				elif v.op == 'call' and v.args[0].op == 'ext':
					r = False
			elif k.op == 'ext':
				nm = k.args[0]
				if v.op == 'const':
					pt = getattr(_bi, nm[9:], None) if nm.startswith('builtins.') else None
					if isinstance(pt, type):
						r = isinstance(v.args[0], pt)
					elif nm.startswith('numpy'):
						r = False
				elif v.op == 'ref':
					r = nm == 'builtins.' + v.args[1]
				elif v.op in ('list', 'tuple'):
					r = nm == 'builtins.' + v.op
				elif v.op == 'param':
					tg = v.args[1]
					tab = {'array': ('numpy.ndarray',), 'scalar': ('builtins.float',), 'int': ('builtins.int',), 'str': ('builtins.str',), 'bool': ('builtins.bool', 'builtins.int'), 'list': ('builtins.list',), 'fun': ()}
					if tg in tab:
						r = nm in tab[tg]
				elif v.op in ('call', 'matmul', 'update') and nm in ('builtins.str', 'builtins.list', 'builtins.dict', 'builtins.tuple'):
					if v.op != 'call' or (v.args[0].op == 'ext' and v.args[0].args[0].startswith('numpy')):
						r = False
				elif v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in ('numpy.array', 'numpy.ones', 'numpy.zeros', 'numpy.copy', 'numpy.reshape', 'numpy.minimum', 'numpy.maximum', 'numpy.vstack', 'numpy.hstack', 'numpy.atleast_2d', 'numpy.atleast_1d'):
					r = nm == 'numpy.ndarray'
				elif v.op in ('mul', 'add', 'sub', 'neg') and nm in ('builtins.int', 'builtins.float', 'builtins.str'):
					if contains(v, lambda x: x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('numpy.ones', 'numpy.zeros', 'numpy.array')):
						r = False
			if r is True:
				return TRUE
			if r is None:
				res = None if res is None else res
				return mk('call', ext('builtins.isinstance'), (self.snap(v, st), c), ())
		return FALSE

	def newlist(self, items, st, node, kind='list', content=None):
		oid = self.oid(node) if node is not None else 'l%d' % fresh()
		st.heap[(oid, '#')] = content if content is not None else mk('list', *items)
		return mk('ref', oid, kind)

	def newdict(self, ents, rest, st, node):
		oid = (self.oid(node) if node is not None else 'd%d' % fresh()) + 'd'
		st.heap[(oid, '#')] = mk('dict', tuple(ents), rest)
		return mk('ref', oid, 'dict')

	def dictcontent(self, t, st):
		if t.op == 'ref' and t.args[1] == 'dict':
			c = st.heap.get((t.args[0], '#'))
			if c is not None and c.op == 'phi':
				c = self.merge_dict_phi(c, st)
			return c if c is not None and c.op == 'dict' else None
		if t.op == 'dict':
			return t
		return None

	def merge_dict_phi(self, c, st):
		alts = c.args
		if not all(v.op == 'dict' for _, v in alts):
			return None
		keys = []
		for _, v in alts:
			for k, _x in v.args[0]:
				if k not in keys:
					keys.append(k)
		ents = []
		for k in keys:
			vs = [(pc, dict(v.args[0]).get(k, UNDEF)) for pc, v in alts]
			ents.append((k, self.phi(vs)))
		rests = [v.args[1] for _, v in alts]
		rest = rests[0] if all(r is rests[0] for r in rests) else mk('unk', 'rest', *rests)
		return mk('dict', tuple(ents), rest)

	# ------------------------------------------------------------------ methods on values
	def call_method(self, recv, m, args, kwargs, st, node):
		if recv.op == 'ref' and recv.args[1] in ('list', 'set'):
			return self.list_method(recv, m, args, kwargs, st, node)
		if recv.op == 'ref' and recv.args[1] == 'dict':
			return self.dict_method(recv, m, args, kwargs, st, node)
		if m == 'copy' and recv.op in ('list', 'dict') and not args:
			return self.newlist(None, st, node, content=recv) if recv.op == 'list' else self.newdict(recv.args[0], recv.args[1], st, node)
		if m in ('__rmatmul__',) and len(args) == 1:
			return self.binop('matmul', self.snap(args[0], st), recv, st)
		if m in ('__matmul__', 'dot') and len(args) == 1:
			return self.binop('matmul', recv, self.snap(args[0], st), st)
		DUN = {'__add__': 'add', '__mul__': 'mul', '__sub__': 'sub', '__truediv__': 'div', '__and__': 'and', '__le__': 'le', '__ge__': 'ge'}
		if m in DUN and len(args) == 1:
			return self.binop(DUN[m], recv, self.snap(args[0], st), st)
		if m == 'solve' and (recv in self.probs or recv.op == 'phi' and all(v in self.probs for _, v in recv.args)):
			return self.solve(recv, args, kwargs, st, node)
		if recv.op == 'phi':
			alts = [(pc, v) for pc, v in recv.args if v is not UNDEF and v is not NONE]
			if alts and any(v.op == 'ref' for _, v in alts):
				return self.map_alts(alts, lambda v, s: self.call(self.getattr(v, m, s, node), list(args), dict(kwargs), s, node), st)
		if recv.op == 'const' and isinstance(recv.args[0], str):
			return mk('call', ext('str.' + m), (recv,) + tuple(self.snap(a, st) for a in args), ())
		if m in NPMETH:
			if m == 'flatten' or m == 'ravel':
				return mk('call', ext('numpy.flatten'), (recv,), ())
			return self.call_ext('numpy.' + m, [recv] + args, kwargs, st, node)
		args = self.cbs(args, st)
		kw = dict(kwargs)
		rest = kw.pop('**', None)
		a = tuple(self.snap(x, st) for x in args)
		k = tuple(sorted(((n, self.snap(v, st)) for n, v in kw.items()), key=lambda x: x[0]))
		if rest is not None:
			k = k + (('**', rest),)
		t = mk('call', mk('field', recv, m), a, k)
		self.note('methcall', t, st, node)
		self.may_attr = True
		return t

	def solve(self, prob, args, kwargs, st, node):
		kw = dict(kwargs)
		rest = kw.pop('**', None)
		k = tuple(sorted(((n, self.snap(v, st)) for n, v in kw.items()), key=lambda x: x[0]))
		if rest is not None:
			k = k + (('**', rest),)
		pars = []
		vars_ = []
		for x in walk(prob):
			if x.op == 'alloc':
				if x.args[0] == 'cvxpy.Parameter':
					pars.append((x, st.heap.get((x, 'value'), mk('field', x, 'value'))))
				elif x.args[0] == 'cvxpy.Variable':
					vars_.append(x)
		inst = mk('solved', prob, tuple(sorted(pars, key=lambda p: p[0].id)), k)
		self.note('solve', inst, st, node)
		for v in vars_:
			st.heap[(v, 'value')] = mk('optval', v, inst)
		for p in ([prob] if prob.op != 'phi' else [v for _, v in prob.args]):
			st.heap[(p, 'status')] = mk('status', inst)
			st.heap[(p, 'value')] = mk('optobj', inst)
		return mk('optobj', inst)

	def list_method(self, recv, m, args, kwargs, st, node):
		key = (recv.args[0], '#')
		c = st.heap.get(key)
		if c is None:
			c = mk('unk', 'lost')
		if m == 'append' or m == 'add':
			v = args[0]
			st.heap[key] = mk('list', *(c.args + (v,))) if c.op == 'list' else mk('lapp', c, v)
			return NONE
		if m in ('extend', 'update'):
			items = self.concrete_items(args[0], st)
			if c.op == 'list' and items is not None:
				st.heap[key] = mk('list', *(c.args + tuple(items)))
			else:
				st.heap[key] = mk('lext', c, self.snap(args[0], st))
			return NONE
		if m == 'insert':
			if c.op == 'list' and args[0].op == 'const' and isinstance(args[0].args[0], int):
				l = list(c.args)
				l.insert(args[0].args[0], args[1])
				st.heap[key] = mk('list', *l)
			else:
				st.heap[key] = mk('lapp', c, args[1])
			return NONE
		if m == 'pop':
			i = args[0] if args else const(-1)
			if c.op == 'list' and i.op == 'const':
				try:
					l = list(c.args)
					v = l.pop(i.args[0])
					st.heap[key] = mk('list', *l)
					return v
				except Exception:
					pass
			v = mk('index', self.snap(recv, st), i)
			st.heap[key] = mk('lpop', self.snap_content(c, st, frozenset()), self.snap(i, st))
			return v
		if m == 'copy':
			return self.newlist(None, st, node, content=c)
		if m in ('sort', 'reverse'):
			st.heap[key] = mk('unk', 'sorted', self.snap(recv, st))
			return NONE
		if m == 'clear':
			st.heap[key] = mk('list')
			return NONE
		return mk('call', ext('list.' + m), (self.snap(recv, st),) + tuple(self.snap(a, st) for a in args), ())

	def dict_method(self, recv, m, args, kwargs, st, node):
		key = (recv.args[0], '#')
		c = self.dictcontent(recv, st)
		if c is None:
			c = mk('dict', (), self.snap(st.heap.get(key, mk('unk', 'lost')), st))
		if m == 'copy':
			return self.newdict(c.args[0], c.args[1], st, node)
		if m == 'update':
			ents = dict(c.args[0])
			rest = c.args[1]
			if args:
				o = self.dictcontent(args[0], st)
				if o is None:
					rest = self.snap(args[0], st) if rest is NONE else mk('unk', 'rest', rest, self.snap(args[0], st))
				else:
					ents.update(dict(o.args[0]))
					if o.args[1] is not NONE:
						rest = o.args[1] if rest is NONE else (rest if rest is o.args[1] else mk('unk', 'rest', rest, o.args[1]))
			kw = dict(kwargs)
			r2 = kw.pop('**', None)
			ents.update(kw)
			if r2 is not None:
				rest = r2 if rest is NONE else mk('unk', 'rest', rest, r2)
			st.heap[key] = mk('dict', tuple(ents.items()), rest)
			return NONE
		if m in ('get', 'pop', 'setdefault') and args and args[0].op == 'const':
			ents = dict(c.args[0])
			k = args[0].args[0]
			d = args[1] if len(args) > 1 else NONE
			if k in ents:
				v = ents[k]
			elif c.args[1] is NONE:
				v = d
			else:
				v = mk('call', ext('dict.get'), (c.args[1], args[0], d), ())
			if m == 'pop':
				ents.pop(k, None)
				st.heap[key] = mk('dict', tuple(ents.items()), c.args[1])
			if m == 'setdefault':
				ents.setdefault(k, v)
				st.heap[key] = mk('dict', tuple(ents.items()), c.args[1])
			return v
		if c.args[1] is NONE:
			if m == 'keys':
				return mk('list', *[const(k) for k, _ in c.args[0]])
			if m == 'values':
				return mk('list', *[v for _, v in c.args[0]])
			if m == 'items':
				return mk('list', *[mk('tuple', const(k), v) for k, v in c.args[0]])
		return mk('call', ext('dict.' + m), (self.snap(recv, st),) + tuple(self.snap(a, st) for a in args), ())

	# ------------------------------------------------------------------ attributes
	def getattr(self, o, name, st, node):
		if o.op == 'ref' and o.args[0] in self.objclass:
			return self.obj_getattr(o, name, st, node)
		if o.op == 'super':
			cls = self.classes[o.args[0]]
			selfT = o.args[1]
			dyn = self.objclass.get(selfT.args[0], cls) if selfT.op == 'ref' else cls
			m = dyn.lookup(name, after=cls)
			if m is None:
				return mk('func0')
			if m[0] == 'method':
				if m[1].is_property:
					return self.call_func(self.func_value(m[1], None), [selfT], {}, st, node)
				return mk('bound', self.func_value(m[1], None), selfT)
			return self.classattr(m, st)
		if o.op == 'ext':
			full = ALIAS.get(o.args[0] + '.' + name, o.args[0] + '.' + name)
			self.saw_ext(o.args[0] + '.' + name)
			if full == 'numpy.inf':
				return mk('ext', 'numpy.inf')
			return ext(full)
		if o.op == 'module':
			m = self.P.modules[o.args[0]]
			r = self.P.lookup(m, name)
			if r is None:
				self.note('undefined-attr', (o, name), st, node)
				return mk('unk', 'attr', const(name))
			return self.binding_value(r, m, st)
		if o.op == 'class':
			m = self.classes[o.args[0]].lookup(name)
			if m is not None:
				if m[0] == 'method':
					return self.func_value(m[1], None)
				return self.classattr(m, st)
			return mk('field', o, name)
		if o.op == 'phi':
			alts = [(pc, v) for pc, v in o.args if v is not UNDEF and not self.infeasible(pc, st)]
			if any(v.op == 'ref' and v.args[0] in self.objclass for _, v in alts):
				alts = [(pc, v) for pc, v in alts if v is not NONE]
				return self.map_alts(alts, lambda v, s: self.getattr(v, name, s, node), st)
			if len(alts) == 1:
				return self.getattr(alts[0][1], name, st, node)
		if (o, name) in st.heap:
			return st.heap[(o, name)]
		if name == 'T':
			return self.binop1('numpy.transpose', self.snap(o, st))
		if o.op == 'ref':    # list/dict methods
			return mk('meth', o, name)
		if o.op == 'const' and o.args[0] is None:
			raise AbsRaise('AttributeError')
		if name in ('shape', 'ndim', 'size', 'dtype', 'value', 'status', 'real', 'imag', 'root', 'x', 'fun', 'success', 'nfev'):
			self.may_attr = True
			o2 = self.snap(o, st)
			if name == 'shape':
				sh = static_shape(o2)
				if sh is not None:
					return sh
			return mk('field', o2, name)
		if node is not None and getattr(node, '_is_callee', False):
			return mk('meth', o, name)
		if name in NPMETH or name in ('dot',):
			return mk('meth', o, name)
		self.may_attr = True
		return mk('field', self.snap(o, st), name)

	def binop1(self, fn, a):
		if fn == 'numpy.transpose' and a.op == 'call' and a.args[0] is ext('numpy.transpose') and len(a.args[1]) == 1 and not a.args[2]:
			return a.args[1][0]
		return mk('call', ext(fn), (a,), ())

	def obj_getattr(self, o, name, st, node):
		oid = o.args[0]
		cls = self.objclass[oid]
		if name in self.overrides:
			ov = self.overrides[name]
			r = ov(self, st, o) if callable(ov) and not isinstance(ov, T) else ov
			if r is not None:
				return r
		m = cls.lookup(name)
		key = (oid, name)
		if m is not None and m[0] == 'method' and m[1].is_property and not (m[1].is_cached_property and key in st.heap):
			v = self.call_func(self.func_value(m[1], None), [o], {}, st, node)
			if m[1].is_cached_property:
				st.heap[key] = v
			return v
		if key in st.heap:
			v = st.heap[key]
			if v is UNDEF:
				raise AbsRaise('AttributeError')
			if v.op == 'phi' and any(x is UNDEF for _, x in v.args):
				self.may_attr = True
				miss = [(pc, x) for pc, x in v.args if x is UNDEF]
				s = st.copy()
				self.raise_stack[-1].append((s, 'AttributeError'))
				live = [(pc, x) for pc, x in v.args if x is not UNDEF]
				v = live[0][1] if len(live) == 1 else self.phi(live)
			return v
		if m is not None:
			if m[0] == 'method':
				f = self.func_value(m[1], None)
				if m[1].is_static:
					return f
				if m[1].is_classmethod:
					return mk('bound', f, mk('class', cls.qualname))
				return mk('bound', f, o)
			return self.classattr(m, st)
		if name == '__class__':
			return mk('class', cls.qualname)
		if name == '__dict__':
			return mk('unk', 'dict')
		if oid in self.opaque:
			self.may_attr = True
			return mk('field', o, name)
		if [b for b in cls.ext_bases() if b not in ('builtins.object', 'object')]:
			return mk('field', o, name)
		if name in ('__str__', '__repr__', '__init__', '__hash__', '__eq__', '__ne__'):
			return mk('unk', 'objmethod')
		ga = cls.lookup('__getattr__')
		if ga is not None:
			return mk('unk', 'getattr', const(name))
		self.note('missing-attribute', (cls, name), st, node)
		raise AbsRaise('AttributeError')

	def classattr(self, m, st):
		owner = m[2]
		return self.modeval(m[1], owner.module, st, ('classattr', owner.qualname, id(m[1])))

	def modeval(self, expr, module, st, key):
		saved = self.frames
		octx = self.ctx
		self.frames = saved + [ModFrame(module)]
		self.ctx = ('mod', module.name, str(self.node_key(expr)))
		try:
			return self.ev(expr, st)
		except (AbsRaise, AbsDead):
			return mk('unk', 'modeval')
		finally:
			self.frames = saved
			self.ctx = octx

	def setattr(self, o, name, v, st, node):
		if o.op == 'ref' and o.args[0] in self.objclass:
			cls = self.objclass[o.args[0]]
			for c in cls.mro():
				if name in c.setters:
					self.call_func(self.func_value(c.setters[name], None), [o, v], {}, st, node)
					return
			self.note('setattr', (o, name, v), st, node)
			st.heap[(o.args[0], name)] = v
			return
		if o.op == 'phi':
			for pc, x in o.args:
				if x.op == 'ref' and x.args[0] in self.objclass:
					old = st.heap.get((x.args[0], name), UNDEF)
					st.heap[(x.args[0], name)] = self.phi([(pc, v), ((), old)])
			return
		self.note('setattr', (o, name, v), st, node)
		st.heap[(o, name)] = v

	# ------------------------------------------------------------------ variables
	def lookup_var(self, name, st):
		fr = self.frames[-1]
		if isinstance(fr, ModFrame):
			return self.global_var(name, fr.module, st)
		fid = fr.fid
		env = st.frames.get(fid)
		seen = 0
		while env is not None and seen < 30:
			if name in env:
				v = env[name]
				if v is UNDEF:
					raise AbsRaise('UnboundLocalError')
				if v.op == 'phi' and any(x is UNDEF for _, x in v.args):
					live = [(pc, x) for pc, x in v.args if x is not UNDEF]
					self.may_attr = True
					v = live[0][1] if len(live) == 1 else self.phi(live)
				return v
			c = env.get('$closure')
			if c is None or c.args[0] == -1:
				break
			env = st.frames.get(c.args[0])
			seen += 1
		return self.global_var(name, fr.func.module, st)

	def global_var(self, name, module, st):
		r = self.P.lookup(module, name)
		if r is None:
			if name in BUILTINS:
				if name == 'True':
					return TRUE
				return ext('builtins.' + name)
			if name in ('__file__', '__name__'):
				return const(name)
			self.note('undefined-name', (name, module.name), st, None)
			raise AbsRaise('NameError')
		return self.binding_value(r, module, st)

	def binding_value(self, r, module, st):
		if r[0] == 'func':
			return self.func_value(r[1], None)
		if r[0] == 'class':
			return mk('class', r[1].qualname)
		if r[0] == 'module':
			return mk('module', r[1].name)
		if r[0] == 'ext':
			self.saw_ext(r[1])
			return ext(ALIAS.get(r[1], r[1]))
		if r[0] == 'assign':
			if r[1] is None:
				return mk('unk', 'global')
			return self.modeval(r[1], r[2], st, None)
		return mk('unk', 'binding')

	# ------------------------------------------------------------------ expressions
	def ev(self, n, st):
		m = getattr(self, 'e_' + type(n).__name__, None)
		self.steps += 1
		if self.steps > BUDGET:
			raise Budget()
		if m is None:
			return mk('unk', type(n).__name__)
		return m(n, st)

	def e_Constant(self, n, st):
		return const(n.value)

	def e_Name(self, n, st):
		return self.lookup_var(n.id, st)

	def e_Attribute(self, n, st):
		o = self.ev(n.value, st)
		return self.getattr(o, n.attr, st, n)

	def e_JoinedStr(self, n, st):
		vs = []
		for v in n.values:
			if isinstance(v, ast.FormattedValue):
				vs.append(self.snap(self.ev(v.value, st), st))
		return mk('call', ext('str.format'), tuple(vs), ())

	def e_FormattedValue(self, n, st):
		return self.ev(n.value, st)

	def e_Tuple(self, n, st):
		out = []
		for x in n.elts:
			if isinstance(x, ast.Starred):
				v = self.ev(x.value, st)
				items = self.concrete_items(v, st)
				if items is None:
					return mk('unk', 'startuple', self.snap(v, st))
				out.extend(items)
			else:
				out.append(self.ev(x, st))
		return mk('tuple', *out)

	def e_List(self, n, st):
		t = self.e_Tuple(n, st)
		if t.op != 'tuple':
			return t
		return self.newlist(t.args, st, n)

	def e_Set(self, n, st):
		return self.newlist([self.ev(x, st) for x in n.elts], st, n, 'set')

	def e_Dict(self, n, st):
		ents = {}
		rest = NONE
		for k, v in zip(n.keys, n.values):
			if k is None:
				o = self.ev(v, st)
				c = self.dictcontent(o, st)
				if c is None:
					rest = self.snap(o, st)
				else:
					ents.update(dict(c.args[0]))
					if c.args[1] is not NONE:
						rest = c.args[1]
				continue
			kk = self.ev(k, st)
			vv = self.ev(v, st)
			if kk.op == 'const':
				ents[kk.args[0]] = vv
			else:
				rest = mk('unk', 'dictent', rest, kk, vv)
		return self.newdict(tuple(ents.items()), rest, st, n)

	def e_Lambda(self, n, st):
		return self.mkclosure(n, st)

	def mkclosure(self, n, st):
		fr = self.frames[-1]
		mod = fr.module if isinstance(fr, ModFrame) else fr.func.module
		parent = None if isinstance(fr, ModFrame) else fr.func
		f = Func(n, mod, None, parent)
		a = n.args
		ds = [self.ev(d, st) for d in a.defaults]
		if isinstance(fr, ModFrame):
			return self.func_value(f, None, ds)
		fr.closures = True
		return self.func_value(f, fr.fid, ds)

	def e_IfExp(self, n, st):
		c = self.snap(self.ev(n.test, st), st)
		v = self.truth(c, st)
		if v is True:
			return self.ev(n.body, st)
		if v is False:
			return self.ev(n.orelse, st)
		s1, s2 = st.copy(), st.copy()
		s1.assume(c, True)
		s2.assume(c, False)
		outs = []
		for s, e in ((s1, n.body), (s2, n.orelse)):
			try:
				r = self.ev(e, s)
			except AbsRaise as ex:
				self.raise_stack[-1].append((s, ex.exc))
				continue
			except AbsDead:
				continue
			s.frames = dict(s.frames)
			s.frames['ife'] = {'v': r}
			outs.append(s)
		if not outs:
			raise AbsDead()
		j = self.join(outs)
		r = j.frames['ife']['v']
		j.frames = dict(j.frames)
		del j.frames['ife']
		st.become(j)
		return r

	def e_BoolOp(self, n, st):
		op = 'and' if isinstance(n.op, ast.And) else 'or'
		acc = None
		pc0 = st.pc
		vals = []
		for x in n.values:
			s = st
			v = self.snap_obj(self.ev(x, s), s)
			t = self.truth(v, st)
			if op == 'and':
				if t is False:
					vals.append(v)
					break
				if t is True and x is not n.values[-1]:
					continue
			else:
				if t is True:
					vals.append(v)
					break
				if t is False and x is not n.values[-1]:
					continue
			vals.append(v)
			st.assume(v, op == 'and')   # later operands are only evaluated under this
		st.pc = pc0
		acc = vals[0]
		for v in vals[1:]:
			acc = mk(op, self.snap(acc, st), self.snap(v, st))
		return acc

	def snap_obj(self, v, st):
		return v

	def e_UnaryOp(self, n, st):
		v = self.ev(n.operand, st)
		if isinstance(n.op, ast.Not):
			t = self.truth(v, st)
			if t is not None:
				return const(not t)
			v = self.snap(v, st)
			return self.unop('not', v)
		v = self.snap(v, st)
		if isinstance(n.op, ast.USub):
			return self.unop('neg', v)
		if isinstance(n.op, ast.UAdd):
			return v
		return self.unop('not', v)

	def unop(self, op, v):
		if op == 'neg':
			if v.op == 'const' and isinstance(v.args[0], (int, float)):
				return const(-v.args[0])
			if v.op == 'neg':
				return v.args[0]
		if op == 'not':
			if v.op == 'const':
				return const(not v.args[0])
			if v.op == 'not':
				return v.args[0]
			if v.op in NEGCMP:
				return mk(NEGCMP[v.op], *v.args)
		return mk(op, v)

	def e_BinOp(self, n, st):
		a = self.ev(n.left, st)
		b = self.ev(n.right, st)
		op = BINOP.get(type(n.op), 'unkop')
		return self.binop(op, a, b, st, n)

	DUNDER = {'add': '__add__', 'mul': '__mul__', 'and': '__and__', 'sub': '__sub__', 'matmul': '__matmul__', 'or': '__or__'}
	RDUNDER = {'add': '__radd__', 'mul': '__rmul__', 'and': '__rand__', 'sub': '__rsub__', 'matmul': '__rmatmul__', 'or': '__ror__'}

	def binop(self, op, a, b, st, node=None):
		for x, y, tab in ((a, b, self.DUNDER), (b, a, self.RDUNDER)):
			if x.op == 'ref' and x.args[0] in self.objclass and op in tab:
				m = self.objclass[x.args[0]].lookup(tab[op])
				if m and m[0] == 'method':
					return self.call_func(self.func_value(m[1], None), [x, y], {}, st, node)
		if op == 'add':
			ca, cb = self.content(a, st), self.content(b, st)
			if ca is not None and cb is not None:
				ia, ib = self.concrete_items(a, st), self.concrete_items(b, st)
				if a.op == 'tuple':
					return mk('tuple', *(ia + ib))
				if ia is not None and ib is not None:
					return self.newlist(ia + ib, st, node)
				return self.newlist(None, st, node, content=mk('lext', ca, self.snap(b, st)))
			if ca is not None and (b.op in ('index', 'field', 'param') or b.op == 'phi'):
				return self.newlist(None, st, node, content=mk('lext', ca, self.snap(b, st)))
		if op == 'mul':
			for x, y in ((a, b), (b, a)):
				cx = self.content(x, st)
				if cx is not None and x.op == 'ref':
					items = self.concrete_items(x, st)
					if items is not None and y.op == 'const' and isinstance(y.args[0], int) and y.args[0] * len(items) < 20:
						return self.newlist(items * y.args[0], st, node)
					return mk('call', ext('list.repeat'), (self.snap(x, st), self.snap(y, st)), ())
		a, b = self.snap(a, st), self.snap(b, st)
		if op == 'mod' and a.op == 'const' and isinstance(a.args[0], str):
			return mk('call', ext('str.format'), (a, b), ())
		if a.op == 'const' and b.op == 'const':
			x, y = a.args[0], b.args[0]
			try:
				if op == 'add': return const(x + y)
				if op == 'sub': return const(x - y)
				if op == 'mul': return const(x * y)
				if op == 'div': return const(x / y)
				if op == 'floordiv': return const(x // y)
				if op == 'mod': return const(x % y)
				if op == 'pow' and abs(y) < 64: return const(x ** y)
				if op == 'and' and isinstance(x, bool): return const(x and y)
				if op == 'or' and isinstance(x, bool): return const(x or y)
			except Exception:
				pass
		return mk(op, a, b)

	def e_Compare(self, n, st):
		left = self.ev(n.left, st)
		res = None
		for op, r in zip(n.ops, n.comparators):
			right = self.ev(r, st)
			c = self.cmp(CMPOP[type(op)], left, right, st)
			res = c if res is None else (self.binop('and', res, c, st) if not is_const(res, True) else c)
			if is_const(res, False):
				return res
			left = right
		return res

	def e_Subscript(self, n, st):
		b = self.ev(n.value, st)
		i = self.ev_index(n.slice, st)
		return self.index(b, i, st)

	def ev_index(self, s, st):
		if isinstance(s, ast.Slice):
			return mk('slice', *[self.snap(self.ev(x, st), st) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
		if isinstance(s, ast.Tuple):
			return mk('tuple', *[self.ev_index(x, st) for x in s.elts])
		return self.snap(self.ev(s, st), st)

	e_Slice = ev_index

	def index(self, b, i, st):
		if b.op == 'ref' and b.args[1] == 'dict':
			c = self.dictcontent(b, st)
			if c is not None and i.op == 'const':
				d = dict(c.args[0])
				if i.args[0] in d:
					v = d[i.args[0]]
					if v.op == 'phi' and any(x is UNDEF for _, x in v.args):
						live = [(pc, x) for pc, x in v.args if x is not UNDEF]
						v = live[0][1] if len(live) == 1 else self.phi(live)
					return v
				if c.args[1] is NONE:
					self.raise_stack[-1].append((st.copy(), 'KeyError'))
			return mk('index', self.snap(b, st), i)
		items = None
		if b.op in ('list', 'tuple') or b.op == 'ref' and b.args[1] == 'list':
			items = self.concrete_items(b, st)
		if items is not None and i.op == 'const' and isinstance(i.args[0], int):
			try:
				return items[i.args[0]]
			except IndexError:
				raise AbsRaise('IndexError')
		if items is not None and i.op == 'slice' and all(x.op == 'const' for x in i.args):
			sl = items[slice(*[x.args[0] for x in i.args])]
			return mk('tuple', *sl) if b.op == 'tuple' else mk('list', *sl)
		if items is not None and len(items) <= 12 and items and i.op not in ('slice', 'tuple') and not (i.op == 'const'):
			return mk('anyof', i, *items)
		if b.op == 'const' and i.op == 'const':
			try:
				return const(b.args[0][i.args[0]])
			except Exception:
				pass
		if b.op == 'phi' and i.op == 'const' and all(v.op in ('tuple', 'list') for _, v in b.args):
			try:
				return self.phi([(pc, self.index(v, i, st)) for pc, v in b.args])
			except AbsRaise:
				pass
		b = self.snap(b, st)
		if b.op == 'map' and i.op in ('idx',):
			return subst_idx(b.args[0], b.args[1], i)
		if b.op == 'update' and b.args[1] is i:
			return b.args[2]
		return mk('index', b, i)

	def e_Call(self, n, st):
		if isinstance(n.func, ast.Attribute):
			n.func._is_callee = True
		f = self.ev(n.func, st)
		args = []
		kwargs = {}
		for a in n.args:
			if isinstance(a, ast.Starred):
				v = self.ev(a.value, st)
				items = self.concrete_items(v, st)
				if items is not None:
					args.extend(items)
				else:
					args.append(mk('stararg', self.snap(v, st)))
			else:
				args.append(self.ev(a, st))
		for k in n.keywords:
			v = self.ev(k.value, st)
			if k.arg is None:
				c = self.dictcontent(v, st)
				if c is not None:
					for kk, vv in c.args[0]:
						kwargs.setdefault(kk, vv)
					if c.args[1] is not NONE:
						kwargs['**'] = c.args[1]
				else:
					kwargs['**'] = self.snap(v, st)
			else:
				kwargs[k.arg] = v
		return self.call(f, args, kwargs, st, n)

	def loopkey(self, node):
		return '%s|%s' % ('>'.join(self.ctx), self.node_key(node))

	def comp(self, n, elts, st, kind):
		# concrete unrolling of the first generator when possible
		fr = self.frames[-1]
		saved_env = None
		if isinstance(fr, ModFrame):
			tmp = Frame(Func(ast.parse('def _(): pass').body[0], fr.module), self.fid + 1)
			self.fid += 1
			st.frames = dict(st.frames)
			st.frames[tmp.fid] = {}
			self.frames.append(tmp)
		else:
			tmp = None
		fid = self.frames[-1].fid
		targets = set()
		for g in n.generators:
			for x in ast.walk(g.target):
				if isinstance(x, ast.Name):
					targets.add(x.id)
		old = {k: st.frames[fid].get(k) for k in targets}
		try:
			r = self._comp(n, 0, elts, st, n.generators)
		finally:
			env = dict(st.frames[fid])
			for k, v in old.items():
				if v is None:
					env.pop(k, None)
				else:
					env[k] = v
			st.frames = dict(st.frames)
			st.frames[fid] = env
			if tmp is not None:
				self.frames.pop()
		return r

	def _comp(self, n, gi, elts, st, gens):
		"""returns ('items',[T..]) or ('sym', T)"""
		if gi == len(gens):
			vs = [self.ev(e, st) for e in elts]
			return ('items', [vs[0] if len(vs) == 1 else mk('tuple', *vs)])
		g = gens[gi]
		it = self.ev(g.iter, st)
		items = self.concrete_items(it, st)
		if items is not None and len(items) <= 40:
			out = []
			sym = None
			for j, x in enumerate(items):
				octx = self.ctx
				self.ctx = octx + ('u%d' % j,)
				try:
					self.assign(g.target, x, st)
					ok = True
					conds = []
					for c in g.ifs:
						cv = self.snap(self.ev(c, st), st)
						t = self.truth(cv, st)
						if t is False:
							ok = False
							break
						if t is None:
							conds.append(cv)
					if not ok:
						continue
					k, v = self._comp(n, gi + 1, elts, st, gens)
				finally:
					self.ctx = octx
				if conds or k == 'sym':
					sym = True
					vv = mk('list', *v) if k == 'items' else v
					out.append(('cond', tuple(conds), vv))
				else:
					out.extend(('v', (), x) for x in v)
			if not sym:
				return ('items', [x for _, _, x in out])
			t = mk('list')
			for kind, conds, v in out:
				if kind == 'v':
					t = mk('list', *(t.args + (v,))) if t.op == 'list' else mk('lapp', t, v)
				else:
					add = mk('lext', t, v)
					t = add if not conds else mk('phi', (tuple((c, True) for c in conds), add), (((mk('allof', *conds), False),), t))
			return ('sym', t)
		key = self.loopkey(g.iter)
		LOOPS[key] = self.snap(it, st)
		x = self.elem(it, key, st)
		self.assign(g.target, x, st)
		conds = []
		pc0 = st.pc
		for c in g.ifs:
			cv = self.snap(self.ev(c, st), st)
			conds.append(cv)
			st.assume(cv, True)
		k, v = self._comp(n, gi + 1, elts, st, gens)
		st.pc = pc0
		if k == 'items':
			body = self.snap(v[0], st) if len(v) == 1 else mk('list', *[self.snap(y, st) for y in v])
			if len(v) == 1:
				return ('sym', mk('map', body, key, (self.snap(it, st),), tuple(conds)))
			return ('sym', mk('flat', mk('map', body, key, (self.snap(it, st),), tuple(conds))))
		return ('sym', mk('flat', mk('map', v, key, (self.snap(it, st),), tuple(conds))))

	def e_ListComp(self, n, st):
		k, v = self.comp(n, [n.elt], st, 'list')
		if k == 'items':
			return self.newlist(v, st, n)
		return self.newlist(None, st, n, content=v) if v.op in ('list', 'lapp', 'lext', 'phi') else v

	def e_GeneratorExp(self, n, st):
		return self.e_ListComp(n, st)

	def e_SetComp(self, n, st):
		k, v = self.comp(n, [n.elt], st, 'set')
		return mk('unk', 'set', *(v if k == 'items' else [v]))

	def e_DictComp(self, n, st):
		k, v = self.comp(n, [n.key, n.value], st, 'dict')
		if k == 'items' and all(x.args[0].op == 'const' for x in v):
			return self.newdict(tuple((x.args[0].args[0], x.args[1]) for x in v), NONE, st, n)
		return mk('unk', 'dictcomp', *([self.snap(x, st) for x in v] if k == 'items' else [v]))

	def e_Starred(self, n, st):
		return mk('stararg', self.snap(self.ev(n.value, st), st))

	def e_Yield(self, n, st):
		v = self.ev(n.value, st) if n.value is not None else NONE
		fr = self.frames[-1]
		self.list_method(fr.yields, 'append', [v], {}, st, n)
		return NONE

	def e_YieldFrom(self, n, st):
		v = self.ev(n.value, st)
		fr = self.frames[-1]
		self.list_method(fr.yields, 'extend', [v], {}, st, n)
		return NONE

	def e_NamedExpr(self, n, st):
		v = self.ev(n.value, st)
		self.assign(n.target, v, st)
		return v

	# ------------------------------------------------------------------ assignment
	def assign(self, t, v, st):
		if isinstance(t, ast.Name):
			fr = self.frames[-1]
			st.set(fr.fid, t.id, v)
		elif isinstance(t, (ast.Tuple, ast.List)):
			star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
			items = self.concrete_items(v, st)
			if items is None and v.op == 'phi' and all(x.op in ('tuple', 'list') and len(x.args) == len(t.elts) for _, x in v.args):
				items = [self.phi([(pc, x.args[i]) for pc, x in v.args]) for i in range(len(t.elts))]
			if items is not None and not star and len(items) == len(t.elts):
				for e, x in zip(t.elts, items):
					self.assign(e, x, st)
			else:
				for i, e in enumerate(t.elts):
					if isinstance(e, ast.Starred):
						self.assign(e.value, mk('index', self.snap(v, st), mk('slice', const(i), NONE, NONE)), st)
					else:
						self.assign(e, self.index(v, const(i), st) if items is None else mk('unk', 'unpack'), st)
		elif isinstance(t, ast.Attribute):
			o = self.ev(t.value, st)
			self.setattr(o, t.attr, v, st, t)
		elif isinstance(t, ast.Subscript):
			self.store_sub(t, v, st)
		elif isinstance(t, ast.Starred):
			self.assign(t.value, v, st)

	def store_sub(self, t, v, st):
		b = self.ev(t.value, st)
		i = self.ev_index(t.slice, st)
		if b.op == 'ref' and b.args[1] == 'dict':
			c = self.dictcontent(b, st) or mk('dict', (), mk('unk', 'lost'))
			if i.op == 'const':
				d = dict(c.args[0])
				d[i.args[0]] = v
				st.heap[(b.args[0], '#')] = mk('dict', tuple(d.items()), c.args[1])
			else:
				st.heap[(b.args[0], '#')] = mk('dict', c.args[0], mk('unk', 'dictent', c.args[1], i, self.snap(v, st)))
			return
		if b.op == 'ref' and b.args[1] == 'list':
			items = self.concrete_items(b, st)
			if items is not None and i.op == 'const' and isinstance(i.args[0], int) and -len(items) <= i.args[0] < len(items):
				items[i.args[0]] = v
				st.heap[(b.args[0], '#')] = mk('list', *items)
			else:
				st.heap[(b.args[0], '#')] = mk('update', self.snap(b, st), i, self.snap(v, st))
			return
		self.note('store', (b, i, v), st, t)
		nv = mk('update', self.snap(b, st), i, self.snap(v, st))
		self.rebind(t.value, nv, b, st)

	def rebind(self, target, nv, old, st):
		if isinstance(target, ast.Name):
			fr = self.frames[-1]
			fid = fr.fid
			env = st.frames[fid]
			if target.id in env:
				st.set(fid, target.id, nv)
			else:   # closure variable: update the defining frame
				seen = 0
				while env is not None and seen < 20:
					c = env.get('$closure')
					if c is None or c.args[0] == -1:
						break
					fid = c.args[0]
					env = st.frames.get(fid)
					if env is not None and target.id in env:
						st.frames = dict(st.frames)
						st.set(fid, target.id, nv)
						return
					seen += 1
		elif isinstance(target, ast.Attribute):
			o = self.ev(target.value, st)
			if o.op == 'ref' and o.args[0] in self.objclass:
				cls = self.objclass[o.args[0]]
				m = cls.lookup(target.attr)
				if m and m[0] == 'method' and m[1].is_property:
					# in-place write through a property: find the cell that holds the array
					for k, x in list(st.heap.items()):
						if x is old and k[0] == o.args[0]:
							st.heap[k] = nv
					return
				st.heap[(o.args[0], target.attr)] = nv
			else:
				st.heap[(o, target.attr)] = nv
		elif isinstance(target, ast.Subscript):
			self.store_sub(target, nv, st)

	# ------------------------------------------------------------------ statements
	def block(self, stmts, st):
		for s in stmts:
			if st is None:
				return None
			st = self.stmt(s, st)
		return st

	def stmt(self, s, st):
		m = getattr(self, 's_' + type(s).__name__, None)
		if m is None:
			return st
		try:
			return m(s, st)
		except AbsRaise as e:
			self.raise_stack[-1].append((st, e.exc))
			self.note('raise', e.exc, st, s)
			return None
		except AbsDead:
			return None

	def s_Expr(self, s, st):
		self.ev(s.value, st)
		return st

	def s_Assign(self, s, st):
		v = self.ev(s.value, st)
		for t in s.targets:
			self.assign(t, v, st)
		return st

	def s_AnnAssign(self, s, st):
		if s.value is not None:
			self.assign(s.target, self.ev(s.value, st), st)
		return st

	def s_AugAssign(self, s, st):
		op = BINOP.get(type(s.op), 'unkop')
		t = s.target
		if isinstance(t, ast.Name):
			cur = self.lookup_var(t.id, st)
			rhs = self.ev(s.value, st)
			if cur.op == 'ref' and cur.args[1] == 'list' and op == 'add':
				self.list_method(cur, 'extend', [rhs], {}, st, s)
				return st
			self.note('augassign', (cur, t.id), st, s)
			self.assign(t, self.binop(op, cur, rhs, st, s), st)
			return st
		if isinstance(t, ast.Attribute):
			o = self.ev(t.value, st)
			cur = self.getattr(o, t.attr, st, t)
			rhs = self.ev(s.value, st)
			if cur.op == 'ref' and cur.args[1] == 'list' and op == 'add':
				self.list_method(cur, 'extend', [rhs], {}, st, s)
				return st
			self.setattr(o, t.attr, self.binop(op, cur, rhs, st, s), st, t)
			return st
		if isinstance(t, ast.Subscript):
			b = self.ev(t.value, st)
			i = self.ev_index(t.slice, st)
			cur = self.index(b, i, st)
			rhs = self.ev(s.value, st)
			self.store_sub(t, self.binop(op, cur, rhs, st, s), st)
			return st
		return st

	def s_Return(self, s, st):
		v = self.ev(s.value, st) if s.value is not None else NONE
		if v.op == 'ref' and v.args[1] in ('list', 'dict'):
			pass
		self.frames[-1].returns.append((st, v))
		self.note('return', v, st, s)
		return None

	def s_Raise(self, s, st):
		name = 'Exception'
		if s.exc is not None:
			e = s.exc
			if isinstance(e, ast.Call):
				for a in e.args:
					try:
						self.ev(a, st)
					except (AbsRaise, AbsDead):
						pass
				e = e.func
			try:
				v = self.ev(e, st)
				if v.op == 'class':
					name = v.args[0]
				elif v.op == 'ext':
					name = v.args[0].replace('builtins.', '')
				elif v.op == 'excvar':
					name = v.args[0]
				elif v.op == 'ref' and v.args[0] in self.objclass:
					name = self.objclass[v.args[0]].qualname
			except AbsRaise as ex:
				name = ex.exc
		else:
			name = '__reraise__'
		self.note('raise', name, st, s)
		self.raise_stack[-1].append((st, name))
		return None

	def s_Assert(self, s, st):
		pc0 = st.pc
		c = self.snap(self.ev(s.test, st), st)
		v = self.truth(c, st)
		if v is not True:
			f = st.copy()
			f.assume(c, False)
			self.raise_stack[-1].append((f, 'AssertionError'))
			self.note('assert', c, st, s)
			if v is False:
				return None
			st.assume(c, True)
		return st

	def s_Delete(self, s, st):
		return st

	def s_Pass(self, s, st):
		return st

	def s_Global(self, s, st):
		return st

	s_Nonlocal = s_Global

	def s_FunctionDef(self, s, st):
		f = self.mkclosure(s, st)
		st.set(self.frames[-1].fid, s.name, f)
		return st

	def s_ClassDef(self, s, st):
		fr = self.frames[-1]
		mod = fr.module if isinstance(fr, ModFrame) else fr.func.module
		c = Class(s, mod)
		self.classes[c.qualname] = c
		st.set(fr.fid, s.name, mk('class', c.qualname))
		return st

	def s_Import(self, s, st):
		mod = self.frames[-1].func.module
		for n, b in mod.import_bindings(s):
			if n == '*':
				continue
			r = self.P._deref(b, set())
			st.set(self.frames[-1].fid, n, self.binding_value(r, mod, st) if r is not None else mk('unk', 'import'))
		return st

	s_ImportFrom = s_Import

	def s_If(self, s, st):
		c = self.snap(self.ev(s.test, st), st)
		v = self.truth(c, st)
		if v is True:
			return self.block(s.body, st)
		if v is False:
			return self.block(s.orelse, st)
		s1, s2 = st.copy(), st.copy()
		s1.assume(c, True)
		s2.assume(c, False)
		o1 = self.block(s.body, s1)
		o2 = self.block(s.orelse, s2)
		if o1 is None and o2 is None:
			return None
		if o1 is None or o2 is None:
			return o1 or o2
		return self.join([o1, o2])

	def s_With(self, s, st):
		for it in s.items:
			v = self.ev(it.context_expr, st)
			if it.optional_vars is not None:
				self.assign(it.optional_vars, v, st)
		return self.block(s.body, st)

	# -- loops
	def s_For(self, s, st):
		it = self.ev(s.iter, st)
		items = self.concrete_items(it, st)
		if items is not None and len(items) <= 12:
			return self.unrolled(s, items, st)
		return self.loop(s, st, it)

	def unrolled(self, s, items, st):
		fr = self.frames[-1]
		brk = []
		cur = st
		for j, x in enumerate(items):
			fr.loops.append(([], []))
			octx = self.ctx
			self.ctx = octx + ('%s#%d' % (self.node_key(s), j),)
			try:
				self.assign(s.target, x, cur)
				end = self.block(s.body, cur)
			finally:
				b, c = fr.loops.pop()
				self.ctx = octx
			brk.extend(b)
			cur = self.join([end] + c)
			if cur is None:
				break
		if cur is not None and s.orelse:
			cur = self.block(s.orelse, cur)
		return self.join([cur] + brk)

	def s_While(self, s, st):
		return self.loop(s, st, None)

	def loop(self, s, st, it):
		fr = self.frames[-1]
		key = self.loopkey(s)
		changed = {}
		for attempt in range(4):
			h = st.copy()
			for (kind, k), mu in changed.items():
				if kind == 'v':
					h.set(fr.fid, k, mu)
				elif kind == 'V':
					h.frames = dict(h.frames)
					e = dict(h.frames[k[0]])
					e[k[1]] = mu
					h.frames[k[0]] = e
				else:
					h.heap[k] = mu
			header = h.copy()
			fr.loops.append(([], []))
			nret = len(fr.returns)
			nraise = len(self.raise_stack[-1])
			nev = len(self.events)
			cond = None
			exit_st = None
			body = h
			try:
				if it is not None:
					body.assume(mk('loop', key), True)
					LOOPS[key] = self.snap(it, body)
					x = self.elem(it, key, body)
					self.assign(s.target, x, body)
					exit_st = header.copy()
				else:
					cond = self.snap(self.ev(s.test, body), body)
					v = self.truth(cond, body)
					exit_st = None
					if v is not True:
						exit_st = body.copy()
						exit_st.assume(cond, False)
					if v is False:
						body = None
					else:
						body.assume(mk('loop', key), True)
						body.assume(cond, True)
				end = self.block(s.body, body) if body is not None else None
			except AbsRaise as e:
				self.raise_stack[-1].append((h, e.exc))
				end = None
			except AbsDead:
				end = None
			finally:
				b, c = fr.loops.pop()
			back = self.join([x for x in [end] + c if x is not None])
			new = {}
			if back is not None:
				env0 = header.frames[fr.fid]
				env1 = back.frames[fr.fid]
				for n in set(env0) | set(env1):
					if env0.get(n) is not env1.get(n):
						new[('v', n)] = (env0.get(n, UNDEF), env1.get(n, UNDEF))
				for f in header.frames:
					if f != fr.fid and f in back.frames and header.frames[f] is not back.frames[f]:
						for n in set(header.frames[f]) | set(back.frames[f]):
							if header.frames[f].get(n) is not back.frames[f].get(n):
								new[('V', (f, n))] = (header.frames[f].get(n, UNDEF), back.frames[f].get(n, UNDEF))
				for k in set(header.heap) | set(back.heap):
					if header.heap.get(k) is not back.heap.get(k):
						if k not in header.heap and k[1] == '#':
							continue    # allocated inside the body
						new[('h', k)] = (header.heap.get(k, UNDEF), back.heap.get(k, UNDEF))
			fresh_cells = [k for k in new if k not in changed]
			if not fresh_cells:
				# record the loop-carried definitions
				for k, mu in changed.items():
					d = new.get(k)
					MU[mu]['back'] = d[1] if d is not None else mu
				outs = []
				if exit_st is not None:
					if s.orelse:
						exit_st = self.block(s.orelse, exit_st)
					if exit_st is not None:
						outs.append(exit_st)
				outs += b
				# loop markers do not constrain what follows
				for o in outs:
					o.pc = tuple(x for x in o.pc if x[0] is not mk('loop', key) ) if False else o.pc
				return self.join(outs)
			# roll back side outputs of the trial pass and retry with mu cells
			del fr.returns[nret:]
			del self.raise_stack[-1][nraise:]
			del self.events[nev:]
			for k in fresh_cells:
				init = new[k][0]
				if k[0] == 'v':
					init = st.frames[fr.fid].get(k[1], UNDEF)
				elif k[0] == 'h':
					init = st.heap.get(k[1], UNDEF)
				mu = mk('mu', key, '%s' % (k[1] if k[0] == 'v' else k[1][1],), repr(_key(k[1]) if k[0] == 'h' else k[1]))
				MU[mu] = {'init': init, 'back': None, 'loop': key}
				changed[k] = mu
		# did not stabilise: keep the last approximation
		for k, mu in changed.items():
			d = new.get(k)
			MU[mu]['back'] = d[1] if d is not None else mu
		return self.join([x for x in [exit_st] + b if x is not None])

	def s_Break(self, s, st):
		self.frames[-1].loops[-1][0].append(st)
		return None

	def s_Continue(self, s, st):
		self.frames[-1].loops[-1][1].append(st)
		return None

	# -- exceptions
	def s_Try(self, s, st):
		start = st.copy()
		self.raise_stack.append([])
		saved_attr = self.may_attr
		self.may_attr = False
		nev = len(self.events)
		ncalls = self.callsites
		try:
			end = self.block(s.body, st)
		finally:
			raised = self.raise_stack.pop()
		may_attr = self.may_attr
		self.may_attr = saved_attr or may_attr
		hadcalls = self.callsites > ncalls
		outs = []
		remaining = list(raised)
		for h in s.handlers:
			names = self.exc_names(h.type, start)
			caught = [(x, e) for x, e in remaining if self.exc_match(e, names)]
			remaining = [(x, e) for x, e in remaining if not self.exc_match(e, names)]
			entry = [x for x, _ in caught]
			soft = names is not None and all(n in ('AttributeError', 'NameError') for n in names)
			implicit = (may_attr if soft else True)
			if names is not None and all(n in self.classes for n in names) and not caught:
				# only raised by the package itself: if no analysed path raises it, unreachable
				implicit = False
			if names is not None and all(n == 'AssertionError' for n in names):
				implicit = False
			if names is not None and all(n == 'KeyError' for n in names) and not hadcalls:
				implicit = bool(caught)
			if implicit:
				i1 = start.copy()
				i1.assume(mk('exc', self.loopkey(s), 0), True)
				entry.append(i1)
				if end is not None and not soft:
					i2 = end.copy()
					i2.assume(mk('exc', self.loopkey(s), 1), True)
					entry.append(i2)
			if not entry:
				continue
			hs = self.join([x.copy() for x in entry])
			if h.name:
				hs.set(self.frames[-1].fid, h.name, mk('excvar', caught[0][1] if caught else (names[0] if names else 'Exception')))
			self.handler_names = getattr(self, 'handler_names', [])
			self.handler_names.append(names)
			mark = len(self.raise_stack[-1])
			o = self.block(h.body, hs)
			self.handler_names.pop()
			for i in range(mark, len(self.raise_stack[-1])):
				x, e = self.raise_stack[-1][i]
				if e == '__reraise__':
					self.raise_stack[-1][i] = (x, caught[0][1] if caught else (names[0] if names else 'Exception'))
			if o is not None:
				outs.append(o)
		self.raise_stack[-1].extend(remaining)
		if end is not None and s.orelse:
			end = self.block(s.orelse, end)
		if end is not None:
			outs.insert(0, end)
		r = self.join(outs)
		if s.finalbody and r is not None:
			r = self.block(s.finalbody, r)
		elif s.finalbody:
			self.block(s.finalbody, start.copy())
		return r

	def exc_names(self, t, st):
		if t is None:
			return None
		if isinstance(t, ast.Tuple):
			out = []
			for e in t.elts:
				out += self.exc_names(e, st) or ['Exception']
			return out
		try:
			v = self.ev(t, st)
		except (AbsRaise, AbsDead):
			return ['?']
		if v.op == 'class':
			return [v.args[0]]
		if v.op == 'ext':
			return [v.args[0].replace('builtins.', '')]
		return ['?']

	def exc_match(self, e, names):
		if names is None:
			return True
		for n in names:
			if n == e or n in ('Exception', 'BaseException'):
				return True
			if e in self.classes and n in self.classes:
				if self.classes[e].is_subclass(self.classes[n]):
					return True
			a, b = getattr(_bi, e, None), getattr(_bi, n, None)
			if isinstance(a, type) and isinstance(b, type) and issubclass(a, b):
				return True
		return False


class ModFrame:
	func = None

	def __init__(self, module):
		self.module = module
		self.fid = None
		self.closures = False
		self.returns = []
		self.loops = []


def own_nodes(fn):
	"""nodes of a function body, not descending into nested functions"""
	stack = list(ast.iter_child_nodes(fn))
	while stack:
		n = stack.pop()
		yield n
		if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
			stack.extend(ast.iter_child_nodes(n))


def may_undef(v):
	return v is UNDEF or v.op == 'phi' and any(x is UNDEF for _, x in v.args)


def fresh_key(alts):
	return 'alts:' + ','.join(str(v.id) for _, v in alts)


def static_shape(t):
	"""the shape tuple, where the constructor spells it out"""
	while t.op == 'update':
		t = t.args[0]
	if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full') and t.args[1]:
		a = t.args[1][0]
		if a.op in ('tuple', 'list'):
			return mk('tuple', *a.args)
		if a.op == 'const':
			return mk('tuple', a)
	return None


def subst_idx(t, key, new):
	memo = {}
	old = mk('idx', key)

	def go(x):
		if isinstance(x, tuple):
			return tuple(go(y) for y in x)
		if not isinstance(x, T):
			return x
		if x is old:
			return new
		if x in memo:
			return memo[x]
		if x.op == 'mu':
			return x
		memo[x] = x
		r = mk(x.op, *[go(a) for a in x.args])
		memo[x] = r
		return r
	return go(t)
