"""G05: a failed solve is reported, never returned as an answer (typestate of every solve site)."""
import ast
from ..loader import AnalysisBroken
from ..alias import params_of

FAIL = {'cvxpy': ['infeasible', 'unbounded', 'infeasible_inaccurate', 'unbounded_inaccurate', 'raises'],
	'cvxopt': ['primal infeasible', 'dual infeasible']}
CONST = {'OPTIMAL': 'optimal', 'OPTIMAL_INACCURATE': 'optimal_inaccurate', 'INFEASIBLE': 'infeasible', 'INFEASIBLE_INACCURATE': 'infeasible_inaccurate',
	'UNBOUNDED': 'unbounded', 'UNBOUNDED_INACCURATE': 'unbounded_inaccurate', 'SOLVER_ERROR': 'solver_error', 'USER_LIMIT': 'user_limit'}
BUILTIN_SUP = {'Exception', 'BaseException'}
LIMIT = 4000
CACHED = ('._empty', '._unbounded', '._point')
# what a stored verdict may be after a solve with that outcome
ALLOWED = {'_empty': {'infeasible': {True}, 'infeasible_inaccurate': {True}, 'optimal': {False}, 'unbounded': {False}, 'unbounded_inaccurate': {False}, 'raises': set()},
	'_unbounded': {'infeasible': {False}, 'infeasible_inaccurate': {False}, 'optimal': set(), 'unbounded': {True}, 'unbounded_inaccurate': {True}, 'raises': set()},
	'_point': {'infeasible': {False}, 'infeasible_inaccurate': {False}, 'optimal': set(), 'unbounded': {False}, 'unbounded_inaccurate': {False}, 'raises': set()}}


class Overflow(Exception):
	pass


class St:
	"""abstract state: the outcome of the last solve and what names hold"""
	__slots__ = ('out', 'al')

	def __init__(self, out=None, al=()):
		self.out, self.al = out, frozenset(al)

	def key(self):
		return (self.out, self.al)

	def __hash__(self):
		return hash(self.key())

	def __eq__(self, o):
		return self.key() == o.key()

	def get(self, n):
		for k, v in self.al:
			if k == n:
				return v
		return None

	def set(self, n, v):
		al = {(k, w) for k, w in self.al if k != n}
		if v is not None:
			al.add((n, v))
		return St(self.out, al)

	def solved(self, out):
		return St(out, {(k, v) for k, v in self.al if v[0] in ('prob', 'param', 'list', 'failval')})


def name_of(e):
	if isinstance(e, ast.Name):
		return e.id
	if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
		return e.value.id + '.' + e.attr
	return None


class Walk:
	def __init__(self, P, f, outcome, kind, inject=None, depth=0, node=None, only=None):
		self.P, self.f, self.outcome, self.kind = P, f, outcome, kind
		self.only = only       # the one solve that ends this way; the others are optimal
		self.inject = inject or {}
		self.depth = depth
		self.node = node or f.node
		self.reads = []        # (node, what)
		self.writes = []       # verdicts stored on the object: (attribute, value, outcome, node)
		self.steps = 0
		self.solves = 0
		self.nested = {n.name: n for n in ast.walk(self.node) if isinstance(n, ast.FunctionDef) and n is not self.node}
		a = self.node.args
		ps = a.posonlyargs + a.args
		self.me = ps[0].arg if f.cls is not None and ps and not f.is_static else None

	# exits: dict kind -> list of (state, info)
	def run(self, st=None):
		ex = self.block(self.node.body, {st or St()})
		return ex

	def block(self, body, states):
		out = {'fall': set(states), 'break': set(), 'continue': set(), 'return': [], 'raise': []}
		cur = set(states)
		for s in body:
			if not cur:
				break
			nxt = set()
			for st in cur:
				self.steps += 1
				if self.steps > LIMIT:
					raise Overflow
				e = self.stmt(s, st)
				nxt |= e['fall']
				out['break'] |= e['break']
				out['continue'] |= e['continue']
				out['return'] += e['return']
				out['raise'] += e['raise']
			cur = nxt
		out['fall'] = cur
		return out

	@staticmethod
	def ex(fall=(), brk=(), cont=(), ret=(), rai=()):
		return {'fall': set(fall), 'break': set(brk), 'continue': set(cont), 'return': list(ret), 'raise': list(rai)}

	@staticmethod
	def merge(a, b):
		return {'fall': a['fall'] | b['fall'], 'break': a['break'] | b['break'], 'continue': a['continue'] | b['continue'], 'return': a['return'] + b['return'], 'raise': a['raise'] + b['raise']}

	def stmt(self, s, st):
		if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Delete)):
			return self.ex([st])
		if isinstance(s, ast.Expr):
			r = self.ev(s.value, st)
			return self.ex([x for x, _ in r[0]], rai=r[1])
		if isinstance(s, ast.Assign):
			early = len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Attribute) and s.value.attr == 'value' \
				and st.out in FAIL[self.kind] and self.is_value(s.value, st)
			# a value only taken aside is not an answer yet: it counts where it is used
			res, rai = ([(st, ('failval', st.out))], []) if early else self.ev(s.value, st)
			fall = set()
			for x, v in res:
				for t in s.targets:
					n = name_of(t)
					if n and n.endswith(CACHED) and v is not None and v[0] == 'const':
						self.writes.append((n.split('.')[-1], v[1], x.out, t))
					x = self.assign(t, v, x, s.value)
				fall.add(x)
			return self.ex(fall, rai=rai)
		if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
			if s.value is None:
				return self.ex([st])
			res, rai = self.ev(s.value, st)
			return self.ex([x for x, _ in res], rai=rai)
		if isinstance(s, ast.Return):
			if s.value is None:
				return self.ex(ret=[(st, s, ('const', None))])
			res, rai = self.ev(s.value, st)
			return self.ex(ret=[(x, s, v) for x, v in res], rai=rai)
		if isinstance(s, ast.Raise):
			return self.ex(rai=[(st, self.excname(s.exc), s)])
		if isinstance(s, ast.Assert):
			e = self.ex()
			for x, v in self.cond(s.test, st):
				if v is not False:
					e['fall'].add(x)
				if v is False or v is None and False:
					e['raise'].append((x, 'AssertionError', s))
			return e
		if isinstance(s, ast.If):
			e = self.ex()
			for x, v in self.cond(s.test, st):
				if v is not False:
					e = self.merge(e, self.block(s.body, {x}))
				if v is not True:
					e = self.merge(e, self.block(s.orelse, {x}))
			e['raise'] += self.condraise
			return e
		if isinstance(s, (ast.For, ast.While)):
			e = self.ex()
			start = {st}
			if isinstance(s, ast.For):
				res, rai = self.ev(s.iter, st)
				start = {x for x, _ in res}
				e['raise'] += rai
			seen = set(start)
			work = set(start)
			exits = set(start)
			if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
				exits = set()
			while work:
				nxt = set()
				for x0 in work:
					if isinstance(s, ast.While):
						ent = {x for x, v in self.cond(s.test, x0) if v is not False}
					else:
						ent = {self.assign(s.target, None, x0, None)}
					b = self.block(s.body, ent)
					e['return'] += b['return']
					e['raise'] += b['raise']
					e['fall'] |= b['break']
					nxt |= b['fall'] | b['continue']
				if not (isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value):
					exits |= nxt
				work = nxt - seen
				seen |= nxt
			if s.orelse:
				o = self.block(s.orelse, exits)
				e = self.merge(e, o)
			else:
				e['fall'] |= exits
			return e
		if isinstance(s, ast.Try):
			b = self.block(s.body, {st})
			e = self.ex(b['fall'], b['break'], b['continue'], b['return'])
			if s.orelse:
				o = self.block(s.orelse, b['fall'])
				e = self.merge(self.ex((), b['break'], b['continue'], b['return']), o)
			for x, exc, node in b['raise']:
				caught = False
				for h in s.handlers:
					m = self.matches(h.type, exc)
					if m:
						e = self.merge(e, self.block(h.body, {x}))
						caught = True
						break
				if not caught:
					e['raise'].append((x, exc, node))
			# handlers for exceptions this analysis does not raise itself
			for h in s.handlers:
				e = self.merge(e, self.other(h, st))
			if s.finalbody:
				fin = set()
				for x in e['fall']:
					f = self.block(s.finalbody, {x})
					fin |= f['fall']
					e['return'] += f['return']
					e['raise'] += f['raise']
				e['fall'] = fin
			return e
		if isinstance(s, (ast.With, ast.AsyncWith)):
			cur, rai = {st}, []
			for it in s.items:
				nx = set()
				for x in cur:
					r = self.ev(it.context_expr, x)
					nx |= {y for y, _ in r[0]}
					rai += r[1]
				cur = nx
			b = self.block(s.body, cur)
			b['raise'] = rai + b['raise']
			return b
		if isinstance(s, ast.Break):
			return self.ex(brk=[st])
		if isinstance(s, ast.Continue):
			return self.ex(cont=[st])
		return self.ex([st])

	condraise = ()

	def other(self, h, st):
		"""the handler entered for an unrelated reason, before anything was solved: keeps the state at the try"""
		if st.out is not None:
			return self.ex()
		return self.block(h.body, {st})

	def excname(self, e):
		if e is None:
			return 'reraise'
		if isinstance(e, ast.Call):
			e = e.func
		if isinstance(e, ast.Attribute):
			return e.attr
		if isinstance(e, ast.Name):
			return e.id
		return 'Exception'

	def matches(self, t, exc):
		if t is None:
			return True
		names = [self.excname(x) for x in t.elts] if isinstance(t, ast.Tuple) else [self.excname(t)]
		for n in names:
			if n == exc or n in BUILTIN_SUP:
				return True
			if exc == 'reraise':
				return True
		return False

	# assignment -------------------------------------------------------------------
	def assign(self, t, v, st, val):
		if isinstance(t, (ast.Tuple, ast.List)):
			for e in t.elts:
				st = self.assign(e, None, st, None)
			return st
		n = name_of(t)
		if n is None:
			return st
		if v is not None and v[0] in ('status', 'bool', 'val', 'failval', 'sol', 'prob', 'param', 'none'):
			return st.set(n, v)
		if v is not None and v[0] == 'list':
			return st.set(n, v)
		if v is not None and v[0] == 'const' and isinstance(v[1], str):
			return st.set(n, ('word', v[1]))
		if isinstance(val, (ast.Name, ast.Attribute)):
			r = self.P.resolve_expr(self.f.module, val)
			if r and r[0] == 'ext' and r[1].startswith('cvxpy.'):
				last = r[1].split('.')[-1]
				return st.set(n, ('word', CONST.get(last, '<%s>' % last)))
		return st.set(n, None)

	# conditions -------------------------------------------------------------------
	def cond(self, e, st):
		"""[(state, True/False/None)]"""
		self.condraise = []
		return self._cond(e, st)

	def _cond(self, e, st):
		if isinstance(e, ast.BoolOp):
			states = [(st, isinstance(e.op, ast.And))]
			for v in e.values:
				new = []
				for x, acc in states:
					if isinstance(e.op, ast.And) and acc is False or isinstance(e.op, ast.Or) and acc is True:
						new.append((x, acc))
						continue
					for y, r in self._cond(v, x):
						if isinstance(e.op, ast.And):
							new.append((y, False if r is False else None if None in (r, acc) else True))
						else:
							new.append((y, True if r is True else None if None in (r, acc) else False))
				states = new
			return states
		if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
			return [(x, None if v is None else not v) for x, v in self._cond(e.operand, st)]
		if isinstance(e, ast.Constant):
			return [(st, bool(e.value))]
		if isinstance(e, ast.Compare) and len(e.ops) == 1:
			l, op, r = e.left, e.ops[0], e.comparators[0]
			if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value is None and self.is_value(l, st):
				if st.out is None:
					return [(st, None)]
				t = st.out in FAIL[self.kind]
				return [(st, t if isinstance(op, ast.Is) else not t)]
			sv = self.status(l, st)
			if sv is not None:
				vals = self.strings(r, st)
				if vals is not None:
					if isinstance(op, (ast.In, ast.Eq)):
						return [(st, sv in vals)]
					if isinstance(op, (ast.NotIn, ast.NotEq)):
						return [(st, sv not in vals)]
				return [(st, None)]
			rv = self.status(r, st)
			if rv is not None:
				vals = self.strings(l, st)
				if vals is not None and isinstance(op, (ast.Eq, ast.NotEq)):
					return [(st, (rv in vals) == isinstance(op, ast.Eq))]
				if vals is not None and isinstance(op, ast.In) and isinstance(l, ast.Constant):
					return [(st, l.value in rv)]
				return [(st, None)]
		if isinstance(e, ast.Call):
			fn = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
			if fn in ('isfinite', 'isnan', 'isinf') and e.args and self.is_value(e.args[0], st):
				if st.out in FAIL[self.kind]:
					return [(st, fn != 'isfinite')]
				return [(st, None)]
			if fn == 'startswith' and isinstance(e.func, ast.Attribute):
				sv = self.status(e.func.value, st)
				if sv is not None and e.args and isinstance(e.args[0], ast.Constant):
					return [(st, sv.startswith(e.args[0].value))]
		if isinstance(e, (ast.Compare, ast.BoolOp)):
			res, rai = self.parts(e, st)
		else:
			res, rai = self.ev(e, st)
		self.condraise = list(self.condraise) + rai
		out = []
		for x, v in res:
			if v is not None and v[0] == 'bool':
				out.append((x, v[1]))
			elif v is not None and v[0] == 'const':
				out.append((x, bool(v[1])))
			else:
				out.append((x, None))
		return out

	def is_value(self, e, st):
		if isinstance(e, ast.Attribute) and e.attr == 'value':
			return not (st.get(name_of(e.value) or '') or ('',))[0] == 'param'
		if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and e.slice.value in ('x', 's', 'z', 'y', 'primal objective'):
			v = st.get(name_of(e.value) or '')
			return v is not None and v[0] == 'sol'
		v = st.get(name_of(e) or '')
		return v is not None and v[0] in ('val', 'failval')

	def status(self, e, st):
		"""the status string an expression holds in this state"""
		v = st.get(name_of(e) or '')
		if v is not None and v[0] == 'word':
			return v[1]
		if st.out is None or st.out == 'raises':
			return None
		if isinstance(e, ast.Attribute) and e.attr == 'status':
			return st.out
		if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and e.slice.value == 'status':
			return st.out
		v = st.get(name_of(e) or '')
		if v is not None and v[0] == 'status':
			return v[1]
		return None

	def strings(self, e, st):
		if isinstance(e, ast.Constant) and isinstance(e.value, str):
			return {e.value}
		if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
			out = set()
			for x in e.elts:
				v = self.strings(x, st)
				if v is None:
					return None
				out |= v
			return out
		if isinstance(e, ast.Attribute) and e.attr in CONST:
			return {CONST[e.attr]}
		n = name_of(e)
		if n:
			v = st.get(n)
			if v is not None and v[0] == 'list':
				return set(v[1])
			if isinstance(e, ast.Name):
				for b in self.f.module.tree.body:
					if isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in b.targets):
						return self.strings(b.value, st)
				if n in CONST:
					return {CONST[n]}
				r = self.P.lookup(self.f.module, n)
				if r and r[0] == 'const' and isinstance(r[1], ast.AST):
					return self.strings(r[1], st)
			elif isinstance(e, ast.Attribute) and self.f.cls is not None:
				for c in self.f.cls.mro():
					for b in c.node.body:
						if isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.attr for t in b.targets):
							return self.strings(b.value, st)
		if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
			a, b = self.strings(e.left, st), self.strings(e.right, st)
			return None if a is None or b is None else a | b
		if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset', 'tuple', 'list') and e.args:
			return self.strings(e.args[0], st)
		return None

	# expressions: ([(state, value)], [(state, exception, node)]) --------------------
	def ev(self, e, st):
		if isinstance(e, ast.Constant):
			return [(st, ('const', e.value))], []
		if isinstance(e, ast.Attribute) and e.attr == 'status' and st.out is not None:
			s = self.status(e, st)
			return [(st, ('status', s) if s else None)], []
		if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and e.slice.value == 'status' and st.out is not None:
			s = self.status(e, st)
			return [(st, ('status', s) if s else None)], []
		if isinstance(e, ast.Attribute) and e.attr == 'value' or isinstance(e, ast.Subscript) and self.is_value(e, st):
			if self.is_value(e, st):
				self.read(e, st)
			return [(st, None)], []
		if isinstance(e, (ast.Name, ast.Attribute)):
			n = name_of(e)
			v = st.get(n) if n else None
			if v is not None:
				if v[0] == 'failval':
					self.reads.append((e, v[1]))
				if v[0] == 'val':
					self.read(e, st)
				return [(st, v)], []
			if isinstance(e, ast.Attribute):
				b, rai = self.ev(e.value, st)
				return [(x, None) for x, _ in b], rai
			return [(st, None)], []
		if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
			v = self.strings(e, st) if e.elts else None
			if v is not None:
				return [(st, ('list', tuple(sorted(v))))], []
		if isinstance(e, ast.Compare) or isinstance(e, ast.BoolOp) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
			keep = self.condraise
			self.condraise = []
			direct = isinstance(e, ast.Compare) and not (self.status(e.left, st) or len(e.comparators) == 1 and (self.status(e.comparators[0], st) or self.is_value(e.left, st)))
			if direct:
				self.condraise = keep
				return self.parts(e, st)
			r = self._cond(e, st)
			rai = self.condraise
			self.condraise = keep
			return [(x, ('bool', v) if v is not None else None) for x, v in r], list(rai)
		if isinstance(e, ast.IfExp):
			out, rai = [], []
			for x, v in self.cond(e.test, st):
				if v is not False:
					a, b = self.ev(e.body, x)
					out += a
					rai += b
				if v is not True:
					a, b = self.ev(e.orelse, x)
					out += a
					rai += b
			return out, rai
		if isinstance(e, ast.Call):
			return self.call(e, st)
		if isinstance(e, (ast.Lambda, ast.FunctionDef)):
			return [(st, None)], []
		return self.parts(e, st)

	def parts(self, e, st):
		cur, rai = [st], []
		for c in ast.iter_child_nodes(e):
			if isinstance(c, ast.comprehension):
				subs = [c.iter] + c.ifs
			elif isinstance(c, ast.keyword):
				subs = [c.value]
			elif isinstance(c, ast.expr):
				subs = [c]
			else:
				subs = []
			for s in subs:
				nx = []
				for x in cur:
					r = self.ev(s, x)
					nx += [y for y, _ in r[0]]
					rai += r[1]
				cur = list(dict.fromkeys(nx))
		return [(x, None) for x in cur], rai

	def read(self, e, st):
		if st.out in FAIL[self.kind]:
			self.reads.append((e, st.out))

	def solve_kind(self, e, st):
		f = e.func
		if isinstance(f, ast.Attribute):
			r = self.P.resolve_expr(self.f.module, f)
			if r and r[0] == 'ext' and r[1].startswith('cvxopt.solvers.') and r[1].split('.')[-1] in ('sdp', 'lp', 'qp', 'socp', 'conelp', 'coneqp', 'gp'):
				return 'cvxopt'
			if f.attr == 'solve' and not (r and r[0] == 'ext'):
				return 'cvxpy'
		return None

	def call(self, e, st):
		f = e.func
		k = self.solve_kind(e, st)
		if isinstance(f, ast.Attribute) and name_of(f) in self.inject:
			base = self.parts(ast.Tuple(elts=list(e.args) + [kw.value for kw in e.keywords], ctx=ast.Load()), st)
			exc = self.inject[name_of(f)]
			self.solves += 1
			if exc is None:
				return [(x, None) for x, _ in base[0]], base[1]
			return [], base[1] + [(x, exc, e) for x, _ in base[0]]
		if k == self.kind:
			base, rai = self.parts(ast.Tuple(elts=list(e.args) + [kw.value for kw in e.keywords], ctx=ast.Load()), st)
			self.solves += 1
			how = self.outcome if self.only is None or e is self.only else 'optimal'
			if how == 'raises':
				return [], rai + [(x.solved('raises'), 'SolverError', e) for x, _ in base]
			return [(x.solved(how), ('sol',) if k == 'cvxopt' else ('val',)) for x, _ in base], rai
		if isinstance(f, ast.Name) and f.id in ('float', 'int') and len(e.args) == 1 and self.is_value(e.args[0], st) and st.out in FAIL[self.kind]:
			return [], [(st, 'TypeError', e)]
		if isinstance(f, ast.Name) and f.id == 'float' and len(e.args) == 1 and isinstance(e.args[0], ast.BinOp) and st.out in FAIL[self.kind] and any(self.is_value(x, st) for x in (e.args[0].left, e.args[0].right)):
			return [], [(st, 'TypeError', e)]
		r = self.P.resolve_expr(self.f.module, f) if isinstance(f, (ast.Name, ast.Attribute)) else None
		if r and r[0] == 'ext' and r[1].split('.')[0] == 'cvxpy':
			last = r[1].split('.')[-1]
			b, rai = self.parts(ast.Tuple(elts=list(e.args) + [kw.value for kw in e.keywords], ctx=ast.Load()), st)
			v = ('prob',) if last == 'Problem' else ('param',) if last == 'Parameter' else None
			return [(x, v) for x, _ in b], rai
		# a helper of the package that solves, or looks at the status
		g = None
		if r and r[0] == 'func':
			g = r[1]
		elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == self.me and self.f.cls is not None:
			c = self.f.cls.lookup(f.attr)
			if c and c[0] == 'method':
				g = c[1]
		node = None
		if isinstance(f, ast.Name) and f.id in self.nested:
			g, node = self.f, self.nested[f.id]
		if g is not None and self.depth < 3 and touches(node or g.node, e, st, self):
			return self.inline(g, node or g.node, e, st)
		b, rai = self.parts(e, st)
		return b, rai

	def inline(self, g, node, e, st):
		w = Walk(self.P, g, self.outcome, self.kind, self.inject, self.depth + 1, node, self.only)
		w.nested = dict(self.nested, **w.nested) if node in self.nested.values() else w.nested
		pos, kwo, va, vk = params_of(node)
		if g.cls is not None and not g.is_static and node is g.node:
			pos = pos[1:]
		cur, rai = [st], []
		al = {}
		for p, a in list(zip(pos, e.args)) + [(k.arg, k.value) for k in e.keywords if k.arg]:
			v = None
			n = name_of(a)
			if n:
				v = st.get(n)
			if v is None:
				s = self.status(a, st)
				v = ('status', s) if s else None
			elif v[0] in ('val', 'failval'):
				v = None
			if v:
				al[p] = v
			if not n or self.is_value(a, st):
				r = self.ev(a, st)
				rai += r[1]
		sub = St(st.out, [(k, v) for k, v in al.items()] + ([(k, v) for k, v in st.al] if node is not g.node else []))
		ex = w.run(sub)
		self.reads += w.reads
		self.writes += w.writes
		self.solves += w.solves
		self.steps += w.steps // 4
		out = []
		back = lambda x: St(x.out, st.al if x.out == st.out and not w.solves else {(k, v) for k, v in st.al if v[0] in ('prob', 'param', 'list')})
		for x, n, v in ex['return']:
			out.append((back(x), v if v is None or v[0] in ('status', 'bool', 'const', 'sol', 'prob') else None))
		for x in ex['fall']:
			out.append((back(x), None))
		rai += [(back(x), exc, n) for x, exc, n in ex['raise']]
		return list(dict.fromkeys(out)), rai


def touches(node, call, st, w):
	for n in ast.walk(node):
		if isinstance(n, ast.Call) and w.solve_kind(n, st):
			return True
	given = [name_of(a) for a in call.args] + [name_of(k.value) for k in call.keywords]
	passes = any(st.get(x or '') and st.get(x)[0] in ('prob', 'sol', 'status') for x in given) or any(w.status(a, st) for a in call.args)
	return passes


def sites(P, f):
	kinds = set()
	w = Walk.__new__(Walk)
	w.P, w.f = P, f
	for n in ast.walk(f.node):
		if isinstance(n, ast.Call):
			k = Walk.solve_kind(w, n, None)
			if k:
				kinds.add(k)
	return kinds


def one_of_several(ck, P, f, kind):
	"""a function with several solves: each of them fails in turn, the others end optimal"""
	w = Walk(P, f, 'optimal', kind)
	at = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and w.solve_kind(n, None) == kind]
	if len(at) < 2:
		return
	at.sort(key=lambda n: (n.lineno, n.col_offset))
	for i, node in enumerate(at):
		for s in FAIL[kind]:
			if s == 'raises':
				continue
			con = '%s [%s solve %d of %d %s]' % (f.short, kind, i + 1, len(at), s)
			w = Walk(P, f, s, kind, only=node)
			try:
				ex = w.run()
			except Overflow:
				ck.unknown('no-answer', con, 'too many paths')
				continue
			own = problem_names(f, node)
			definite = [(n, st) for n, st in w.reads if not isinstance(n, ast.Attribute) or not isinstance(n.value, ast.Name) or n.value.id in own]
			if definite:
				n, st = definite[0]
				ck.bad('no-answer', con, 'line %d: %s is read although that solve ended %s' % (n.lineno, ast.unparse(n)[:60], st))
			else:
				ck.verdict('no-answer', con, None if w.reads else True, '%d solve visits' % w.solves)


def problem_names(f, call):
	"""the names the problem of this solve is built from"""
	base = call.func.value if isinstance(call.func, ast.Attribute) else None
	if not isinstance(base, ast.Name):
		return {n.id for n in ast.walk(base) if isinstance(n, ast.Name)} if base is not None else set()
	defs = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == base.id for t in n.targets) and n.lineno <= call.lineno]
	if not defs:
		return set()
	d = max(defs, key=lambda n: n.lineno)
	names = {n.id for n in ast.walk(d.value) if isinstance(n, ast.Name)}
	for _ in range(4):
		for n in ast.walk(f.node):
			if isinstance(n, ast.Assign) and n.lineno <= d.lineno and any(isinstance(t, ast.Name) and t.id in names and t.id != base.id for t in n.targets):
				names |= {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
	return names


def in_loop(f):
	for n in ast.walk(f.node):
		if isinstance(n, (ast.For, ast.While)):
			for m in ast.walk(n):
				if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in ('solve', 'sdp', 'lp'):
					return True
	return False


RULES = [
	('no-answer', 'after a solve that ended other than optimal no path reads the value of a variable, objective or problem', 80),
	('reported', 'every path from such a solve leaves by an explicit exception (or, in an iteration, goes on with the last accepted iterate)', 80),
	('domain', 'domain queries report an infeasible solve as an empty domain and an unbounded one as an unbounded domain', 6),
	('optimal', 'an optimal solve reaches a normal return', 20),
	('cached', 'a verdict kept for later calls (empty, unbounded, point) is only stored when the solve established it', 3),
	('directions', 'is_point and is_unbounded look in both senses of every direction', 2),
	('dimension', 'random orthogonal bases are only requested for more than one dimension, so that queries answer for every domain', 3),
	('query', 'is_empty, is_point and is_unbounded translate the reports of the corner query correctly', 10),
]
DOMAIN = {'domains.euclidean.EuclideanDomain._corner': ('infeasible', 'unbounded'), 'domains.euclidean.EuclideanDomain._closest_point': ('infeasible',),
	'domains.euclidean.EuclideanDomain._constrained_least_squares': ('infeasible',), 'domains.linineq.LinIneqDomain.chebyshev_center': ('infeasible', 'unbounded')}
WANT = {'infeasible': 'EmptyDomainException', 'unbounded': 'UnboundedDomainException'}


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	analyse(ck, P)
	queries(ck, P)
	if tier == 'thorough':
		pass
	selftest(ck)


def analyse(ck, P, domain=True):
	nsite = 0
	solvers = {}
	for f in P.all_functions():
		if f.parent is not None:
			continue
		ks = sites(P, f)
		if ks:
			solvers[f.short] = (f, ks)
	for name, (f, ks) in sorted(solvers.items()):
		for kind in sorted(ks):
			one_of_several(ck, P, f, kind)
	private_helpers = set()
	for name, (f, ks) in sorted(solvers.items()):
		for kind in sorted(ks):
			nsite += 1
			loop = in_loop(f)
			for s in FAIL[kind]:
				con = '%s [%s %s]' % (f.short, kind, s)
				w = Walk(P, f, s, kind)
				try:
					ex = w.run()
				except Overflow:
					ck.unknown('no-answer', con, 'too many paths')
					continue
				if w.reads:
					n, st = w.reads[0]
					ck.bad('no-answer', con, 'line %d: %s is read although the solve ended %s' % (n.lineno, ast.unparse(n)[:60], st))
				else:
					ck.ok('no-answer', con, '%d solve visits' % w.solves)
				cached(ck, con, w)
				# how is it left
				quiet = [(st, n, v) for st, n, v in ex['return'] if st.out == s] + [(st, f.node, None) for st in ex['fall'] if st.out == s]
				implicit = [(exc, n) for st, exc, n in ex['raise'] if exc == 'TypeError' and isinstance(n, ast.Call)]
				if implicit and not w.reads:
					ck.bad('reported', con, 'line %d: the missing value fails inside %s instead of being reported' % (implicit[0][1].lineno, ast.unparse(implicit[0][1])[:60]))
				elif not quiet or w.reads:
					ck.ok('reported', con, '')
				elif loop:
					ck.ok('reported', con, 'iteration goes on without the failed step')
				else:
					const = all(v is not None and v[0] in ('const', 'status', 'bool') for st, n, v in quiet)
					n = quiet[0][1]
					helper = f.short.split('.')[-1].startswith('_') and f.short not in KNOWN
					ck.verdict('reported', con, None if const or helper else False, 'line %d: returns normally' % n.lineno)
				if domain and f.short in DOMAIN and s in DOMAIN[f.short]:
					excs = {exc for st, exc, n in ex['raise'] if st.out == s}
					ck.verdict('domain', con, (excs == {WANT[s]}) if not quiet else False, 'raises %s, expected %s' % (sorted(excs), WANT[s]))
			w = Walk(P, f, 'optimal', kind)
			try:
				ex = w.run()
				cached(ck, '%s [%s optimal]' % (f.short, kind), w)
				good = any(st.out == 'optimal' for st, n, v in ex['return']) or any(st.out == 'optimal' for st in ex['fall'])
				ck.verdict('optimal', '%s [%s]' % (f.short, kind), good or (None if not w.solves else False), 'every path after an optimal solve raises')
			except Overflow:
				ck.unknown('optimal', '%s [%s]' % (f.short, kind), 'too many paths')
	if domain:
		for d in DOMAIN:
			if d in solvers:
				continue
			# the solve may have moved into a helper: judge the query through it
			f = P_func(P, d)
			if f is None:
				raise AnalysisBroken('domain query %s has gone' % d)
			for s in DOMAIN[d]:
				w = Walk(P, f, s, 'cvxpy')
				con = '%s [cvxpy %s]' % (d, s)
				try:
					ex = w.run()
				except Overflow:
					ck.unknown('domain', con, 'too many paths')
					continue
				if not w.solves:
					ck.unknown('domain', con, 'no solve found')
					continue
				if w.reads:
					ck.bad('no-answer', con, 'line %d: value read although the solve ended %s' % (w.reads[0][0].lineno, s))
				excs = {exc for st, exc, n in ex['raise'] if st.out == s}
				quiet = [1 for st, n, v in ex['return'] if st.out == s]
				ck.verdict('domain', con, (excs == {WANT[s]}) if not quiet else False, 'raises %s, expected %s' % (sorted(excs), WANT[s]))
	ck.stats['functions that solve'] = len(solvers)


def cached(ck, con, w):
	for a, v, out, n in w.writes:
		if out is None or out not in ALLOWED[a]:
			continue
		ck.verdict('cached', con + ' ' + a, v in ALLOWED[a][out] if isinstance(v, bool) else None, 'line %d stores %s = %s after a solve that ended %s' % (n.lineno, a, v, out))


def directions(ck, P, cls):
	for q in ('is_point', 'is_unbounded'):
		k = cls.lookup(q)
		if not k:
			raise AnalysisBroken('EuclideanDomain.%s has gone' % q)
		f = k[1]
		calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('corner', '_corner') and n.args]
		neg = [n for n in ast.walk(f.node) if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant)]
		neg += [n for n in ast.walk(f.node) if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Sub))] + [n for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and n.attr == 'negative']
		plain = {ast.dump(c.args[0]) for c in calls}
		turned = {ast.dump(c.args[0].operand) for c in calls if isinstance(c.args[0], ast.UnaryOp) and isinstance(c.args[0].op, ast.USub)}
		if not calls:
			ck.unknown('directions', q, 'no corner query')
		elif turned & plain:
			ck.ok('directions', q, '')
		elif neg and not turned:
			ck.unknown('directions', q, '')
		else:
			ck.bad('directions', q, 'line %d: only one sense of each direction is queried' % calls[0].lineno)


def one_dim(test, defs=()):
	"""the truth value of a test for a one-dimensional domain, None when it does not decide that; defs: names assigned once"""
	if isinstance(test, ast.Name) and test.id in defs:
		return one_dim(defs[test.id], {k: v for k, v in defs.items() if k != test.id})
	if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
		v = one_dim(test.operand, defs)
		return None if v is None else not v
	if isinstance(test, ast.BoolOp):
		vs = [one_dim(v, defs) for v in test.values]
		stop = isinstance(test.op, ast.Or)
		return stop if stop in vs else None if None in vs else not stop
	if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
		return None
	def val(e):
		if isinstance(e, ast.Constant) and isinstance(e.value, int):
			return e.value
		if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' or isinstance(e, ast.Attribute) and e.attr in ('_dimension', 'dimension') or isinstance(e, ast.Name):
			return 1
		return None
	a, b = val(test.left), val(test.comparators[0])
	if a is None or b is None or (isinstance(test.left, ast.Constant) and isinstance(test.comparators[0], ast.Constant)):
		return None
	op = type(test.ops[0]).__name__
	return {'Gt': a > b, 'GtE': a >= b, 'Lt': a < b, 'LtE': a <= b, 'Eq': a == b, 'NotEq': a != b}.get(op)


def dimension(ck, P):
	for f in P.all_functions():
		if f.parent is not None:
			continue
		given, defs = {}, {}
		for n in ast.walk(f.node):
			if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
				given[n.id] = given.get(n.id, 0) + 1
			if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
				defs[n.targets[0].id] = n.value
		defs = {k: v for k, v in defs.items() if given.get(k) == 1}
		def visit(stmts, reach, defs=defs):
			for s in stmts:
				if isinstance(s, ast.If):
					v = one_dim(s.test, defs)
					look(s.test, reach)
					visit(s.body, False if v is False else reach)
					visit(s.orelse, False if v is True else reach)
					if v is True and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
						reach = False
					if v is False and s.orelse and isinstance(s.orelse[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
						reach = False
					continue
				if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
					visit(s.body, reach)
					continue
				for field in ('body', 'orelse', 'finalbody'):
					visit(getattr(s, field, []) or [], reach)
				for h in getattr(s, 'handlers', []) or []:
					visit(h.body, reach)
				if not isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
					look(s, reach)
				else:
					for e in ast.iter_child_nodes(s):
						if isinstance(e, ast.expr):
							look(e, reach)
		def look(s, reach, defs=defs):
			for n in ast.walk(s):
				if isinstance(n, ast.IfExp):
					v = one_dim(n.test, defs)
					look(n.body, False if v is False else reach)
					look(n.orelse, False if v is True else reach)
					return
				if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rvs':
					r = P.resolve_expr(f.module, n.func)
					if r and r[0] == 'ext' and r[1].split('.')[-2:-1] in (['ortho_group'], ['special_ortho_group']):
						helper = f.short not in KNOWN
						ck.verdict('dimension', f.short, True if not reach else None if helper else False, 'line %d: %s is undefined for a one-dimensional domain' % (n.lineno, ast.unparse(n)))
		visit(f.node.body, True)


def P_func(P, short):
	for f in P.all_functions():
		if f.short == short:
			return f
	return None


def queries(ck, P):
	cls = P.cls('psdr.domains.EuclideanDomain')
	directions(ck, P, cls)
	dimension(ck, P)
	want = {'is_empty': {'EmptyDomainException': True, 'UnboundedDomainException': False}, 'is_unbounded': {'UnboundedDomainException': True, 'EmptyDomainException': False},
		'is_point': {'EmptyDomainException': False, 'UnboundedDomainException': False}}
	for q, table in want.items():
		k = cls.lookup(q)
		if not k:
			raise AnalysisBroken('EuclideanDomain.%s has gone' % q)
		f = k[1]
		for exc, val in list(table.items()) + [('SolverError', None)]:
			con = '%s on %s' % (q, exc)
			w = Walk(P, f, 'optimal', 'cvxpy', {'self.corner': exc, 'self._corner': exc})
			try:
				ex = w.run()
			except Overflow:
				ck.unknown('query', con, 'too many paths')
				continue
			if not w.solves:
				ck.unknown('query', con, 'the corner query is not called')
				continue
			# paths on which the query was actually made: those that left through the handler, or by raising
			rets = [v for st, n, v in ex['return'] if in_handler(f.node, n)]
			if val is None:
				swallowed = [v for v in rets if v is not None and v[0] == 'const' and False]
				ck.verdict('query', con, any(e == 'SolverError' for st, e, n in ex['raise']) or None, 'a solver failure propagates')
			elif any(e == exc for st, e, n in ex['raise']):
				ck.bad('query', con, '%s is not translated' % exc)
			else:
				hv = [self_handler_value(f.node, exc, w)]
				vals = [v for v in hv if v is not None]
				ck.verdict('query', con, all(v[1] == val for v in vals) if vals else None, 'answers %s, expected %s' % (vals, val))


def in_handler(fn, node):
	return any(isinstance(h, ast.ExceptHandler) and any(x is node for x in ast.walk(h)) for h in ast.walk(fn))


def self_handler_value(fn, exc, w):
	"""the constant returned by the handler that receives exc"""
	for t in ast.walk(fn):
		if isinstance(t, ast.Try):
			for h in t.handlers:
				if w.matches(h.type, exc):
					for s in h.body:
						if isinstance(s, ast.Return) and isinstance(s.value, ast.Constant):
							return ('const', s.value.value)
					return None
	return None


import json as _json
import os as _os
KNOWN = set(_json.load(open(_os.path.join(_os.path.dirname(_os.path.dirname(__file__)), 'functions.json'))))

FIXTURE = '''
import cvxpy as cp
import numpy as np
class SolverError(Exception):
	pass
OK = ('optimal', 'optimal_inaccurate')
def _go(prob, **kw):
	prob.solve(**kw)
	if prob.status not in OK:
		raise SolverError(prob.status)
def good(A):
	x = cp.Variable(3)
	p = cp.Problem(cp.Minimize(cp.norm(A@x)))
	p.solve()
	if p.status == 'infeasible':
		raise ValueError
	elif p.status in ['optimal', 'optimal_inaccurate']:
		return x.value
	raise SolverError(p.status)
def good2(A):
	x = cp.Variable(3)
	p = cp.Problem(cp.Minimize(cp.norm(A@x)))
	_go(p)
	return np.array(x.value)
def good3(A):
	x = cp.Variable(3)
	p = cp.Problem(cp.Minimize(cp.norm(A@x)))
	p.solve()
	status = p.status
	ok = status == cp.OPTIMAL or status == cp.OPTIMAL_INACCURATE
	if not ok:
		raise SolverError(status)
	return np.array(x.value)
def bad_none(A):
	x = cp.Variable(3)
	p = cp.Problem(cp.Minimize(cp.norm(A@x)))
	p.solve()
	return np.array(x.value)
def bad_partial(A):
	x = cp.Variable(3)
	p = cp.Problem(cp.Minimize(cp.norm(A@x)))
	p.solve()
	if p.status == 'infeasible':
		raise SolverError
	return np.array(x.value)
def bad_swallow(A):
	x = cp.Variable(3)
	p = cp.Problem(cp.Minimize(cp.norm(A@x)))
	try:
		p.solve()
		if p.status not in OK: raise SolverError
	except Exception:
		pass
	return x.value
def bad_late(A):
	x = cp.Variable(3)
	p = cp.Problem(cp.Minimize(cp.norm(A@x)))
	v = p.solve()
	out = v + 1
	if p.status != 'optimal': raise SolverError
	return out
'''


def selftest(ck):
	import tempfile
	from ..loader import Project
	from ..report import Check
	with tempfile.TemporaryDirectory() as d:
		_os.makedirs(d + '/psdr')
		open(d + '/psdr/__init__.py', 'w').write('')
		open(d + '/psdr/fx.py', 'w').write(FIXTURE)
		c2 = Check('selftest', Project(d))
		analyse(c2, c2.P, False)
		got = {c.split('_[')[0].split(' ')[0] for v, r, c, _ in c2.obs if v == 'violated' and r == 'no-answer'}
	want = {'fx.bad_none', 'fx.bad_partial', 'fx.bad_swallow', 'fx.bad_late'}
	ck.selftest('fixture: exactly the four unchecked solves are reported %s' % sorted(got ^ want), got == want)
