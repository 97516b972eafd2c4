"""Definite assignment of local names: for every read of a local, is it assigned on every path, on some, or on none?
Correlated tests are tracked: a state is a set of (facts, assigned names) alternatives, facts being the truth values of
syntactic conditions over names not reassigned since."""
import ast

LIMIT = 160


def target_names(t):
	if isinstance(t, ast.Name):
		yield t.id
	elif isinstance(t, (ast.Tuple, ast.List)):
		for e in t.elts:
			yield from target_names(e)
	elif isinstance(t, ast.Starred):
		yield from target_names(t.value)


def locals_of(fn):
	"""names bound in the function body itself (parameters, assignments, imports, loops), global/nonlocal excluded"""
	out, glob = set(), set()
	a = fn.args
	for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
		out.add(x.arg)
	params = set(out)
	body = fn.body if isinstance(fn.body, list) else [fn.body]
	stack = list(body)
	while stack:
		n = stack.pop()
		if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
			out.add(n.name)
			stack.extend(n.decorator_list)
			continue
		if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
			for y in ast.walk(n):
				if isinstance(y, ast.NamedExpr):
					out.add(y.target.id)
			continue
		if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
			out.add(n.id)
		elif isinstance(n, (ast.Import, ast.ImportFrom)):
			for al in n.names:
				if al.name != '*':
					out.add(al.asname or al.name.split('.')[0])
		elif isinstance(n, ast.ExceptHandler) and n.name:
			out.add(n.name)
		elif isinstance(n, (ast.Global, ast.Nonlocal)):
			glob |= set(n.names)
		stack.extend(ast.iter_child_nodes(n))
	return out - glob, params


def soft_tags(f):
	return frozenset(x for x in f if x[0].startswith('#') and not x[0].startswith('#is '))


class State:
	"""alternatives: frozenset of (facts frozenset of (cond, bool), assigned frozenset)"""
	__slots__ = ('alts',)

	def __init__(self, alts):
		alts = set(alts)
		if len(alts) > LIMIT:
			merged = {}
			for f, a in alts:
				merged.setdefault((a, soft_tags(f)), []).append(f)
			alts = {(frozenset.intersection(*fs), a) for (a, _), fs in merged.items()}
			if len(alts) > LIMIT:
				fs = frozenset.intersection(*[f for f, _ in alts])
				# too many: keep the largest differences only
				alts = {(fs | soft_tags(f), a) for f, a in alts}
				if len(alts) > LIMIT:
					# which paths these were is no longer known: nothing definite follows
					inter = frozenset.intersection(*[a for _, a in alts])
					union = frozenset.union(*[a for _, a in alts])
					alts = {(fs | {('#exc', True)}, inter), (fs, union)}
		self.alts = frozenset(alts)

	def assign(self, names):
		names = set(names)
		if not names:
			return self
		return type(self)((frozenset(x for x in f if not (cond_names(x[0]) & names)), a | names) for f, a in self.alts)

	def delete(self, names):
		return type(self)((f, a - set(names)) for f, a in self.alts)

	def assume(self, cond, pol, keys=None):
		plain = literals(cond, pol)
		names = {n.id for n in ast.walk(cond) if isinstance(n, ast.Name)}
		out = []
		for f, a in self.alts:
			g = set(f)
			# names that stand for a condition are replaced by it
			lits = plain
			named = {l.split(' ', 2)[1]: l.split(' := ', 1)[1] for l, _ in f if l.startswith('#is ')}
			for _ in range(3):
				if not names & set(named):
					break
				cond2 = ast.parse(ast.unparse(cond), mode='eval').body if lits is plain else cond2
				cond2 = Named(named).visit(cond2)
				lits = lits + [x for x in literals(cond2, pol) if x not in lits]
				if not {n.id for n in ast.walk(cond2) if isinstance(n, ast.Name)} & set(named):
					break
			ok = True
			for l, p in lits:
				if (l, not p) in g or exclusive(g, l, p):
					ok = False
					break
				if keys is None or key_of(l) in keys:
					g.add((l, p))
			if ok:
				out.append((frozenset(g), a))
		return type(self)(out)

	def join(self, o):
		if o is None:
			return self
		return type(self)(self.alts | o.alts)


class Must(State):
	"""one alternative: what is assigned on every path, conditions ignored"""
	__slots__ = ()

	def __init__(self, alts):
		alts = list(alts)
		self.alts = frozenset({(frozenset(), frozenset.intersection(*[a for _, a in alts]))}) if alts else frozenset()

	def assume(self, cond, pol, keys=None):
		return self


def tagged(st, tag):
	return type(st)((f | {(tag, True)}, a) for f, a in st.alts)


_cn = {}


class Named(ast.NodeTransformer):
	def __init__(self, named):
		self.named = named

	def visit_Name(self, n):
		if n.id in self.named:
			return ast.parse(self.named[n.id], mode='eval').body
		return n


def cond_names(c):
	if c.startswith('#is '):
		if c not in _cn:
			_cn[c] = {c.split(' ', 2)[1]} | cond_names(c.split(' := ', 1)[1])
		return _cn[c]
	if c.startswith('#'):
		return set()
	if c not in _cn:
		try:
			_cn[c] = {n.id for n in ast.walk(ast.parse(c, mode='eval')) if isinstance(n, ast.Name)}
		except SyntaxError:
			_cn[c] = set()
	return _cn[c]


def literals(c, pol):
	"""conjunction of literals implied by the condition (text, polarity)"""
	if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
		return literals(c.operand, not pol)
	if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.And) == pol:
		out = []
		for v in c.values:
			out += literals(v, pol)
		return out
	if isinstance(c, ast.Compare) and len(c.ops) == 1:
		flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.Lt: ast.GtE, ast.Gt: ast.LtE}
		for k, v in flip.items():
			if isinstance(c.ops[0], k):
				c2 = ast.Compare(c.left, [v()], c.comparators)
				return [(ast.unparse(c2), not pol)]
	return [(ast.unparse(c), pol)]


def literal(e):
	return isinstance(e, ast.Constant) or isinstance(e, ast.Attribute) and ast.unparse(e) in ('np.inf', 'numpy.inf', 'math.inf') or isinstance(e, ast.UnaryOp) and literal(e.operand)


def lit_vals(e):
	r = e.comparators[0]
	if isinstance(e.ops[0], (ast.Eq, ast.Is)) and literal(r):
		return {ast.unparse(r)}
	if isinstance(e.ops[0], ast.In) and isinstance(r, (ast.List, ast.Tuple, ast.Set)) and all(literal(x) for x in r.elts):
		return {ast.unparse(x) for x in r.elts}
	return None


_pc = {}


def parsed(l):
	if l not in _pc:
		try:
			e = ast.parse(l, mode='eval').body
			r = None
			if isinstance(e, ast.Constant):
				r = ('const', bool(e.value))
			elif isinstance(e, ast.Compare) and len(e.ops) == 1 and lit_vals(e) is not None:
				r = ('cmp', ast.unparse(e.left), frozenset(lit_vals(e)))
			_pc[l] = r
		except SyntaxError:
			_pc[l] = None
	return _pc[l]


def possible(facts, base):
	"""values the facts leave for an expression, or None"""
	pos, exc = None, set()
	for fl, fp in facts:
		x = parsed(fl)
		if x and x[0] == 'cmp' and x[1] == base:
			if fp:
				pos = set(x[2]) if pos is None else pos & x[2]
			else:
				exc |= x[2]
	return None if pos is None else pos - exc


def exclusive(facts, l, p):
	"""x == 'a' excludes x == 'b'; x in ['a','b'] false and x == 'a' clash"""
	e = parsed(l)
	if e is None:
		return False
	if e[0] == 'const':
		return e[1] != p
	r = possible(list(facts) + [(l, p)], e[1])
	return r is not None and not r


_ko = {}


def key_of(c):
	"""what a condition is about: the left side of a comparison with a literal, else the whole condition"""
	if c not in _ko:
		try:
			e = ast.parse(c, mode='eval').body
		except SyntaxError:
			e = None
		k = c
		if isinstance(e, ast.Compare) and len(e.ops) == 1:
			r = e.comparators[0]
			if literal(r) or isinstance(r, (ast.List, ast.Tuple, ast.Set)):
				k = ast.unparse(e.left)
		_ko[c] = k
	return _ko[c]


def relevant(fn):
	"""keys tested at two places or more (or assigned a literal and tested)"""
	n = {}
	tested = {y.id for x in ast.walk(fn) if isinstance(x, (ast.If, ast.IfExp, ast.While, ast.Assert)) for y in ast.walk(x.test) if isinstance(y, ast.Name)}
	for x in ast.walk(fn):
		tests = []
		if isinstance(x, (ast.If, ast.IfExp, ast.While, ast.Assert)):
			tests.append(x.test)
		if isinstance(x, ast.comprehension):
			tests += x.ifs
		if isinstance(x, ast.BoolOp):
			tests.append(x)
		for t in tests:
			for l, _ in literals(t, True) + literals(t, False):
				k = key_of(l)
				n.setdefault(k, set()).add(id(t))
		if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id in tested and not literal(x.value):
			for l, _ in literals(x.value, True) + literals(x.value, False):
				n.setdefault(key_of(l), set()).add(id(x.value))
		if isinstance(x, ast.Assign) and literal(x.value):
			for t in x.targets:
				if isinstance(t, ast.Name):
					n.setdefault(t.id, set()).add(id(x))
	out = {k for k, v in n.items() if len(v) > 1}
	for x in ast.walk(fn):
		if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and any(isinstance(t, ast.Attribute) for t in x.targets):
			out.add(x.value.id)
	return out


def ordering(t):
	return any(isinstance(x, ast.Compare) and any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in x.ops) for x in ast.walk(t))


def assigned_in(body):
	return {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


class Flow:
	def __init__(self, fn, never_returns=lambda call: False, facts=(), first=False):
		self.fn = fn
		self.never = never_returns
		self.locals, params = locals_of(fn)
		self.reads = {}      # Name node -> 'all' | 'some' | 'none'
		self.facts = {}
		self.soft = set()
		self.loops = []
		self.tries = []
		self.attrs = {}      # attribute -> set of literal values it is given here (None: anything)
		self.keys = relevant(fn)
		# names tested, and what the names assigned once stand for
		self.tested, given, self.stands = set(), {}, {}
		for x in ast.walk(fn):
			if isinstance(x, (ast.If, ast.IfExp, ast.While, ast.Assert)):
				self.tested |= {n.id for n in ast.walk(x.test) if isinstance(n, ast.Name)}
			if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
				given[x.id] = given.get(x.id, 0) + 1
			if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
				self.stands[x.targets[0].id] = x.value
		self.stands = {k: v for k, v in self.stands.items() if given.get(k) == 1}
		for c, _ in facts:
			self.keys.add(key_of(c))
		if first:
			st = Must({(frozenset(), frozenset(params))})
		else:
			# names assigned on every path whatever the conditions need no tracking
			quick = Flow(fn, never_returns, (), True)
			doubt = {n.id for n, v in quick.reads.items() if v != 'all'}
			st = State({(frozenset(facts), frozenset(params | (self.locals - doubt)))})
		if isinstance(fn.body, list):
			self.block(fn.body, st)
		else:
			self.expr(fn.body, st)

	def assume(self, st, cond, pol):
		return st.assume(cond, pol, self.keys)

	def read(self, n, st):
		if n.id not in self.locals or st is None:
			return
		if not st.alts:
			return
		k = [n.id in a for f, a in st.alts]
		v = 'all' if all(k) else 'none' if not any(k) else 'some'
		old = self.reads.get(n)
		if old is not None and old != v:
			v = 'some'
		self.reads[n] = v
		if v != 'all':
			if all(('#zero', True) in f or ('#exc', True) in f or ('#ord:' + n.id, True) in f for f, a in st.alts if n.id not in a):
				self.soft.add(n)
			else:
				self.soft.discard(n)
			self.facts[n] = self.facts.get(n, []) + [f for f, a in st.alts if n.id not in a]

	def missing(self, n):
		"""facts of the hard alternatives on which the name is not assigned"""
		return [f for f in self.facts.get(n, []) if not (('#zero', True) in f or ('#exc', True) in f or ('#ord:' + n.id, True) in f)]

	def expr(self, e, st):
		"""record reads; returns the state after (walrus)"""
		if e is None or st is None:
			return st
		if isinstance(e, ast.Name):
			if isinstance(e.ctx, ast.Load):
				self.read(e, st)
			return st
		if isinstance(e, ast.Lambda):
			for d in e.args.defaults + e.args.kw_defaults:
				st = self.expr(d, st)
			return st
		if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
			inner = st
			bound = set()
			for g in e.generators:
				self.expr(g.iter, inner)
				names = set(target_names(g.target))
				bound |= names
				inner = inner.assign(names)
				for c in g.ifs:
					self.expr(c, inner)
					inner = self.assume(inner, c, True)
			for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
				self.expr(x, inner)
			return st
		if isinstance(e, ast.BoolOp):
			cur = self.expr(e.values[0], st)
			inner = cur
			for v in e.values[1:]:
				inner = self.assume(inner, e.values[e.values.index(v) - 1], isinstance(e.op, ast.And))
				self.expr(v, inner)
			return cur
		if isinstance(e, ast.IfExp):
			st = self.expr(e.test, st)
			self.expr(e.body, self.assume(st, e.test, True))
			self.expr(e.orelse, self.assume(st, e.test, False))
			return st
		if isinstance(e, ast.NamedExpr):
			st = self.expr(e.value, st)
			return st.assign([e.target.id])
		for c in ast.iter_child_nodes(e):
			if isinstance(c, ast.expr):
				st = self.expr(c, st)
			elif isinstance(c, ast.keyword):
				st = self.expr(c.value, st)
		return st

	def block(self, body, st):
		for s in body:
			if st is None:
				return None
			st = self.stmt(s, st)
			if st is not None and not st.alts:
				return None
		return st

	def stmt(self, s, st):
		for t in self.tries:
			t.append(st)
		m = getattr(self, 's_' + type(s).__name__, None)
		if m:
			r = m(s, st)
		else:
			r = st
			for c in ast.iter_child_nodes(s):
				if isinstance(c, ast.expr):
					r = self.expr(c, r)
		for t in self.tries:
			if r is not None:
				t.append(r)
		return r

	def store(self, t, st):
		for n in ast.walk(t):
			if isinstance(n, (ast.Attribute, ast.Subscript)):
				for c in ast.iter_child_nodes(n):
					if isinstance(c, ast.expr) and not (isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store)):
						if isinstance(c, ast.Name):
							self.read(c, st)
						else:
							self.expr(c, st)
		return st.assign(target_names(t))

	def s_Assign(self, s, st):
		st = self.expr(s.value, st)
		for t in s.targets:
			if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and st is not None:
				self.attr_values(t.attr, s.value, st)
			st = self.store(t, st)
			if isinstance(t, ast.Name) and literal(s.value) and st is not None and t.id in self.keys:
				c = '%s %s %s' % (t.id, 'is' if isinstance(s.value, ast.Constant) and s.value.value is None else '==', ast.unparse(s.value))
				st = tagged(st, c)
			elif isinstance(t, ast.Name) and t.id in self.tested and st is not None and len(s.targets) == 1 and not isinstance(s.value, (ast.Lambda, ast.ListComp)):
				text = ast.unparse(s.value)
				if t.id not in cond_names(text) and ' := ' not in text:
					st = tagged(st, '#is %s := %s' % (t.id, text))
		return st

	def attr_values(self, attr, value, st):
		vals = set()
		if literal(value):
			vals = {ast.unparse(value)}
		elif isinstance(value, ast.Name):
			for f, a in st.alts:
				p = possible(f, value.id)
				if p is None:
					vals = None
					break
				vals |= p
		else:
			vals = None
		if attr in self.attrs and self.attrs[attr] is None or vals is None:
			self.attrs[attr] = None
		else:
			self.attrs[attr] = self.attrs.get(attr, set()) | vals

	def s_AnnAssign(self, s, st):
		if s.value is None:
			return st
		return self.store(s.target, self.expr(s.value, st))

	def s_AugAssign(self, s, st):
		if isinstance(s.target, ast.Name):
			x = ast.Name(s.target.id, ast.Load())
			ast.copy_location(x, s.target)
			self.read(x, st)
		st = self.expr(s.value, st)
		return self.store(s.target, st)

	def s_Delete(self, s, st):
		return st.delete([n for t in s.targets for n in target_names(t)])

	def s_If(self, s, st):
		st = self.expr(s.test, st)
		a = self.block(s.body, self.assume(st, s.test, True)) if self.assume(st, s.test, True).alts else None
		if isinstance(s.test, ast.Constant) and s.test.value:
			return a
		b0 = self.assume(st, s.test, False)
		b = self.block(s.orelse, b0) if b0.alts else None
		if (ordering(s.test) or isinstance(s.test, ast.Name) and s.test.id in self.stands and ordering(self.stands[s.test.id])) and a is not None and b is not None:
			x, y = assigned_in(s.body), assigned_in(s.orelse)
			for n in y - x:
				a = tagged(a, '#ord:' + n)
			for n in x - y:
				b = tagged(b, '#ord:' + n)
		return a.join(b) if a is not None else b

	def loop(self, s, st, head):
		"""head(st) -> state at body entry"""
		always = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
		nonempty = isinstance(s, ast.For) and nonempty_iter(s.iter)
		breaks, cur, first = [], st, True
		for _ in range(4):
			self.loops.append(([], []))
			h = head(cur)
			end = self.block(s.body, h) if h.alts else None
			b, c = self.loops.pop()
			breaks = b
			back = end
			for x in c:
				back = x.join(back)
			exits = back
			if back is None:
				break
			nxt = cur.join(back)
			if nxt.alts == cur.alts:
				break
			cur = nxt
		if always:
			out = None
		else:
			out = exits if nonempty and exits is not None else tagged(st, '#zero').join(exits)
			if isinstance(s, ast.While):
				out = self.assume(tagged(st, '#zero').join(exits), s.test, False)
			if s.orelse:
				out = self.block(s.orelse, out)
		for x in breaks:
			out = x.join(out)
		return out

	def s_For(self, s, st):
		st = self.expr(s.iter, st)
		return self.loop(s, st, lambda c: self.store(s.target, c))

	def s_While(self, s, st):
		def head(c):
			return self.assume(self.expr(s.test, c), s.test, True)
		return self.loop(s, st, head)

	def s_Break(self, s, st):
		if self.loops:
			self.loops[-1][0].append(st)
		return None

	def s_Continue(self, s, st):
		if self.loops:
			self.loops[-1][1].append(st)
		return None

	def s_Return(self, s, st):
		self.expr(s.value, st)
		return None

	def s_Raise(self, s, st):
		self.expr(s.exc, st)
		self.expr(s.cause, st)
		return None

	def s_Assert(self, s, st):
		st = self.expr(s.test, st)
		self.expr(s.msg, st)
		return self.assume(st, s.test, True)

	def s_Expr(self, s, st):
		st = self.expr(s.value, st)
		if isinstance(s.value, ast.Call) and self.never(s.value):
			return None
		return st

	def s_With(self, s, st):
		for i in s.items:
			st = self.expr(i.context_expr, st)
			if i.optional_vars is not None:
				st = self.store(i.optional_vars, st)
		return self.block(s.body, st)

	def s_Import(self, s, st):
		return st.assign([a.asname or a.name.split('.')[0] for a in s.names])

	def s_ImportFrom(self, s, st):
		return st.assign([a.asname or a.name for a in s.names if a.name != '*'])

	def s_FunctionDef(self, s, st):
		for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x]:
			st = self.expr(d, st)
		return st.assign([s.name])

	s_AsyncFunctionDef = s_FunctionDef

	def s_ClassDef(self, s, st):
		return st.assign([s.name])

	def s_Try(self, s, st):
		self.tries.append([st])
		end = self.block(s.body, st)
		pts = self.tries.pop()
		entry = None
		for x in pts:
			if x is not None:
				entry = x.join(entry)
		outs = []
		for h in s.handlers:
			e = tagged(entry, '#exc')
			if h.type is not None:
				self.expr(h.type, e)
			if h.name:
				e = e.assign([h.name])
			o = self.block(h.body, e)
			if o is not None:
				outs.append(o.delete([h.name]) if h.name else o)
		if end is not None and s.orelse:
			end = self.block(s.orelse, end)
		if end is not None:
			outs.append(end)
		out = None
		for o in outs:
			out = o.join(out)
		if s.finalbody:
			if out is None:
				self.block(s.finalbody, entry)
			else:
				out = self.block(s.finalbody, out)
		return out


def nonempty_iter(e):
	if isinstance(e, (ast.List, ast.Tuple)):
		return len(e.elts) > 0
	if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'range' and all(isinstance(a, ast.Constant) for a in e.args):
		try:
			return len(range(*[a.value for a in e.args])) > 0
		except Exception:
			return False
	return False
