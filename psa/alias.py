"""May-alias and mutation analysis: which caller-owned objects (arguments, their contents, defaults, module-level
containers, attributes that still share the caller's object) does each function modify in place?

A value is (obj, elem): the origins the object itself may be, and those its contents may be.  Origins:
('p', name) the argument, ('e', name) something inside it, ('s', attr) what self.attr holds, ('se', attr) inside it,
('me',) self, ('g', name) a module-level container."""
import ast

E0 = frozenset()

ALIAS_FUN = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes', 'expand_dims', 'moveaxis', 'rollaxis',
	'broadcast_to', 'ascontiguousarray', 'asfortranarray', 'asmatrix', 'real', 'imag', 'split', 'array_split', 'hsplit', 'vsplit', 'flip', 'fliplr', 'flipud', 'rot90', 'asfarray', 'require'}
ALIAS_METH = {'reshape', 'ravel', 'squeeze', 'view', 'transpose', 'swapaxes', '__iter__', 'diagonal'}
ALIAS_ATTR = {'T', 'real', 'imag', 'flat', 'base'}
PLAIN_ATTR = {'shape', 'ndim', 'size', 'dtype', '__name__', '__class__', 'itemsize', 'nbytes'}
MUT_METH = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', 'fill', 'itemset', 'resize', 'put', 'partition',
	'appendleft', 'popleft', 'setfield', 'byteswap', 'intersection_update', 'difference_update', 'symmetric_difference_update'}
ADDS = {'append': 0, 'insert': 1, 'add': 0, 'appendleft': 0, 'setdefault': 1}
MUT_FUN = {'fill_diagonal': 0, 'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'shuffle': 0, 'put_along_axis': 0, 'heappush': 0, 'heappop': 0, 'heapify': 0, 'setattr': 0, 'delattr': 0}
ARRAY_USE = {'shape', 'T', 'dot', 'reshape', 'flatten', 'ndim', 'size', 'ravel', 'append', 'copy', 'items', 'keys', 'get', 'sum', 'dtype', 'update', 'extend', 'astype', 'tolist', 'mean', 'max', 'min'}


class Val:
	__slots__ = ('obj', 'elem', 'items', 'kind')

	def __init__(self, obj=E0, elem=E0, items=None, kind=None):
		self.obj, self.elem, self.items, self.kind = frozenset(obj), frozenset(elem), items, kind

	def join(self, o):
		if o is None or o is self:
			return self
		items = None
		if self.items is not None and o.items is not None and len(self.items) == len(o.items):
			items = [a.join(b) for a, b in zip(self.items, o.items)]
		return Val(self.obj | o.obj, self.elem | o.elem, items, self.kind if self.kind == o.kind else None)

	def all(self):
		return self.obj | self.elem

	def __eq__(self, o):
		return isinstance(o, Val) and (self.obj, self.elem, self.kind) == (o.obj, o.elem, o.kind)

	def __repr__(self):
		return '<%s|%s %s>' % (sorted(self.obj), sorted(self.elem), self.kind)


FRESH = Val()
INT = Val(kind='int')


class Summary:
	def __init__(self):
		self.mut = {}        # origin -> [(where, how, definite)]
		self.ret = FRESH
		self.stores = {}     # attr -> origins of the caller's objects put there
		self.selems = {}

	def key(self):
		return ({k: len(v) for k, v in self.mut.items()}, self.ret.obj, self.ret.elem, {k: v for k, v in self.stores.items()}, dict(self.selems))


class World:
	def __init__(self, P):
		self.P = P
		self.funcs = list(P.all_functions())
		self.by_node = {id(f.node): f for f in self.funcs}
		self.methods = {}
		self.classes = list({id(c): c for c in P.classes()}.values())
		for c in self.classes:
			for n, f in c.methods.items():
				self.methods.setdefault(n, []).append(f)
		self.sub = {}
		for c in self.classes:
			for b in c.mro():
				self.sub.setdefault(id(b), []).append(c)
		self.sums = {id(f.node): Summary() for f in self.funcs}
		for rnd in range(6):
			changed = False
			for f in self.funcs:
				if f.parent is not None:
					continue
				old = self.sums[id(f.node)].key()
				self.sums[id(f.node)] = Walk(self, f).run()
				changed |= self.sums[id(f.node)].key() != old
			if not changed:
				break
		self.rounds = rnd + 1

	def summary(self, f):
		return self.sums.get(id(f.node)) or Summary()

	def stored(self, cls):
		"""attr -> caller origins kept in it by the class or its relatives: {attr: {(func, origin)}}"""
		out = {}
		for c in cls.mro() + self.sub.get(id(cls), []):
			for f in list(c.methods.values()) + list(c.setters.values()):
				for a, os in self.summary(f).stores.items():
					for o in os:
						out.setdefault(a, set()).add((f.short, o))
		return out


def evidence(fn):
	"""names used as arrays, lists or dictionaries; names that are plainly numbers"""
	arr, num = set(), set()
	for n in ast.walk(fn):
		if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
			arr.add(n.value.id)
		elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ARRAY_USE:
			arr.add(n.value.id)
		elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'enumerate', 'zip'):
			arr |= {a.id for a in n.args if isinstance(a, ast.Name)}
		elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name):
			arr.add(n.iter.id)
		elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and makes_array(n.value):
			arr.add(n.targets[0].id)
		elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
			arr |= {x.id for x in (n.left, n.right) if isinstance(x, ast.Name)}
		elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('dot', 'vstack', 'hstack', 'svd', 'asarray', 'atleast_1d', 'atleast_2d'):
			arr |= {a.id for a in n.args if isinstance(a, ast.Name)}
		elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('range', 'float', 'int'):
			num |= {a.id for a in n.args if isinstance(a, ast.Name)}
	a = getattr(fn, 'args', None)
	if a is not None:
		ps = a.posonlyargs + a.args
		for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
			if isinstance(d, ast.Constant) and isinstance(d.value, (int, float)) and not isinstance(d.value, bool):
				num.add(p.arg)
	doc = ast.get_docstring(fn) if isinstance(fn, ast.FunctionDef) else None
	if doc:
		for line in doc.splitlines():
			name, sep, rest = line.strip().partition(':')
			if sep and name.strip().isidentifier() and any(w in rest.lower() for w in ('array', 'list', 'dict', 'matrix', 'vector')):
				arr.add(name.strip())
	return arr - num, num


MAKES = {'ones', 'zeros', 'empty', 'full', 'eye', 'array', 'arange', 'linspace', 'copy', 'vstack', 'hstack', 'ones_like', 'zeros_like', 'atleast_1d', 'atleast_2d'}


def makes_array(e):
	"""an expression that is an array: a constructor of numpy, possibly times or over something"""
	if isinstance(e, ast.BinOp):
		return makes_array(e.left) or makes_array(e.right)
	return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ('np', 'numpy') and e.func.attr in MAKES


def params_of(fn):
	a = fn.args
	return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None


class Walk:
	def __init__(self, W, f):
		self.W, self.f, self.P = W, f, W.P
		self.fn = f.node
		self.arr, self.num = evidence(self.fn)
		self.attr_arr = None
		self.s = Summary()
		self.me = None
		self.nested = {}
		self.depth = 0

	def run(self):
		pos, kwo, va, vk = params_of(self.fn)
		env = {}
		self.cls = self.f.cls
		if self.f.cls is not None and not self.f.is_static and pos:
			self.me = pos[0]
			env[pos[0]] = Val({('me',)}, E0, kind='self') if not self.f.is_classmethod else FRESH
			pos = pos[1:]
		for p in pos + kwo:
			env[p] = Val({('p', p)}, {('e', p)})
		if va:
			env[va] = Val(E0, {('e', va)}, kind='list')
		if vk:
			env[vk] = Val(E0, {('e', vk)}, kind='dict')
		body = self.fn.body if isinstance(self.fn.body, list) else [ast.Return(self.fn.body)]
		self.env = env
		self.block(body)
		# nested functions run again with everything the function ever bound
		for name, node in list(self.nested.items()):
			self.inner(node)
		return self.s

	# -- effects
	def mutate(self, v, node, how, definite=True):
		for o in v.obj:
			if o == ('me',):
				continue
			w = '%s line %d' % (self.f.short, getattr(node, 'lineno', 0))
			L = self.s.mut.setdefault(o, [])
			if not any(x[0] == w and x[1] == how for x in L):
				L.append((w, how, definite))

	def blockjoin(self, bodies):
		env0 = self.env
		outs = []
		for b in bodies:
			self.env = dict(env0)
			live = self.block(b)
			if live:
				outs.append(self.env)
		if not outs:
			self.env = dict(env0)
			return False
		self.env = self.merge(outs)
		return True

	@staticmethod
	def merge(envs):
		out = dict(envs[0])
		for e in envs[1:]:
			for k, v in e.items():
				out[k] = out[k].join(v) if k in out else v
		return out

	def block(self, body):
		for s in body:
			if not self.stmt(s):
				return False
		return True

	def stmt(self, s):
		"""False when control does not continue after the statement"""
		t = type(s).__name__
		if t == 'Assign':
			v = self.ev(s.value)
			for tg in s.targets:
				self.assign(tg, v, s)
		elif t == 'AnnAssign':
			if s.value is not None:
				self.assign(s.target, self.ev(s.value), s)
		elif t == 'AugAssign':
			r = self.ev(s.value)
			if isinstance(s.target, ast.Name):
				v = self.env.get(s.target.id)
				if v is not None:
					self.augment(v, s, s.target.id in self.arr and s.target.id not in self.num)
					if v.kind == 'list':
						self.env[s.target.id] = Val(v.obj, v.elem | r.elem, None, v.kind)
			elif isinstance(s.target, ast.Attribute):
				base = self.ev(s.target.value)
				cur = self.attr(base, s.target.attr, s)
				if ('me',) in base.obj:
					self.augment(cur, s, self.attr_array(s.target.attr))
				else:
					self.mutate(base, s, 'attribute %s augmented' % s.target.attr)
			else:
				self.store_sub(s.target, FRESH, s)
		elif t == 'Expr':
			self.ev(s.value)
		elif t == 'Return':
			if s.value is not None:
				self.s.ret = self.s.ret.join(self.ev(s.value)) if self.depth == 0 else self.s.ret
				if self.depth == 0:
					pass
			return False
		elif t == 'Raise':
			if s.exc is not None:
				self.ev(s.exc)
			return False
		elif t in ('Break', 'Continue'):
			self.brk.append(dict(self.env)) if getattr(self, 'brk', None) is not None else None
			return False
		elif t == 'If':
			self.ev(s.test)
			return self.blockjoin([s.body, s.orelse])
		elif t in ('For', 'AsyncFor'):
			it = self.ev(s.iter)
			self.loop(s, lambda: self.assign(s.target, self.element(it, s.iter), s))
		elif t == 'While':
			self.ev(s.test)
			self.loop(s, lambda: None)
		elif t == 'Try':
			env0 = dict(self.env)
			live = self.block(s.body)
			outs = [self.env] if live else []
			if live and s.orelse:
				live = self.block(s.orelse)
				outs = [self.env] if live else []
			base = self.merge([env0, self.env])
			for h in s.handlers:
				self.env = dict(base)
				if h.name:
					self.env[h.name] = FRESH
				if self.block(h.body):
					outs.append(self.env)
			if outs:
				self.env = self.merge(outs)
			if s.finalbody:
				self.block(s.finalbody)
			return bool(outs)
		elif t in ('With', 'AsyncWith'):
			for i in s.items:
				v = self.ev(i.context_expr)
				if i.optional_vars is not None:
					self.assign(i.optional_vars, v, s)
			return self.block(s.body)
		elif t == 'Delete':
			for x in s.targets:
				if isinstance(x, ast.Subscript):
					self.mutate(self.ev(x.value), s, 'item deleted')
				elif isinstance(x, ast.Name):
					self.env.pop(x.id, None)
		elif t in ('FunctionDef', 'AsyncFunctionDef'):
			self.nested[s.name] = s
			self.env[s.name] = Val(kind='func:' + s.name)
			self.inner(s)
		elif t == 'Assert':
			self.ev(s.test)
		elif t in ('Import', 'ImportFrom'):
			for a in s.names:
				self.env.pop((a.asname or a.name).split('.')[0], None)
		return True

	def loop(self, s, head):
		old = getattr(self, 'brk', None)
		env0 = dict(self.env)
		for _ in range(3):
			self.brk = []
			start = dict(self.env)
			head()
			live = self.block(s.body)
			outs = ([self.env] if live else []) + self.brk
			nxt = self.merge([start] + outs)
			same = nxt == start
			self.env = nxt
			if same:
				break
		self.env = self.merge([env0, self.env])
		self.brk = old
		if getattr(s, 'orelse', None):
			self.block(s.orelse)

	def inner(self, node):
		if self.depth > 3:
			return
		save, saved_nested = self.env, dict(self.nested)
		env = dict(self.env)
		pos, kwo, va, vk = params_of(node)
		for p in pos + kwo + [x for x in (va, vk) if x]:
			env[p] = FRESH
		self.env = env
		self.depth += 1
		oldbrk, self.brk = getattr(self, 'brk', None), None
		a2, n2 = evidence(node)
		olda, oldn = self.arr, self.num
		self.arr = self.arr | a2
		self.block(node.body if isinstance(node.body, list) else [ast.Expr(node.body)])
		self.arr, self.num = olda, oldn
		self.brk = oldbrk
		self.depth -= 1
		self.env, self.nested = save, saved_nested

	def augment(self, v, s, is_array):
		if not v.obj:
			return
		if v.kind in ('int', 'num'):
			return
		self.mutate(v, s, 'augmented in place', is_array)

	def attr_array(self, attr):
		if self.attr_arr is None:
			self.attr_arr = set()
			g = self.f
			while g is not None and g.cls is None:
				g = g.parent
			if g is not None:
				for c in g.cls.mro() + self.W.sub.get(id(g.cls), []):
					for n in ast.walk(c.node):
						if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute):
							self.attr_arr.add(n.value.attr)
						elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.attr in ARRAY_USE:
							self.attr_arr.add(n.value.attr)
						elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len':
							self.attr_arr |= {a.attr for a in n.args if isinstance(a, ast.Attribute)}
						elif isinstance(n, ast.FunctionDef):
							names = evidence(n)[0]
							for m in ast.walk(n):
								if isinstance(m, ast.Assign) and (makes_array(m.value) or isinstance(m.value, ast.Name) and m.value.id in names):
									self.attr_arr |= {t.attr for t in m.targets if isinstance(t, ast.Attribute)}
		return attr in self.attr_arr

	def assign(self, t, v, node):
		if isinstance(t, ast.Name):
			self.env[t.id] = v
		elif isinstance(t, (ast.Tuple, ast.List)):
			star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
			for i, e in enumerate(t.elts):
				if v.items is not None and len(v.items) == len(t.elts) and not star:
					x = v.items[i]
				else:
					x = Val(v.elem, v.elem) if v.kind in ('list', 'dict') else Val(v.all(), v.elem)
				self.assign(e.value if isinstance(e, ast.Starred) else e, x, node)
		elif isinstance(t, ast.Attribute):
			base = self.ev(t.value)
			if ('me',) in base.obj:
				self.keep(t.attr, v)
				rest = Val(base.obj - {('me',)})
				self.env['self.' + t.attr] = v
			else:
				rest = base
			if rest.obj:
				if self.f.cls is None or not self.own_class(rest):
					self.mutate(rest, node, 'attribute %s assigned' % t.attr)
		elif isinstance(t, ast.Subscript):
			self.store_sub(t, v, node)

	def own_class(self, v):
		return False

	def keep(self, attr, v):
		o = {x for x in v.obj if x[0] in ('p', 'e')}
		if o:
			self.s.stores[attr] = self.s.stores.get(attr, E0) | o
		e = {x for x in v.elem if x[0] in ('p', 'e')}
		if e:
			self.s.selems[attr] = self.s.selems.get(attr, E0) | e

	def store_sub(self, t, v, node):
		base = self.ev(t.value)
		self.ev(t.slice)
		self.mutate(base, node, 'item assigned')
		if base.kind in ('list', 'dict') and v.all():
			self.widen(t.value, v.all())

	def widen(self, e, origins):
		"""the container named by the expression now also holds these"""
		if isinstance(e, ast.Name) and e.id in self.env:
			o = self.env[e.id]
			self.env[e.id] = Val(o.obj, o.elem | origins, None, o.kind)
		elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me:
			c = {x for x in origins if x[0] in ('p', 'e')}
			if c:
				self.s.selems[e.attr] = self.s.selems.get(e.attr, E0) | c

	def element(self, v, it=None):
		if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
			n = it.func.id
			if n == 'range':
				return INT
			if n == 'enumerate' and it.args:
				return Val(items=[INT, self.element(self.ev(it.args[0]), it.args[0])])
			if n == 'zip':
				return Val(items=[self.element(self.ev(a), a) for a in it.args])
		if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items':
			b = self.ev(it.func.value)
			return Val(items=[FRESH, Val(b.elem, b.elem)])
		if v.kind in ('list', 'dict', 'tuple'):
			return Val(v.elem, v.elem)
		return Val(v.all(), v.elem)

	# -- expressions
	def ev(self, e):
		m = getattr(self, 'e_' + type(e).__name__, None)
		if m is not None:
			return m(e)
		for c in ast.iter_child_nodes(e):
			if isinstance(c, ast.expr):
				self.ev(c)
		return FRESH

	def e_Name(self, e):
		if e.id in self.env:
			return self.env[e.id]
		r = self.P.lookup(self.f.module, e.id)
		if r and r[0] == 'assign':
			if isinstance(r[1], (ast.Dict, ast.List, ast.Set)) or isinstance(r[1], ast.Call) and ast.unparse(r[1].func) in ('dict', 'list', 'set', 'np.array', 'np.zeros', 'np.ones', 'defaultdict', 'OrderedDict'):
				m = r[2].name if len(r) > 2 else self.f.module.name
				return Val({('g', '%s.%s' % (m, e.id))}, {('g', '%s.%s[]' % (m, e.id))})
		return FRESH

	def e_Constant(self, e):
		return INT if isinstance(e.value, int) and not isinstance(e.value, bool) else Val(kind='num') if isinstance(e.value, float) else FRESH

	def e_Attribute(self, e):
		if isinstance(e.value, ast.Name) and e.value.id == self.me and 'self.' + e.attr in self.env:
			b = self.env['self.' + e.attr]
			return Val(b.obj | {('s', e.attr)}, b.elem | {('se', e.attr)}, b.items, b.kind)
		return self.attr(self.ev(e.value), e.attr, e)

	def attr(self, base, name, node):
		if name in PLAIN_ATTR:
			return FRESH
		out = FRESH
		if ('me',) in base.obj:
			c = self.mycls()
			fs = []
			if c is not None:
				for d in [c] + self.W.sub.get(id(c), []):
					k = d.lookup(name)
					if k and k[0] == 'method' and k[1] not in fs:
						fs.append(k[1])
			if fs:
				for g in fs:
					if g.is_property:
						out = out.join(self.apply(g, base, [], {}, node))
						if g.is_cached_property:
							r = self.W.summary(g).ret
							out = out.join(Val({('s', name)}, {('se', name)}))
			else:
				out = out.join(Val({('s', name)}, {('se', name)}))
		rest = base.obj - {('me',)}
		if rest or base.elem:
			if name in ALIAS_ATTR:
				return out.join(Val(rest, base.elem, None))
			props = [g for g in self.W.methods.get(name, []) if g.is_property]
			if props:
				for g in props:
					out = out.join(self.apply(g, Val(rest, base.elem), [], {}, node))
			elif name not in self.W.methods:
				out = out.join(Val(base.elem, base.elem))
		return out

	def mycls(self):
		g = self.f
		while g is not None and g.cls is None:
			g = g.parent
		return g.cls if g is not None else None

	def e_Subscript(self, e):
		b = self.ev(e.value)
		i = self.ev(e.slice) if not isinstance(e.slice, ast.Slice) else None
		if b.items is not None and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(b.items) <= e.slice.value < len(b.items):
			return b.items[e.slice.value]
		if not b.all():
			return FRESH
		if self.viewing(e.slice, i):
			if b.kind in ('list', 'dict', 'tuple'):
				if isinstance(e.slice, ast.Slice):
					return Val(E0, b.elem, None, b.kind)
				return Val(b.elem, b.elem)
			return Val(b.all(), b.elem)
		if b.kind in ('list', 'dict', 'tuple'):
			return Val(b.elem, b.elem)
		return FRESH

	def viewing(self, s, v):
		"""the index is an integer, a slice, a string or a tuple of such (a view or an element), not an index array"""
		if isinstance(s, ast.Slice) or v is not None and v.kind == 'int':
			return True
		if isinstance(s, ast.Constant):
			return True
		if isinstance(s, ast.UnaryOp):
			return self.viewing(s.operand, self.ev(s.operand))
		if isinstance(s, ast.Tuple):
			return all(self.viewing(x, self.ev(x) if not isinstance(x, ast.Slice) else None) for x in s.elts)
		return False

	def e_BinOp(self, e):
		a, b = self.ev(e.left), self.ev(e.right)
		if a.kind == 'int' and b.kind == 'int':
			return INT
		if isinstance(e.op, ast.Add) and (a.kind in ('list', 'tuple') or b.kind in ('list', 'tuple')):
			return Val(E0, a.elem | b.elem, None, a.kind or b.kind)
		return FRESH

	def e_UnaryOp(self, e):
		v = self.ev(e.operand)
		return INT if v.kind == 'int' else FRESH

	def e_BoolOp(self, e):
		out = None
		for x in e.values:
			v = self.ev(x)
			out = v if out is None else out.join(v)
		return out

	def e_IfExp(self, e):
		self.ev(e.test)
		return self.ev(e.body).join(self.ev(e.orelse))

	def e_NamedExpr(self, e):
		v = self.ev(e.value)
		self.env[e.target.id] = v
		return v

	def seq(self, e, kind):
		vs = [self.ev(x.value if isinstance(x, ast.Starred) else x) for x in e.elts]
		el = E0
		for x, v in zip(e.elts, vs):
			el |= v.elem if isinstance(x, ast.Starred) else v.all()
		return Val(E0, el, vs if not any(isinstance(x, ast.Starred) for x in e.elts) else None, kind)

	def e_List(self, e):
		return self.seq(e, 'list')

	def e_Tuple(self, e):
		return self.seq(e, 'tuple')

	def e_Set(self, e):
		return self.seq(e, 'list')

	def e_Dict(self, e):
		el = E0
		for k, v in zip(e.keys, e.values):
			x = self.ev(v)
			el |= x.elem if k is None else x.all()
			if k is not None:
				self.ev(k)
		return Val(E0, el, None, 'dict')

	def comp(self, e, elts):
		save = dict(self.env)
		for g in e.generators:
			it = self.ev(g.iter)
			self.assign(g.target, self.element(it, g.iter), e)
			for c in g.ifs:
				self.ev(c)
		el = E0
		for x in elts:
			el |= self.ev(x).all()
		self.env = save
		return el

	def e_ListComp(self, e):
		return Val(E0, self.comp(e, [e.elt]), None, 'list')

	e_SetComp = e_GeneratorExp = e_ListComp

	def e_DictComp(self, e):
		return Val(E0, self.comp(e, [e.key, e.value]), None, 'dict')

	def e_Lambda(self, e):
		self.inner(e)
		return FRESH

	def e_Starred(self, e):
		return self.ev(e.value)

	def e_Await(self, e):
		return self.ev(e.value)

	def e_Call(self, e):
		f = e.func
		args = [self.ev(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
		kws = {}
		dstar = []
		for k in e.keywords:
			v = self.ev(k.value)
			if k.arg is None:
				dstar.append(v)
			else:
				kws[k.arg] = v
		star = any(isinstance(a, ast.Starred) for a in e.args)
		if 'out' in kws:
			o = kws['out']
			self.mutate(o, e, 'given as out=')
			if o.items:
				for x in o.items:
					self.mutate(x, e, 'given as out=')
		for k, v in zip(e.keywords, [self.ev(k.value) for k in e.keywords]):
			if k.arg and k.arg.startswith('overwrite') and isinstance(k.value, ast.Constant) and k.value.value is True and args:
				self.mutate(args[0 if k.arg in ('overwrite_a', 'overwrite_x', 'overwrite_ab') or len(args) < 2 else 1], e, 'overwritten by the solver')
		full = self.extname(f)
		if full is not None:
			return self.external(full, args, kws, e)
		if isinstance(f, ast.Name):
			v = self.env.get(f.id)
			if v is not None:
				if f.id in self.nested:
					node = self.nested[f.id]
					return self.call_nested(node, args, kws)
				return FRESH
			r = self.P.lookup(self.f.module, f.id)
			return self.callref(r, args, kws, e, dstar)
		if isinstance(f, ast.Attribute):
			if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
				c = self.mycls()
				out = FRESH
				k = c.lookup(f.attr, after=c) if c else None
				if k and k[0] == 'method':
					return self.apply(k[1], Val({('me',)}, kind='self'), args, kws, e, dstar)
				return FRESH
			if isinstance(f.value, ast.Name) and f.value.id not in self.env:
				r = self.P.lookup(self.f.module, f.value.id)
				if r and r[0] == 'class':
					k = r[1].lookup(f.attr)
					if k and k[0] == 'method':
						if k[1].is_static or k[1].is_classmethod:
							return self.apply(k[1], FRESH, args, kws, e, dstar)
						return self.apply(k[1], args[0] if args else FRESH, args[1:], kws, e, dstar)
					return FRESH
				if r and r[0] == 'module':
					return self.callref(self.P.lookup(r[1], f.attr), args, kws, e, dstar)
			base = self.ev(f.value)
			return self.methcall(base, f, args, kws, e, dstar)
		self.ev(f)
		return FRESH

	def call_nested(self, node, args, kws):
		"""a local function: run its body with these arguments, its mutations are ours"""
		if self.depth > 3:
			return FRESH
		save, sb = self.env, getattr(self, 'brk', None)
		env = dict(self.env)
		pos, kwo, va, vk = params_of(node)
		for p in pos + kwo + [x for x in (va, vk) if x]:
			env[p] = FRESH
		for p, v in zip(pos, args):
			env[p] = v
		for k, v in kws.items():
			env[k] = v
		self.env, self.brk = env, None
		self.depth += 1
		keep = self.s.ret
		rets = []
		old_stmt = self.stmt

		self.s.ret = FRESH
		olda = self.arr
		self.arr = self.arr | evidence(node)[0]
		d, self.depth_ret = self.depth, True
		r = self.nested_ret(node)
		self.arr = olda
		self.depth -= 1
		self.s.ret = keep
		self.env, self.brk = save, sb
		return r

	def nested_ret(self, node):
		out = FRESH
		self.block(node.body)
		for n in ast.walk(node):
			if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, (ast.Name, ast.Tuple)):
				out = out.join(self.ev(n.value))
		return out

	def extname(self, f):
		parts = []
		n = f
		while isinstance(n, ast.Attribute):
			parts.append(n.attr)
			n = n.value
		if not isinstance(n, ast.Name) or n.id in self.env:
			return None
		r = self.P.lookup(self.f.module, n.id)
		if r is None:
			imp = self.local_import(n.id)
			if imp is None:
				import builtins
				return 'builtins.' + n.id if not parts and hasattr(builtins, n.id) else None
			r = self.P._deref(imp, set()) or (None,)
		if r[0] != 'ext':
			return None
		return '.'.join([r[1]] + parts[::-1])

	def local_import(self, name):
		for n in ast.walk(self.fn):
			if isinstance(n, (ast.Import, ast.ImportFrom)):
				for nm, b in self.f.module.import_bindings(n):
					if nm == name:
						return b
		return None

	def external(self, full, args, kws, e):
		last = full.rsplit('.', 1)[-1]
		a0 = args[0] if args else FRESH
		if last in MUT_FUN and len(args) > MUT_FUN[last]:
			self.mutate(args[MUT_FUN[last]], e, 'modified by %s' % last)
		if full.endswith('.at') and args and full.startswith('numpy'):
			self.mutate(a0, e, 'modified by ufunc.at')
		if full.startswith('numpy.'):
			if last in ('array', 'nan_to_num'):
				c = [k.value for k in e.keywords if k.arg == 'copy']
				if c and isinstance(c[0], ast.Constant) and c[0].value is False:
					if last == 'nan_to_num':
						self.mutate(a0, e, 'modified by nan_to_num')
					return Val(a0.all() if a0.kind is None else a0.obj, a0.elem)
				return FRESH
			if last in ALIAS_FUN:
				if a0.kind in ('list', 'tuple'):
					return FRESH
				v = Val(a0.obj, a0.elem)
				if len(args) > 1 and last in ('atleast_1d', 'atleast_2d'):
					return Val(items=args)
				return v
			if last in ('argmin', 'argmax', 'count_nonzero'):
				return INT
			return FRESH
		if full.startswith('builtins.'):
			if last in ('len', 'int', 'range', 'ord', 'hash', 'id', 'round'):
				return INT
			if last in ('float', 'abs', 'bool', 'str', 'repr', 'complex', 'isinstance', 'print', 'all', 'any', 'type'):
				return FRESH
			if last in ('list', 'tuple', 'sorted', 'set', 'reversed', 'iter', 'filter', 'frozenset'):
				x = args[-1] if last == 'filter' and args else a0
				return Val(E0, x.elem | (x.obj if x.kind is None else E0), None, 'list')
			if last == 'dict':
				el = a0.elem
				for v in kws.values():
					el |= v.all()
				for k in e.keywords:
					if k.arg is None:
						el |= self.ev(k.value).elem
				return Val(E0, el, None, 'dict')
			if last in ('min', 'max', 'next'):
				out = FRESH
				if len(args) == 1 or last == 'next':
					return Val(a0.elem, a0.elem)
				for v in args:
					out = out.join(v)
				return out
			if last == 'getattr':
				return Val(a0.elem, a0.elem)
			if last in ('enumerate', 'zip', 'map'):
				el = E0
				for v in args:
					el |= v.all()
				return Val(E0, el, None, 'list')
			return FRESH
		if full in ('copy.copy',):
			return Val(E0, a0.elem, None, a0.kind)
		if full.startswith('itertools.'):
			el = E0
			for v in args:
				el |= v.elem
			return Val(E0, el, None, 'list')
		return FRESH

	def callref(self, r, args, kws, e, dstar=()):
		if r is None:
			return FRESH
		if r[0] == 'func':
			return self.apply(r[1], None, args, kws, e, dstar)
		if r[0] == 'class':
			k = r[1].lookup('__init__')
			el = E0
			if k and k[0] == 'method':
				s = self.W.summary(k[1])
				m = self.mapping(k[1], FRESH, args, kws, dstar, skip=1)
				self.effects(k[1], s, m, e)
				for a, os in list(s.stores.items()) + list(s.selems.items()):
					for o in os:
						el |= m(o)
			return Val(E0, el)
		return FRESH

	def methcall(self, base, f, args, kws, e, dstar):
		name = f.attr
		if ('me',) in base.obj:
			c = self.mycls()
			out = FRESH
			seen = []
			for d in ([c] + self.W.sub.get(id(c), [])) if c else []:
				k = d.lookup(name)
				if k and k[0] == 'method' and k[1] not in seen:
					seen.append(k[1])
					out = out.join(self.apply(k[1], base, args, kws, e, dstar))
			return out
		lib = self.W.methods.get(name, [])
		if base.kind not in ('list', 'dict', 'tuple') and lib and not any(g.is_property for g in lib):
			# a method of some object of the library; in place methods of arrays with the same name are covered by kind
			out = FRESH
			for g in lib:
				out = out.join(self.apply(g, base, args, kws, e, dstar, soft=len(lib) > 1))
			if name not in MUT_METH and name not in ALIAS_METH:
				return out
		if name in MUT_METH:
			self.mutate(base, e, '.%s()' % name, not lib)
			if name in ADDS and len(args) > ADDS[name]:
				self.widen(f.value, args[ADDS[name]].all())
			elif name in ('extend', 'update') and args:
				el = args[0].elem
				self.widen(f.value, el)
			if name in ('pop', 'setdefault', 'popleft', 'popitem'):
				return Val(base.elem, base.elem)
			return FRESH
		if name in ALIAS_METH:
			return Val(base.obj, base.elem)
		if name in ('get',):
			return Val(base.elem, base.elem)
		if name in ('items', 'values', 'keys'):
			return Val(E0, base.elem, None, 'list')
		if name == 'copy' and base.kind in ('list', 'dict'):
			return Val(E0, base.elem, None, base.kind)
		return FRESH

	def mapping(self, g, recv, args, kws, dstar=(), skip=0):
		pos, kwo, va, vk = params_of(g.node)
		if skip and not g.is_static:
			pos = pos[1:]
		bound = {}
		for p, v in zip(pos, args):
			bound[p] = v
		if va and len(args) > len(pos):
			el = E0
			for v in args[len(pos):]:
				el |= v.all()
			bound[va] = Val(E0, el, None, 'list')
		extra = E0
		for k, v in kws.items():
			if k in pos or k in kwo:
				bound[k] = v
			else:
				extra |= v.all()
		for v in dstar:
			extra |= v.elem
		if vk:
			bound[vk] = Val(E0, extra, None, 'dict')

		def m(o):
			if o[0] == 'p':
				v = bound.get(o[1])
				return v.obj if v is not None else frozenset()
			if o[0] == 'e':
				v = bound.get(o[1])
				if v is None:
					return frozenset()
				return v.elem if v.kind in ('list', 'dict', 'tuple') else v.elem
			if o == ('me',):
				return recv.obj if recv is not None else E0
			if o[0] in ('s', 'se'):
				if recv is None:
					return E0
				if ('me',) in recv.obj:
					return frozenset({o}) | recv.elem
				return recv.elem
			return frozenset({o})
		m.bound, m.recv = bound, recv
		return m

	def effects(self, g, s, m, e, soft=False):
		for o, sites in s.mut.items():
			if o == ('me',) or o[0] in ('s', 'se') and not (m.recv is not None and ('me',) in m.recv.obj):
				continue        # an object's own state: judged at its class
			tgt = m(o)
			for t in tgt:
				if t == ('me',):
					continue
				L = self.s.mut.setdefault(t, [])
				for w, how, d in sites[:3]:
					how2 = how if how.startswith('in ') else 'in %s: %s' % (g.short, how)
					if not any(x[0] == w for x in L):
						L.append((w, how2, d and not soft))

	def apply(self, g, recv, args, kws, e, dstar=(), soft=False):
		s = self.W.summary(g)
		m = self.mapping(g, recv, args, kws, dstar, skip=1 if g.cls is not None and not g.is_static else 0)
		self.effects(g, s, m, e, soft)
		if recv is not None and ('me',) in recv.obj:
			for a, os in s.stores.items():
				for o in os:
					self.keep(a, Val(m(o)))
			for a, os in s.selems.items():
				for o in os:
					self.keep(a, Val(E0, m(o)))
		elif recv is not None and s.stores and g.name not in ('__init__',) and any(o[0] in ('p', 'e', 'g') for o in recv.obj):
			pass
		ob, el = E0, E0
		for o in s.ret.obj:
			ob |= m(o)
		for o in s.ret.elem:
			el |= m(o)
		items = None
		if s.ret.items is not None:
			items = []
			for it in s.ret.items:
				a, b = E0, E0
				for o in it.obj:
					a |= m(o)
				for o in it.elem:
					b |= m(o)
				items.append(Val(a, b))
		return Val(ob, el, items, s.ret.kind if s.ret.kind in ('list', 'dict', 'int') else None)
