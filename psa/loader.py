"""Parses every module of the package under analysis and resolves names,
imports (including star imports and __all__), classes and their MRO."""
from __future__ import annotations
import ast, os, builtins

BUILTINS = set(dir(builtins))


class AnalysisBroken(Exception):
	"""The analysed program no longer contains something a rule is anchored on."""


class Func:
	def __init__(self, node, module, cls=None, parent=None):
		self.node = node
		self.module = module
		self.cls = cls
		self.parent = parent
		self.name = getattr(node, 'name', '<lambda>')
		self.decorators = [self._dec(d) for d in getattr(node, 'decorator_list', [])]

	@staticmethod
	def _dec(d):
		if isinstance(d, ast.Call):
			d = d.func
		if isinstance(d, ast.Attribute):
			return d.attr if not isinstance(d.value, ast.Name) else d.value.id + '.' + d.attr
		return d.id if isinstance(d, ast.Name) else '?'

	@property
	def is_property(self):
		return any(d in ('property', 'cached_property', 'functools.cached_property') for d in self.decorators)

	@property
	def is_cached_property(self):
		return any(d in ('cached_property', 'functools.cached_property') for d in self.decorators)

	@property
	def is_static(self):
		return 'staticmethod' in self.decorators

	@property
	def is_classmethod(self):
		return 'classmethod' in self.decorators

	@property
	def qualname(self):
		if self.cls is not None:
			return '%s.%s.%s' % (self.module.name, self.cls.name, self.name)
		if self.parent is not None:
			return '%s.%s' % (self.parent.qualname, self.name)
		return '%s.%s' % (self.module.name, self.name)

	@property
	def short(self):
		q = self.qualname
		return q[5:] if q.startswith('psdr.') else q

	def __repr__(self):
		return '<Func %s>' % self.qualname


class Class:
	def __init__(self, node, module):
		self.node = node
		self.module = module
		self.name = node.name
		self.methods = {}
		self.attrs = {}
		self.setters = {}
		for st in node.body:
			if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
				decs = [Func._dec(d) for d in st.decorator_list]
				if any(d.endswith('.setter') for d in decs):
					self.setters[st.name] = Func(st, module, self)
				else:
					self.methods[st.name] = Func(st, module, self)
			elif isinstance(st, ast.Assign):
				for t in st.targets:
					if isinstance(t, ast.Name):
						self.attrs[t.id] = st.value
			elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
				self.attrs[st.target.id] = st.value
		self._mro = None

	@property
	def qualname(self):
		return '%s.%s' % (self.module.name, self.name)

	def bases(self):
		out = []
		for b in self.node.bases:
			r = self.module.project.resolve_expr(self.module, b)
			out.append(r)
		return out

	def mro(self):
		if self._mro is None:
			seqs = []
			bs = [b[1] for b in self.bases() if b and b[0] == 'class']
			for b in bs:
				seqs.append(list(b.mro()))
			seqs.append(list(bs))
			res = [self]
			while True:
				seqs = [s for s in seqs if s]
				if not seqs:
					break
				for s in seqs:
					c = s[0]
					if not any(c in o[1:] for o in seqs):
						break
				else:
					raise AnalysisBroken('inconsistent MRO for %s' % self.name)
				res.append(c)
				for s in seqs:
					if s[0] is c:
						s.pop(0)
			self._mro = res
		return self._mro

	def ext_bases(self):
		out = []
		for c in self.mro():
			for b, n in zip(c.bases(), c.node.bases):
				if not b or b[0] != 'class':
					out.append(b[1] if b else ast.unparse(n))
		return out

	def lookup(self, name, after=None):
		"""-> (kind, payload, owner) following the MRO (after `after`, for super())"""
		mro = self.mro()
		if after is not None:
			mro = mro[mro.index(after) + 1:] if after in mro else mro
		for c in mro:
			if name in c.methods:
				return ('method', c.methods[name], c)
			if name in c.attrs:
				return ('attr', c.attrs[name], c)
		return None

	def is_subclass(self, other):
		return other in self.mro()

	def __repr__(self):
		return '<Class %s>' % self.qualname


class Module:
	def __init__(self, project, name, path, src, is_pkg):
		self.project = project
		self.name = name
		self.path = path
		self.is_pkg = is_pkg
		self.src = src
		self.tree = ast.parse(src)
		self.bindings = {}     # name -> list of binding tuples (in order)
		self.stars = []
		self.all = None
		self.order = []
		self._scan(self.tree.body)

	def _bind(self, name, b):
		self.bindings.setdefault(name, []).append(b)
		self.order.append((name, b))

	def _pkg(self, level):
		parts = self.name.split('.')
		if not self.is_pkg:
			parts = parts[:-1]
		if level > 1:
			parts = parts[:len(parts) - (level - 1)]
		return '.'.join(parts)

	def abs_from(self, node):
		if node.level:
			base = self._pkg(node.level)
			return base + ('.' + node.module if node.module else '')
		return node.module

	def import_bindings(self, st):
		"""names bound by an import statement -> [(name, binding)]"""
		out = []
		if isinstance(st, ast.Import):
			for a in st.names:
				if a.asname:
					out.append((a.asname, ('modref', a.name)))
				else:
					out.append((a.name.split('.')[0], ('modref', a.name.split('.')[0])))
		else:
			mod = self.abs_from(st)
			for a in st.names:
				if a.name == '*':
					out.append(('*', ('star', mod)))
				else:
					out.append((a.asname or a.name, ('from', mod, a.name)))
		return out

	def _scan(self, body):
		for st in body:
			if isinstance(st, (ast.Import, ast.ImportFrom)):
				for n, b in self.import_bindings(st):
					if n == '*':
						self.stars.append(b[1])
						self.order.append(('*', b))
					else:
						self._bind(n, b)
			elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
				self._bind(st.name, ('func', Func(st, self)))
			elif isinstance(st, ast.ClassDef):
				self._bind(st.name, ('class', Class(st, self)))
			elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
				targets = st.targets if isinstance(st, ast.Assign) else [st.target]
				for t in targets:
					for n in ast.walk(t):
						if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
							self._bind(n.id, ('assign', st.value if isinstance(t, ast.Name) else None, self))
							if n.id == '__all__' and isinstance(st, ast.Assign):
								try:
									self.all = list(ast.literal_eval(st.value))
								except Exception:
									pass
			elif isinstance(st, ast.Try):
				self._scan(st.body)
				for h in st.handlers:
					self._scan(h.body)
				self._scan(st.orelse)
				self._scan(st.finalbody)
			elif isinstance(st, (ast.If,)):
				self._scan(st.body)
				self._scan(st.orelse)
			elif isinstance(st, (ast.For, ast.While, ast.With)):
				for n in ast.walk(st):
					if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
						self._bind(n.id, ('assign', None, self))
				self._scan(st.body)

	def public_names(self):
		if self.all is not None:
			return list(self.all)
		out = []
		for n, b in self.order:
			if n == '*':
				m = self.project.modules.get(b[1])
				if m is not None:
					out.extend(m.public_names())
			elif not n.startswith('_'):
				out.append(n)
		seen = []
		for n in out:
			if n not in seen:
				seen.append(n)
		return seen


class Project:
	def __init__(self, root, packages=('psdr',)):
		self.root = root
		self.modules = {}
		self.unparsed = []
		for pkg in packages:
			base = os.path.join(root, pkg)
			for dp, dn, fn in sorted(os.walk(base)):
				dn[:] = sorted(d for d in dn if d != '__pycache__')
				for f in sorted(fn):
					if not f.endswith('.py'):
						continue
					p = os.path.join(dp, f)
					rel = os.path.relpath(p, root)[:-3].split(os.sep)
					is_pkg = rel[-1] == '__init__'
					if is_pkg:
						rel = rel[:-1]
					name = '.'.join(rel)
					with open(p, encoding='utf-8') as fh:
						src = fh.read()
					try:
						self.modules[name] = Module(self, name, p, src, is_pkg)
					except SyntaxError as e:
						self.unparsed.append((name, str(e)))
		if not self.modules:
			raise AnalysisBroken('no source found under %s' % root)
		self._cache = {}

	# -- name resolution ----------------------------------------------------
	def lookup(self, module, name, _seen=None):
		"""Resolve a module-level name; returns a binding or None.
		('func',Func) ('class',Class) ('module',Module) ('ext',fullname) ('assign',expr,Module)"""
		key = (module.name, name)
		if key in self._cache:
			return self._cache[key]
		_seen = _seen or set()
		if key in _seen:
			return None
		_seen = _seen | {key}
		res = None
		# last binding wins, star imports in order
		for n, b in reversed(module.order):
			if n == name:
				res = self._deref(b, _seen)
				if b[0] in ('modref', 'from') and len(module.bindings.get(name, [])) > 1:
					# "try: import a except ImportError: import b": the first one is what runs
					first = module.bindings[name][0]
					if first[0] in ('modref', 'from'):
						r1 = self._deref(first, _seen)
						if r1 is not None:
							res = r1
				break
			if n == '*':
				m = self.modules.get(b[1])
				if m is not None and name in self._public(m, _seen):
					r = self.lookup(m, name, _seen)
					if r is not None:
						res = r
						break
		if res is None and module.is_pkg:
			sub = self.modules.get(module.name + '.' + name)
			if sub is not None:
				res = ('module', sub)
		if len(_seen) == 1:
			self._cache[key] = res
		return res

	def _public(self, m, _seen):
		return m.public_names()

	def _deref(self, b, _seen):
		if b[0] == 'modref':
			m = self.modules.get(b[1])
			return ('module', m) if m is not None else ('ext', b[1])
		if b[0] == 'from':
			m = self.modules.get(b[1])
			if m is None:
				return ('ext', b[1] + '.' + b[2])
			r = self.lookup(m, b[2], _seen)
			if r is not None:
				return r
			sub = self.modules.get(b[1] + '.' + b[2])
			if sub is not None:
				return ('module', sub)
			return None
		return b

	def resolve_expr(self, module, node):
		if isinstance(node, ast.Name):
			r = self.lookup(module, node.id)
			if r is None and node.id in BUILTINS:
				return ('ext', 'builtins.' + node.id)
			return r
		if isinstance(node, ast.Attribute):
			base = self.resolve_expr(module, node.value)
			if base is None:
				return None
			if base[0] == 'module':
				return self.lookup(base[1], node.attr)
			if base[0] == 'ext':
				return ('ext', base[1] + '.' + node.attr)
			if base[0] == 'class':
				r = base[1].lookup(node.attr)
				return ('func', r[1]) if r and r[0] == 'method' else None
		return None

	# -- anchors --------------------------------------------------------------
	def export(self, dotted):
		"""Resolve a public dotted name such as psdr.BoxDomain; AnalysisBroken if gone."""
		mod, _, name = dotted.rpartition('.')
		m = self.modules.get(mod)
		r = self.lookup(m, name) if m is not None else None
		if r is None:
			raise AnalysisBroken('public name %s not found' % dotted)
		return r

	def cls(self, dotted):
		r = self.export(dotted)
		if r[0] != 'class':
			raise AnalysisBroken('%s is not a class' % dotted)
		return r[1]

	def func(self, dotted):
		r = self.export(dotted)
		if r[0] != 'func':
			raise AnalysisBroken('%s is not a function' % dotted)
		return r[1]

	def all_functions(self):
		"""Every function/method/nested function/lambda with its enclosing Func."""
		for m in self.modules.values():
			yield from self._funcs_in(m.tree, m, None, None)

	def _funcs_in(self, node, m, cls, parent):
		for ch in ast.iter_child_nodes(node):
			if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
				f = Func(ch, m, cls, parent)
				yield f
				yield from self._funcs_in(ch, m, None, f)
			elif isinstance(ch, ast.ClassDef):
				yield from self._funcs_in(ch, m, Class(ch, m) if parent is not None else self._class_obj(m, ch), parent)
			else:
				yield from self._funcs_in(ch, m, cls, parent)

	def _class_obj(self, m, node):
		for b in m.bindings.get(node.name, []):
			if b[0] == 'class' and b[1].node is node:
				return b[1]
		return Class(node, m)

	def classes(self):
		for m in self.modules.values():
			for n, bs in m.bindings.items():
				for b in bs:
					if b[0] == 'class':
						yield b[1]
