"""G04: every branch refers only to things that exist."""
import ast, json, os
from ..assign import Flow, locals_of, possible, target_names
from ..loader import Func

HERE = os.path.dirname(os.path.abspath(__file__))
COMP = (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)
MODNAMES = {'__name__', '__file__', '__doc__', '__package__', '__path__', '__spec__', '__class__', '__loader__', '__builtins__'}


class Api:
	def __init__(self):
		d = json.load(open(os.path.join(HERE, '..', 'api.json')))
		self.mods, self.missing, self.uni = d['modules'], set(d['missing']), set(d['attributes'])

	def path(self, full):
		"""-> ('no', where) the dotted name does not exist, ('ok', kind, sig) or None when nothing is known"""
		parts = full.split('.')
		if any('.'.join(parts[:i]) in self.missing for i in range(1, len(parts) + 1)):
			return None
		cur, i = parts[0], 1
		if cur not in self.mods:
			return None
		kind = ['mod', cur]
		while i < len(parts):
			n = parts[i]
			if cur + '.' + n in self.mods and n not in self.mods.get(cur, {}):
				cur, kind = cur + '.' + n, ['mod', cur + '.' + n]
			elif n not in self.mods[cur]:
				return ('no', '%s has no %s' % (cur, n), cur)
			else:
				kind = self.mods[cur][n]
				if kind[0] == 'mod':
					cur = kind[1]
					if cur not in self.mods:
						return None
				else:
					return ('ok', kind[0], kind[1] if i == len(parts) - 1 else None) if i == len(parts) - 1 else None
			i += 1
		return ('ok', 'mod', None)


class Sig:
	"""what a callable accepts"""

	def __init__(self, pos, req, va, kwo, kwreq, vk, ponly=0):
		self.pos, self.req, self.va, self.kwo, self.kwreq, self.vk, self.ponly = list(pos), req, va, list(kwo), list(kwreq), vk, ponly

	@staticmethod
	def of(node, skip=0):
		a = node.args
		pos = [x.arg for x in a.posonlyargs + a.args]
		req = len(pos) - len(a.defaults)
		kwo = [x.arg for x in a.kwonlyargs]
		kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
		if skip and not pos:
			skip = 0
		return Sig(pos[skip:], max(req - skip, 0), a.vararg is not None, kwo, kwreq, a.kwarg is not None, max(len(a.posonlyargs) - skip, 0))

	def rejects(self, call, npos=None):
		"""why the call cannot be made, or None"""
		args = call.args
		star = any(isinstance(a, ast.Starred) for a in args)
		n = len([a for a in args if not isinstance(a, ast.Starred)])
		kws = [k.arg for k in call.keywords]
		dstar = None in kws
		kws = [k for k in kws if k]
		if n > len(self.pos) and not self.va:
			return '%d positional arguments where at most %d are accepted' % (n, len(self.pos))
		for k in kws:
			if k not in self.kwo and k not in self.pos[self.ponly:] and not self.vk:
				return 'does not accept the keyword %s' % k
			if k in self.pos[self.ponly:] and self.pos.index(k) < n and not star:
				return 'argument %s given twice' % k
		if len(kws) != len(set(kws)):
			return 'keyword given twice'
		if not star and not dstar:
			for i, p in enumerate(self.pos[:self.req]):
				if i >= n and (p not in kws or i < self.ponly):
					return 'the required argument %s is missing' % p
			for k in self.kwreq:
				if k not in kws:
					return 'the required argument %s is missing' % k
		return None


def scope_nodes(fn):
	"""(Name loads, Attribute nodes, Call nodes) of the own scope of a function or module, with the names comprehensions bind"""
	out = []

	def go(n, bound):
		if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
			for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
				go(d, bound)
			return
		if isinstance(n, ast.ClassDef):
			for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
				go(d, bound)
			return
		if isinstance(n, ast.Lambda):
			for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
				go(d, bound)
			b = bound | locals_of(n)[1]
			go(n.body, b)
			return
		if isinstance(n, COMP):
			b = set(bound)
			for g in n.generators:
				b |= set(target_names(g.target))
			for c in ast.iter_child_nodes(n):
				if isinstance(c, ast.comprehension):
					go(c.iter, b)
					for x in c.ifs:
						go(x, b)
				else:
					go(c, b)
			return
		out.append((n, bound))
		for c in ast.iter_child_nodes(n):
			go(c, bound)

	body = fn.body if isinstance(fn.body, list) else [fn.body]
	for s in body:
		go(s, frozenset())
	return out


def parts(c, pol, defs):
	"""the conditions that hold when c has this truth value; names assigned once stand for their value"""
	if isinstance(c, ast.Name) and c.id in defs:
		return parts(defs[c.id], pol, {k: v for k, v in defs.items() if k != c.id})
	if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
		return parts(c.operand, not pol, defs)
	if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.And) == pol:
		return [x for v in c.values for x in parts(v, pol, defs)]
	return [(c, pol)]


def inside(t, node):
	return any(x is node for x in ast.walk(t))


def known(fn, node):
	"""conditions that hold where node is evaluated: tests around it, and tests before it whose other branch leaves"""
	given, defs = {}, {}
	for x in ast.walk(fn):
		if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
			given[x.id] = given.get(x.id, 0) + 1
		if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
			defs[x.targets[0].id] = x.value
	defs = {k: v for k, v in defs.items() if given.get(k) == 1}
	out = []
	for t in ast.walk(fn):
		if isinstance(t, ast.IfExp):
			if inside(t.body, node):
				out += parts(t.test, True, defs)
			elif inside(t.orelse, node):
				out += parts(t.test, False, defs)
		elif isinstance(t, ast.BoolOp):
			for k, v in enumerate(t.values):
				if k and inside(v, node):
					for w in t.values[:k]:
						out += parts(w, isinstance(t.op, ast.And), defs)
		for field in ('body', 'orelse', 'finalbody'):
			body = getattr(t, field, None)
			if not isinstance(body, list):
				continue
			if isinstance(t, (ast.If, ast.While)) and field in ('body', 'orelse') and any(inside(s, node) for s in body):
				out += parts(t.test, field == 'body', defs)
			for k, s in enumerate(body):
				if inside(s, node):
					for e in body[:k]:
						if isinstance(e, ast.If):
							if leaves(e.body) and not e.orelse:
								out += parts(e.test, False, defs)
							elif e.orelse and leaves(e.orelse):
								out += parts(e.test, True, defs)
						elif isinstance(e, ast.Assert):
							out += parts(e.test, True, defs)
					break
	return out


def leaves(body):
	return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def guarded(fn, node):
	"""inside the body of a try that catches NameError/AttributeError/TypeError/ImportError or everything, or a hasattr test"""
	kinds = set()
	for t in ast.walk(fn):
		if isinstance(t, ast.Try) and any(x is node for s in t.body for x in ast.walk(s)):
			for h in t.handlers:
				if h.type is None:
					kinds.add('*')
				else:
					for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
						kinds.add(ast.unparse(x).split('.')[-1])
		if isinstance(t, (ast.If, ast.IfExp)) and 'hasattr' in ast.unparse(t.test):
			if any(x is node for x in ast.walk(t)):
				kinds.add('*')
	if any('hasattr' in ast.unparse(c) for c, _ in known(fn, node)):
		kinds.add('*')
	return kinds


class World:
	def __init__(self, P):
		self.P = P
		self.api = Api()
		self.funcs = list(P.all_functions())
		self.classes = list({id(c): c for c in P.classes()}.values())
		self.stored = {}      # attribute -> stored on something
		self.defined = {}     # class -> names
		self.setattr = set()
		for m in P.modules.values():
			for n in ast.walk(m.tree):
				if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
					self.stored.setdefault(n.attr, []).append(n)
		self.allattrs = set(self.api.uni) | set(self.stored)
		for c in self.classes:
			self.allattrs |= set(c.methods) | set(c.attrs) | set(c.setters)
		for m in P.modules.values():
			self.allattrs |= {n for n in m.bindings}
			self.allattrs.add(m.name.split('.')[-1])
		for d in self.api.mods.values():
			self.allattrs |= set(d)

	def blind(self, m):
		"""the module imports packages nothing is known about"""
		for n in ast.walk(m.tree):
			if isinstance(n, (ast.Import, ast.ImportFrom)):
				for _, b in m.import_bindings(n):
					if b[1] not in self.P.modules and b[1].split('.')[0] != 'psdr':
						full = b[1] if b[0] != 'from' else b[1] + '.' + b[2]
						if self.api.path(full) is None:
							return True
		return False

	def own(self, c):
		if c not in self.defined:
			s = set(c.methods) | set(c.attrs) | set(c.setters)
			dyn = False
			for n in ast.walk(c.node):
				if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls'):
					s.add(n.attr)
				if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' or isinstance(n, ast.Attribute) and n.attr == '__dict__':
					dyn = True
				if isinstance(n, (ast.FunctionDef,)) and n.name in ('__getattr__', '__getattribute__'):
					dyn = True
			self.defined[c] = (s, dyn)
		return self.defined[c]

	def has(self, c, name):
		"""does an instance of exactly class c ever have the attribute? True/False/None"""
		for b in c.mro():
			s, dyn = self.own(b)
			if name in s:
				return True
			if dyn:
				return None
		for e in c.ext_bases():
			e = e.replace('builtins.', '')
			r = self.api.path('builtins.' + e if '.' not in e else e)
			if e == 'object':
				continue
			if name in dir(object) or name in self.api.uni:
				return None
			if r is None:
				return None
		if name in dir(object):
			return True
		return False

	def subclasses(self, c):
		return [d for d in self.classes if d is not c and d.is_subclass(c)]

	def concrete(self):
		"""classes instantiated somewhere, exported ones and leaves"""
		out = []
		made = set()
		for m in self.P.modules.values():
			for n in ast.walk(m.tree):
				if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
					r = self.P.resolve_expr(m, n.func) if isinstance(n.func, ast.Name) else None
					if r and r[0] == 'class':
						made.add(r[1])
		for c in self.classes:
			if c in made or not self.subclasses(c):
				out.append(c)
		return out


def abstract_method(f):
	"""the body only raises NotImplementedError (or passes)"""
	body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
	return not body or all(isinstance(s, ast.Pass) or isinstance(s, ast.Raise) and 'NotImplemented' in ast.unparse(s) for s in body)


def enclosing_method(f):
	g = f
	while g is not None and g.cls is None:
		g = g.parent
	return g


def check_names(ck, W, f, tree=None, module=None):
	"""names of one function (or of a module body)"""
	P = W.P
	fn = f.node if f else tree
	m = f.module if f else module
	who = f.short if f else m.name
	loc = locals_of(fn)[0] if f else set()
	enclosing = set()
	g = f.parent if f else None
	while g is not None:
		enclosing |= locals_of(g.node)[0]
		g = g.parent
	known, bad = 0, []
	for n, bound in scope_nodes(fn):
		if not (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)):
			continue
		if n.id in bound or n.id in loc or n.id in enclosing:
			known += 1
			continue
		if P.lookup(m, n.id) is not None or n.id in W.api.mods['builtins'] or n.id in MODNAMES or n.id in m.bindings:
			known += 1
			continue
		if any(b[0] == 'ext' or b[0] == 'star' and b[1] not in P.modules for nm, b in m.order if nm == '*'):
			stars = [b[1] for nm, b in m.order if nm == '*' and b[1] not in P.modules]
			if any(s not in W.api.mods or n.id in W.api.mods[s] for s in stars):
				continue
		k = guarded(fn, n)
		if k & {'*', 'NameError', 'Exception', 'BaseException'}:
			continue
		bad.append((n.id, n.lineno))
	return who, known, bad


def never_returns(P, m):
	def fn(call):
		n = ast.unparse(call.func)
		return n in ('sys.exit', 'exit', 'quit', 'os._exit')
	return fn


def class_facts(W, f, cache={}):
	"""literal values the constructor leaves in self.<option>"""
	g = enclosing_method(f)
	if g is None or g.cls is None or g.name == '__init__':
		return ()
	key = (id(W), g.cls.qualname)
	if key not in cache:
		vals = {}
		for c in g.cls.mro():
			for mm in list(c.methods.values()) + list(c.setters.values()):
				for a, v in Flow(mm.node).attrs.items():
					if a in vals and (vals[a] is None or v is None):
						vals[a] = None
					else:
						vals[a] = vals.get(a, set()) | v if v is not None else None
		# attributes also written elsewhere (through another name) are unknown
		for a in list(vals):
			for n in W.stored.get(a, []):
				if not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
					vals[a] = None
		for d in W.subclasses(g.cls):
			for mm in d.methods.values():
				for a, v in Flow(mm.node).attrs.items():
					if a in vals and vals[a] is not None:
						vals[a] = vals[a] | v if v is not None else None
		cache[key] = frozenset(('self.%s in [%s]' % (a, ', '.join(sorted(v))), True) for a, v in vals.items() if v)
	return cache[key]


def option_outside(facts, fn):
	"""the path is the one where an unvalidated parameter equals none of the values compared against"""
	params = locals_of(fn)[1]
	n = {}
	for l, p in facts:
		try:
			e = ast.parse(l, mode='eval').body
		except SyntaxError:
			continue
		if isinstance(e, ast.Compare) and not p:
			b = ast.unparse(e.left)
			if isinstance(e.left, ast.Name) and b in params or b.startswith('self.'):
				n[b] = n.get(b, 0) + 1
	return any(v >= 2 and possible(facts, b) is None for b, v in n.items())


def receivers(W, f):
	"""the classes `self` may be an instance of exactly, when this method is the one that runs"""
	g = enclosing_method(f)
	if g is None or g.cls is None:
		return None, None
	c = g.cls
	rec = []
	for d in [c] + W.subclasses(c):
		r = d.lookup(g.name)
		if r and r[0] == 'method' and r[1].node is g.node or g.name in d.setters and d.setters[g.name].node is g.node or g.node in [x.node for x in c.setters.values()]:
			rec.append(d)
		elif reached_by_super(W, d, c, g.name):
			rec.append(d)
	return g, rec


def reached_by_super(W, d, c, name):
	"""an override in the MRO of d, before c, calls the base version"""
	mro = d.mro()
	for b in mro[:mro.index(c)]:
		for mm in b.methods.values():
			for n in ast.walk(mm.node):
				if isinstance(n, ast.Attribute) and n.attr == name and (isinstance(n.value, ast.Call) and ast.unparse(n.value.func) == 'super' or isinstance(n.value, ast.Name) and n.value.id == c.name):
					return True
	return False


def method_sig(W, kind):
	f = kind
	return Sig.of(f.node, 0 if f.is_static else 1)


def class_sig(W, c):
	r = c.lookup('__init__')
	if r and r[0] == 'method':
		return Sig.of(r[1].node, 1)
	if any(e not in ('object', 'builtins.object') for e in c.ext_bases()):
		return None
	if c.lookup('__new__'):
		return None
	return Sig([], 0, False, [], [], False)


def decorated(f):
	"""decorators that replace the callable by one of unknown signature"""
	return [d for d in f.decorators if d not in ('staticmethod', 'classmethod', 'property', 'cached_property', 'abstractmethod', 'wraps', 'functools.wraps', 'lru_cache', 'functools.lru_cache')]


def run(ck, P, tier):
	ck.rule('name', 'every name read in the function is a local, an enclosing local, a module-level name, an import that exists or a builtin', 280)
	ck.rule('assigned', 'every local is assigned on every path that reads it', 280)
	ck.rule('import', 'every name imported from the library, and from an installed package, exists there', 100)
	ck.rule('external', 'every attribute of an installed package that is used exists, and calls to it pass arguments it accepts', 60)
	ck.rule('attribute', 'every attribute read from self is set or defined by the class the object can be', 90)
	ck.rule('call', 'every call of a function, constructor or method of the library passes arguments it accepts and all it requires', 200)
	ck.rule('duck', 'a method called on another object exists somewhere, and some definition of it accepts the call', 120)
	ck.assumptions.append('the third-party packages are the ones installed (psa/api.json records what they define)')
	W = World(P)
	ck.stats['functions'] = len(W.funcs)
	ck.stats['classes'] = len(W.classes)
	selftest(ck)
	for name, why in P.unparsed:
		ck.bad('name', name, 'the module does not compile: %s' % why)
	for m in P.modules.values():
		ck.guard('name', m.name, lambda: one_module(ck, W, m))
	for f in W.funcs:
		for rule, fn in (('name', names_of), ('assigned', flow_of), ('external', externals), ('attribute', attributes), ('call', calls), ('duck', duck)):
			ck.guard(rule, f.short, lambda: fn(ck, W, f))


def one_module(ck, W, m):
	who, n, bad = check_names(ck, W, None, m.tree, m)
	for x, ln in bad:
		ck.bad('name', '%s.%s' % (m.name, x), 'line %d: the name %s is not defined' % (ln, x))
	if n and not bad:
		ck.ok('name', m.name, '%d reads' % n)
	externals(ck, W, None, m)
	mod_imports(ck, W, m.tree, m, m.name)
	for n in ast.walk(m.tree):
		if isinstance(n, ast.ClassDef):
			for s in n.body:
				if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
					names = {t for x in n.body for t in ([x.name] if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else [y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)])}
					for x in ast.walk(s):
						if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in names and W.P.lookup(m, x.id) is None and x.id not in W.api.mods['builtins'] and x.id not in MODNAMES:
							if not any(isinstance(y, (ast.Lambda,) + COMP) for y in ast.walk(s)):
								ck.bad('name', '%s.%s.%s' % (m.name, n.name, x.id), 'the name %s is not defined' % x.id)


def mod_imports(ck, W, tree, m, who):
	P = W.P
	for n in ast.walk(tree):
		if not isinstance(n, (ast.Import, ast.ImportFrom)):
			continue
		g = guarded(tree, n)
		if g & {'*', 'ImportError', 'ModuleNotFoundError', 'Exception'}:
			continue
		for name, b in m.import_bindings(n):
			if b[0] == 'modref':
				top = b[1].split('.')[0]
				if top == 'psdr':
					ck.verdict('import', '%s:%s' % (m.name, b[1]), b[1] in P.modules, 'module')
				continue
			if b[0] == 'star':
				continue
			if b[1] in P.modules:
				r = P.lookup(P.modules[b[1]], b[2])
				ok = r is not None or b[1] + '.' + b[2] in P.modules or b[2] in P.modules[b[1]].bindings
				ck.verdict('import', '%s:%s.%s' % (m.name, b[1], b[2]), bool(ok), 'imported name' if ok else '%s defines no %s' % (b[1], b[2]))
			elif b[1].split('.')[0] == 'psdr':
				ck.bad('import', '%s:%s.%s' % (m.name, b[1], b[2]), 'there is no module %s' % b[1])
			else:
				r = W.api.path(b[1] + '.' + b[2])
				if r is not None:
					ck.verdict('import', '%s:%s.%s' % (m.name, b[1], b[2]), r[0] == 'ok', r[1])


def names_of(ck, W, f):
	who, n, bad = check_names(ck, W, f)
	for x, ln in bad:
		ck.bad('name', '%s.%s' % (f.short, x), 'line %d: the name %s is defined nowhere' % (ln, x))
	if not bad:
		ck.ok('name', f.short, '%d reads' % n)


def flow_of(ck, W, f):
	fl = Flow(f.node, never_returns(W.P, f.module), class_facts(W, f))
	bad = {}
	for n, v in fl.reads.items():
		if v == 'all':
			continue
		g = guarded(f.node, n)
		if g & {'*', 'NameError', 'UnboundLocalError', 'Exception'}:
			continue
		soft = n in fl.soft or all(option_outside(x, f.node) for x in fl.missing(n))
		bad[n.id] = max(bad.get(n.id, (0, 0)), (1 if soft else 2, n.lineno))
	for x, (k, ln) in bad.items():
		d = 'line %d: %s is read on a path that does not assign it' % (ln, x)
		if k == 2:
			ck.bad('assigned', '%s.%s' % (f.short, x), d)
		else:
			ck.unknown('assigned', '%s.%s' % (f.short, x), d + ' (when a loop runs no iteration, an exception is swallowed or an option has an unlisted value)')
	if not bad:
		ck.ok('assigned', f.short, '%d reads' % len(fl.reads))


def ext_ref(W, m, local, node):
	"""full dotted name of an external reference, or None"""
	parts = []
	n = node
	while isinstance(n, ast.Attribute):
		parts.append(n.attr)
		n = n.value
	if not isinstance(n, ast.Name) or n.id in local:
		return None
	r = W.P.lookup(m, n.id)
	if r is None:
		if n.id in W.api.mods['builtins']:
			return '.'.join(['builtins', n.id] + parts[::-1])
		return None
	if r[0] != 'ext':
		return None
	return '.'.join([r[1]] + parts[::-1])


def local_names(f):
	out = set()
	g = f
	while g is not None:
		out |= locals_of(g.node)[0]
		g = g.parent
	return out


def local_imports(W, f):
	"""imports inside the function: name -> binding"""
	out = {}
	g = f
	while g is not None:
		for n in ast.walk(g.node):
			if isinstance(n, (ast.Import, ast.ImportFrom)):
				for name, b in g.module.import_bindings(n):
					out.setdefault(name, b)
		g = g.parent
	return out


def externals(ck, W, f, m=None):
	m = m or f.module
	fn = f.node if f else m.tree
	who = f.short if f else m.name
	loc = local_names(f) if f else set()
	nodes = scope_nodes(fn)
	inner = {id(n.value) for n, _ in nodes if isinstance(n, ast.Attribute)}
	n_ok = 0
	bad = False
	for n, bound in nodes:
		if isinstance(n, ast.Attribute) and id(n) not in inner and isinstance(n.ctx, ast.Load):
			full = ext_ref(W, m, loc | bound, n)
			if full is None:
				continue
			r = W.api.path(full)
			if r is None:
				continue
			if r[0] == 'no':
				if guarded(fn, n) & {'*', 'AttributeError', 'Exception'}:
					continue
				bad = True
				ck.bad('external', '%s:%s' % (who, full), 'line %d: %s' % (n.lineno, r[1]))
			else:
				n_ok += 1
		if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
			full = ext_ref(W, m, loc | bound, n.func)
			if full is None:
				continue
			r = W.api.path(full)
			if r and r[0] == 'ok' and r[2]:
				why = Sig(*r[2]).rejects(n)
				if why and not guarded(fn, n) & {'*', 'TypeError', 'Exception'}:
					bad = True
					ck.bad('external', '%s:%s()' % (who, full), 'line %d: %s: %s' % (n.lineno, full, why))
				else:
					n_ok += 1
	if n_ok and not bad:
		ck.ok('external', who, '%d references and calls' % n_ok)


def attributes(ck, W, f):
	g, rec = receivers(W, f)
	if g is None or g.is_static or g.is_classmethod or not g.node.args.args:
		return
	me = g.node.args.args[0].arg
	if f is not g and me in locals_of(f.node)[1]:
		return
	seen, bad = 0, False
	for n, bound in scope_nodes(f.node):
		if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me) or me in bound:
			continue
		seen += 1
		if guarded(f.node, n) & {'*', 'AttributeError', 'Exception'}:
			continue
		has = {d: W.has(d, n.attr) for d in rec}
		if not rec:
			continue
		if all(v is False for v in has.values()):
			if not any(d in CONC(W) for d in rec):
				ck.unknown('attribute', '%s.%s' % (f.short, n.attr), 'no class that is instantiated runs this method')
				continue
			bad = True
			ck.bad('attribute', '%s.%s' % (f.short, n.attr), 'line %d: self.%s is set or defined by none of %s' % (n.lineno, n.attr, ', '.join(d.name for d in rec[:4])))
		else:
			# a base relying on its subclasses: the concrete ones on which the method can run must have it
			lack = [d for d in rec if has[d] is False and d in CONC(W) and g.name in reach(W, d) and not isinstance_guard(W, f, n, me, d)]
			if lack:
				bad = True
				ck.bad('attribute', '%s.%s' % (f.short, n.attr), 'line %d: self.%s is neither set nor defined for %s' % (n.lineno, n.attr, ', '.join(d.name for d in lack[:6])))
	if seen and not bad:
		ck.ok('attribute', f.short, '%d reads, %d receiver classes' % (seen, len(rec)))


_conc = {}


def CONC(W):
	if id(W) not in _conc:
		_conc[id(W)] = set(W.concrete())
	return _conc[id(W)]


def isinstance_guard(W, f, node, me, d):
	"""the read is in code that runs only when self is an instance of a class d is not"""
	imp = None
	for c, pol in known(f.node, node):
		if isinstance(c, ast.Call) and ast.unparse(c.func) == 'isinstance' and len(c.args) == 2 and ast.unparse(c.args[0]) == me:
			imp = local_imports(W, f) if imp is None else imp
			ks = []
			for k in (c.args[1].elts if isinstance(c.args[1], ast.Tuple) else [c.args[1]]):
				r = W.P.resolve_expr(f.module, k)
				if r is None and isinstance(k, ast.Name) and k.id in imp:
					r = W.P._deref(imp[k.id], set())
				ks.append(r[1] if r and r[0] == 'class' else None)
			if pol and not any(k is None or d.is_subclass(k) for k in ks):
				return True
			if not pol and any(k is not None and d.is_subclass(k) for k in ks):
				return True
	return False


_reach = {}


def reach(W, d):
	"""names of methods that public operations of an object of class d can run"""
	key = (id(W), id(d))
	if key in _reach:
		return _reach[key]
	used = {}
	names = set()
	for c in d.mro():
		names |= set(c.methods) | set(c.setters)
	outside = external_uses(W)
	todo = [n for n in names if not n.startswith('_') or n.startswith('__') or n in outside]
	seen = set()
	while todo:
		n = todo.pop()
		if n in seen:
			continue
		seen.add(n)
		k = d.lookup(n)
		bodies = []
		if k and k[0] == 'method':
			bodies.append((k[1], k[2]))
		for c in d.mro():
			if n in c.setters:
				bodies.append((c.setters[n], c))
			elif k and n in c.methods and c is not k[2] and reached_by_super(W, d, c, n):
				bodies.append((c.methods[n], c))
		for b, c in bodies:
			if abstract_method(b):
				continue
			for x in ast.walk(b.node):
				if isinstance(x, ast.Attribute) and x.attr in names and isinstance(x.value, ast.Name) and x.value.id in ('self',):
					todo.append(x.attr)
	_reach[key] = seen
	return seen


_ext = {}


def external_uses(W):
	"""private method names called on objects other than self somewhere"""
	if id(W) not in _ext:
		s = set()
		for m in W.P.modules.values():
			for n in ast.walk(m.tree):
				if isinstance(n, ast.Attribute) and not (isinstance(n.value, ast.Name) and n.value.id == 'self') and not (isinstance(n.value, ast.Call) and ast.unparse(n.value.func) == 'super'):
					r = W.P.resolve_expr(m, n.value) if isinstance(n.value, ast.Name) else None
					if r and r[0] == 'class':
						continue
					s.add(n.attr)
		_ext[id(W)] = s
	return _ext[id(W)]


def calls(ck, W, f):
	P = W.P
	g, rec = receivers(W, f)
	me = g.node.args.args[0].arg if g is not None and not g.is_static and g.node.args.args else None
	loc = local_names(f)
	imps = local_imports(W, f)
	n_ok, bad = 0, False

	def verdict(name, node, why):
		nonlocal n_ok, bad
		if why is None:
			n_ok += 1
		elif guarded(f.node, node) & {'*', 'TypeError', 'Exception'}:
			ck.unknown('call', '%s:%s' % (f.short, name), 'line %d: %s: %s (TypeError is caught)' % (node.lineno, name, why))
		else:
			bad = True
			ck.bad('call', '%s:%s' % (f.short, name), 'line %d: %s: %s' % (node.lineno, name, why))

	for n, bound in scope_nodes(f.node):
		if not isinstance(n, ast.Call):
			continue
		fu = n.func
		if isinstance(fu, ast.Name):
			if fu.id in bound:
				continue
			r = None
			if fu.id in loc:
				# a nested function of this scope, bound once
				tgt = nested(f, fu.id)
				if tgt is not None:
					verdict(fu.id, n, Sig.of(tgt).rejects(n))
					continue
				if fu.id in imps and imps[fu.id][0] == 'from':
					r = P._deref(imps[fu.id], set())
			else:
				r = P.lookup(f.module, fu.id)
			judge_ref(W, r, fu.id, n, verdict)
		elif isinstance(fu, ast.Attribute):
			v = fu.value
			if isinstance(v, ast.Name) and v.id == me and me not in bound and rec:
				worst = None
				some = False
				for d in rec:
					k = d.lookup(fu.attr)
					if len(rec) > 1 and g.name not in reach(W, d):
						continue
					if not k or k[0] != 'method' or k[1].is_property or decorated(k[1]):
						some = True
						continue
					why = Sig.of(k[1].node, 0 if k[1].is_static else 1).rejects(n)
					if why is None:
						some = True
					elif instance_attr(W, d, fu.attr):
						some = True
					elif worst is None:
						worst = '%s.%s: %s' % (k[2].name, fu.attr, why)
				verdict('self.' + fu.attr, n, worst)
			elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and g is not None and rec:
				owner = g.cls
				worst = None
				if v.args:
					r = P.resolve_expr(f.module, v.args[0])
					owner = r[1] if r and r[0] == 'class' else None
				for d in rec if owner is not None else []:
					if owner not in d.mro():
						continue
					k = d.lookup(fu.attr, after=owner)
					if k is None:
						if fu.attr not in dir(object) and not [e for e in d.ext_bases() if e not in ('object', 'builtins.object')]:
							worst = worst or 'no base of %s defines %s' % (owner.name, fu.attr)
					elif k[0] == 'method' and not decorated(k[1]):
						why = Sig.of(k[1].node, 1).rejects(n)
						if why:
							worst = worst or '%s.%s: %s' % (k[2].name, fu.attr, why)
				verdict('super().' + fu.attr, n, worst)
			elif isinstance(v, ast.Name) and v.id not in loc and v.id not in bound:
				r = P.lookup(f.module, v.id)
				if r and r[0] == 'class':
					k = r[1].lookup(fu.attr)
					if k and k[0] == 'method' and not decorated(k[1]):
						verdict('%s.%s' % (v.id, fu.attr), n, Sig.of(k[1].node, 1 if k[1].is_classmethod else 0).rejects(n))
					elif k is None and not r[1].ext_bases() and fu.attr not in dir(object):
						verdict('%s.%s' % (v.id, fu.attr), n, 'does not exist')
				elif r and r[0] == 'module':
					r2 = P.lookup(r[1], fu.attr)
					if r2 is None and fu.attr not in r[1].bindings and r[1].name + '.' + fu.attr not in P.modules:
						verdict('%s.%s' % (v.id, fu.attr), n, 'the module defines no such name')
					else:
						judge_ref(W, r2, '%s.%s' % (v.id, fu.attr), n, verdict)
	if n_ok and not bad:
		ck.ok('call', f.short, '%d calls' % n_ok)


def instance_attr(W, d, name):
	"""the method may be replaced by an instance attribute"""
	return any(isinstance(n.value, ast.Name) for n in W.stored.get(name, []))


def nested(f, name):
	g = f
	while g is not None:
		defs = [x for x in ast.walk(g.node) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == name and x is not g.node]
		stores = [x for x in ast.walk(g.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name]
		lam = [x.value for x in ast.walk(g.node) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name and isinstance(x.value, ast.Lambda)]
		if len(defs) == 1 and not stores and not defs[0].decorator_list:
			return defs[0]
		if len(lam) == 1 and len(stores) == 1 and not defs:
			return lam[0]
		if defs or stores or name in locals_of(g.node)[1]:
			return None
		g = g.parent
	return None


def judge_ref(W, r, name, n, verdict):
	if r is None:
		return
	if r[0] == 'func' and not decorated(r[1]):
		verdict(name, n, Sig.of(r[1].node).rejects(n))
	elif r[0] == 'class':
		s = class_sig(W, r[1])
		if s is not None:
			verdict(name, n, s.rejects(n))


def duck(ck, W, f):
	P = W.P
	g, rec = receivers(W, f)
	me = g.node.args.args[0].arg if g is not None and not g.is_static and g.node.args.args else None
	loc = local_names(f)
	n_ok, bad = 0, False
	called = {id(n.func): n for n, _ in scope_nodes(f.node) if isinstance(n, ast.Call)}
	for n, bound in scope_nodes(f.node):
		if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
			continue
		v = n.value
		if isinstance(v, ast.Name) and (v.id == me and v.id not in bound):
			continue
		if ext_ref(W, f.module, loc | bound, n) is not None or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
			continue
		if guarded(f.node, n) & {'*', 'AttributeError', 'Exception'}:
			continue
		root = v
		while isinstance(root, (ast.Attribute, ast.Call, ast.Subscript)):
			root = root.func if isinstance(root, ast.Call) else root.value
		if isinstance(root, ast.Name) and root.id in local_imports(W, f):
			continue
		if isinstance(root, ast.Name) and root.id not in loc and (P.lookup(f.module, root.id) or (None,))[0] in ('class', 'module'):
			continue
		if isinstance(root, ast.Name) and root.id not in loc and (P.lookup(f.module, root.id) or (None,))[0] == 'ext':
			continue
		if n.attr not in W.allattrs:
			if W.blind(f.module):
				ck.unknown('duck', '%s:.%s' % (f.short, n.attr), 'the module uses packages that are not installed')
				continue
			bad = True
			ck.bad('duck', '%s:.%s' % (f.short, n.attr), 'line %d: no object of the library or of the packages it uses has an attribute %s' % (n.lineno, n.attr))
			continue
		n_ok += 1
		if id(n) in called and n.attr not in W.api.uni and n.attr not in W.stored and not any(n.attr in m.bindings for m in P.modules.values()):
			defs = [c.methods[n.attr] for c in W.classes if n.attr in c.methods]
			if defs and not any(d.is_property or decorated(d) for d in defs):
				whys = [Sig.of(d.node, 0 if d.is_static else 1).rejects(called[id(n)]) for d in defs]
				if all(w is not None for w in whys):
					if guarded(f.node, n) & {'TypeError'}:
						ck.unknown('duck', '%s:.%s()' % (f.short, n.attr), whys[0])
						continue
					bad = True
					ck.bad('duck', '%s:.%s()' % (f.short, n.attr), 'line %d: every definition of %s rejects the call: %s' % (n.lineno, n.attr, whys[0]))
	if n_ok and not bad:
		ck.ok('duck', f.short, '%d attribute reads' % n_ok)


SELF = '''
def a(x, flag=False):
	if flag:
		y = 1
	return y
def b(x, flag=False):
	if flag:
		y = 1
	if flag:
		return y
def c(x):
	assert x in [1, 2]
	if x == 1: z = 1
	elif x == 2: z = 2
	return z
'''


def selftest(ck):
	t = ast.parse(SELF).body
	ck.selftest('unassigned on one path', any(v != 'all' for v in Flow(t[0]).reads.values()))
	ck.selftest('correlated tests', all(v == 'all' for v in Flow(t[1]).reads.values()))
	ck.selftest('exhaustive option', all(v == 'all' for v in Flow(t[2]).reads.values()))
	s = Sig.of(ast.parse('def f(a, b, c=1, **kw): pass').body[0])
	ck.selftest('missing argument', s.rejects(ast.parse('f(1)').body[0].value) is not None and s.rejects(ast.parse('f(1, b=2, z=3)').body[0].value) is None)
