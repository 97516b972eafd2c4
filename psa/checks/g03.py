"""G03: verbosity only prints.  An information-flow analysis: values and program points that depend on a verbosity option
are labelled high; a high value may be printed or handed on as a verbosity option, and nothing else."""
import ast
import json
import os
from ..alias import World, MUT_METH, MUT_FUN, params_of
from ..loader import AnalysisBroken
from .g02 import classify, own_refs

KNOWN = set(json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'functions.json'))))
VERB = {'verbose', 'verbosity', 'disp', 'display'}
VKEY = VERB | {'iprint', 'show_progress', 'print_level', 'verb', 'msg_lev', 'LogToConsole', 'loglevel', 'print_freq', 'quiet'}
PRINTS = {'print', 'logging', 'warnings', 'sys.stdout', 'sys.stderr', 'pprint', 'tqdm', 'time.sleep'}
SOLVE = {'solve', 'fit', 'train', 'step', 'next'}
CONSUME = {'next'}


def dump(n):
	"""structure of a node with verbosity keywords removed"""
	class R(ast.NodeTransformer):
		def visit_Call(self, c):
			self.generic_visit(c)
			return ast.Call(c.func, c.args, [k for k in c.keywords if k.arg not in VKEY])
	import copy
	return ast.dump(R().visit(copy.deepcopy(n)))


DOMNAMES = ('domain', 'dom', 'domain_new', 'domain_stretch', 'domain_norm')


def domain_family(recv, cand):
	"""the methods meant by a call on something called domain"""
	root = recv.attr if isinstance(recv, ast.Attribute) else recv.id if isinstance(recv, ast.Name) else ''
	if root.lstrip('_') in DOMNAMES:
		return [g for g in cand if g.short.startswith('domains.')] or None
	return None


def drawing(P, W):
	"""functions that draw random numbers: own references, closed over calls; (by name only, by resolved targets)"""
	funcs = [f for f in P.all_functions() if f.parent is None]
	own = set()
	calls = {}
	by_meth = {}
	for f in funcs:
		if f.cls is not None:
			by_meth.setdefault(f.name, []).append(f)
		for n, name in own_refs(P, f.module, f.node):
			if classify(name) == 'draw':
				own.add(f.short)
		cs = set()
		for n in ast.walk(f.node):
			if isinstance(n, ast.Call):
				r = P.resolve_expr(f.module, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
				if r and r[0] == 'func':
					cs.add((r[1].short,))
				elif r and r[0] == 'class':
					k = r[1].lookup('__init__')
					if k and k[0] == 'method':
						cs.add((k[1].short,))
				elif isinstance(n.func, ast.Attribute):
					v = n.func.value
					ps = params_of(f.node)[0]
					if f.cls is not None and isinstance(v, ast.Name) and ps and v.id == ps[0]:
						for d in [f.cls] + W.sub.get(id(f.cls), []):
							k = d.lookup(n.func.attr)
							if k and k[0] == 'method':
								cs.add((k[1].short,))
					else:
						cs.add(('.', n.func.attr, v))
		calls[f.short] = cs
	may, must = set(own), set(own)
	for rnd in range(30):
		ch = False
		for f in funcs:
			for c in calls[f.short]:
				if c[0] == '.':
					cand = [g.short for g in by_meth.get(c[1], [])]
					if cand and any(g in may for g in cand) and f.short not in may:
						may.add(f.short)
						ch = True
					fam = domain_family(c[2], by_meth.get(c[1], []))
					if (any(g.short in must for g in fam) if fam else cand and all(g in must for g in cand)) and f.short not in must:
						must.add(f.short)
						ch = True
				else:
					if c[0] in may and f.short not in may:
						may.add(f.short)
						ch = True
					if c[0] in must and f.short not in must:
						must.add(f.short)
						ch = True
		if not ch:
			break
	return may, must, by_meth


class Ctx:
	def __init__(self, P):
		self.P = P
		self.W = World(P)
		self.may, self.must, self.by_meth = drawing(P, self.W)
		self.hp = {}         # func id -> parameters that receive a verbosity dependent value
		self.ret = {}        # func id -> returned value depends on verbosity
		self.attrs = set()   # attributes that hold one
		self.out = {}        # (rule, construct) -> (verdict, detail)
		self.seen = {}       # func short -> (sources, guarded regions, calls handed the option)
		self.changed = False
		self.final = False

	def emit(self, rule, con, v, det):
		if not self.final:
			return
		o = self.out.get((rule, con))
		if o is None or v is False and o[0] is not False or v is None and o[0] is True:
			self.out[(rule, con)] = (v, det)


def public(f):
	return f.short in KNOWN and (not f.name.startswith('_') or f.name.startswith('__')) or f.short.startswith('fx.') and not f.name.startswith('_')


class Flow:
	def __init__(self, cx, f, node=None, env=None, parent=None):
		self.cx, self.f = cx, f
		self.node = node or f.node
		self.parent = parent
		self.me = None
		if node is None and f.cls is not None and not f.is_static:
			a = f.node.args
			ps = a.posonlyargs + a.args
			self.me = ps[0].arg if ps else None
		elif parent is not None:
			self.me = parent.me
		pos, kwo, va, vk = params_of(self.node)
		self.params = set(pos) | set(kwo) | {x for x in (va, vk) if x}
		self.env = dict(env or {})
		for p in self.params:
			self.env[p] = p in VERB or p in cx.hp.get(id(self.node), ())
		self.sticky = False
		self.nested = {}
		self.retH = False
		self.fresh = set()
		self.cpvars = set(parent.cpvars) if parent else set()

	def where(self, n):
		return '%s line %d' % (self.f.short, getattr(n, 'lineno', 0))

	def run(self):
		if isinstance(self.node, ast.Lambda):
			self.retH = self.ev(self.node.body, False)
		else:
			self.block(self.node.body, False)
		if self.retH:
			if self.parent is None and public(self.f):
				# reported here; not again at every caller
				self.cx.emit('result', self.f.short, False, self.retdet)
			elif not self.cx.ret.get(id(self.node)):
				self.cx.ret[id(self.node)] = True
				self.cx.changed = True
		return self

	# statements -----------------------------------------------------------------
	def block(self, body, pc):
		for i, s in enumerate(body):
			self.stmt(s, pc or self.sticky or self.brk(), body[i + 1:])

	def brk(self):
		return bool(self.loops and self.loops[-1]['skip']) if hasattr(self, 'loops') else False

	def setvar(self, name, h, pc):
		self.env[name] = bool(h or pc)

	def assign(self, t, h, pc, value=None):
		if isinstance(t, ast.Name):
			self.setvar(t.id, h, pc)
			self.fresh.discard(t.id)
			if isinstance(value, ast.Call):
				r = self.cx.P.resolve_expr(self.f.module, value.func) if isinstance(value.func, (ast.Name, ast.Attribute)) else None
				if r and r[0] == 'ext' and r[1].endswith('cvxpy.Variable'):
					self.cpvars.add(t.id)
			if value is not None and isinstance(value, (ast.List, ast.Dict, ast.ListComp, ast.Call, ast.BinOp, ast.Constant, ast.JoinedStr, ast.Tuple)):
				self.fresh.add(t.id)
		elif isinstance(t, (ast.Tuple, ast.List)):
			for e in t.elts:
				self.assign(e, h, pc)
		elif isinstance(t, ast.Starred):
			self.assign(t.value, h, pc)
		elif isinstance(t, ast.Attribute):
			if h or pc:
				self.store_attr(t, pc)
			self.ev(t.value, pc)
		elif isinstance(t, ast.Subscript):
			k = t.slice
			if isinstance(k, ast.Constant) and k.value in VKEY:
				return
			hk = self.ev(k, pc)
			if h or pc or hk:
				self.mutated(t.value, t, 'item assigned', pc)

	def store_attr(self, t, pc):
		if t.attr in VERB:
			return
		root = t.value
		if isinstance(root, ast.Name) and self.env.get(root.id) and root.id not in self.params:
			return      # an attribute of an object that exists only for printing
		if self.f.name == '__init__' and t.attr.startswith('_') and t.attr not in self.cx.attrs:
			self.cx.attrs.add(t.attr)
			self.cx.changed = True
		if not t.attr.startswith('_') or self.f.name != '__init__':
			self.cx.emit('state', '%s.%s' % (self.f.short, t.attr), False if isinstance(root, ast.Name) and root.id == self.me else None,
				'%s: stores a value that depends on the verbosity option in .%s' % (self.where(t), t.attr))

	def mutated(self, e, n, how, pc):
		"""an object is changed in a way that depends on verbosity"""
		while isinstance(e, ast.Subscript):
			e = e.value
		if isinstance(e, ast.Name):
			if self.env.get(e.id) and e.id not in self.params:
				return
			if e.id in self.params and e.id not in VERB and e.id not in self.fresh and not self.env.get(e.id):
				self.cx.emit('state', '%s(%s)' % (self.f.short, e.id), False, '%s: %s depending on the verbosity option' % (self.where(n), how))
			if e.id in self.env:
				self.env[e.id] = True
			return
		if isinstance(e, ast.Attribute):
			if e.attr in self.cx.attrs or e.attr in VERB:
				return
			if isinstance(e.value, ast.Name) and e.value.id == self.me:
				self.cx.emit('state', '%s.%s' % (self.f.short, e.attr), False, '%s: self.%s %s depending on the verbosity option' % (self.where(n), e.attr, how))
			return

	def cond(self, test, pc):
		return self.ev(test, pc)

	def stmt(self, s, pc, rest=()):
		if isinstance(s, ast.Expr):
			self.ev(s.value, pc)
		elif isinstance(s, ast.Assign):
			h = self.ev(s.value, pc)
			for t in s.targets:
				self.assign(t, h, pc, s.value)
		elif isinstance(s, ast.AnnAssign):
			if s.value is not None:
				self.assign(s.target, self.ev(s.value, pc), pc, s.value)
		elif isinstance(s, ast.AugAssign):
			h = self.ev(s.value, pc)
			if isinstance(s.target, ast.Name):
				self.env[s.target.id] = bool(self.env.get(s.target.id) or h or pc)
			elif h or pc:
				self.assign(s.target, h, pc)
		elif isinstance(s, (ast.Return,)):
			h = self.ev(s.value, pc) if s.value is not None else False
			const_none = s.value is None or isinstance(s.value, ast.Constant) and s.value.value is None
			if pc:
				if not (const_none and all_none(self.node)):
					h = True
				self.sticky = True
			if h and not self.retH:
				self.retdet = '%s: the returned value depends on the verbosity option' % self.where(s)
				self.retH = True
		elif isinstance(s, ast.If):
			h = self.cond(s.test, pc)
			if h:
				self.guards(1)
			before = dict(self.env)
			if h and s.orelse:
				a, b = quietly(s.body), quietly(s.orelse)
				if a and [dump(x) for x in a] == [dump(x) for x in b]:
					# the same work either way, apart from what is printed
					for x in s.body + s.orelse:
						if x not in a and x not in b:
							self.stmt(x, True)
					self.block(a, pc)
					return
			if h and self.same_jump(s, rest):
				# both ways leave with the same statement
				self.block(s.body[:-1], True)
				e1 = self.env
				self.env = dict(before)
				if s.orelse:
					self.block(s.orelse[:-1], True)
				self.join(e1)
				self.stmt(s.body[-1], pc)
				return
			common = self.same_defs(s) if h else {}
			self.block(s.body, pc or h)
			e1 = self.env
			self.env = dict(before)
			self.block(s.orelse, pc or h)
			self.join(e1)
			for v, val in common.items():
				sv, self.env2 = self.env, None
				self.env = dict(before)
				lab = self.label(val)
				self.env = sv
				self.env[v] = bool(pc or lab)
		elif isinstance(s, (ast.For, ast.While)):
			if isinstance(s, ast.For):
				h = self.ev(s.iter, pc)
			else:
				h = self.cond(s.test, pc)
			if not hasattr(self, 'loops'):
				self.loops = []
			lp = {'skip': False, 'brk': False}
			entry = dict(self.env)
			for it in range(4):
				self.loops.append(lp)
				lp['skip'] = False
				old = dict(self.env)
				p2 = pc or h or lp['brk']
				if isinstance(s, ast.For):
					self.assign(s.target, h, p2)
				self.block(s.body, p2)
				self.loops.pop()
				self.join(old)
				if isinstance(s, ast.While):
					h = self.cond(s.test, pc) or h
				if self.env == old and it:
					break
			self.join(entry)
			self.block(s.orelse, pc or lp['brk'])
		elif isinstance(s, ast.Try):
			before = dict(self.env)
			self.block(s.body, pc)
			self.join(before)
			after = dict(self.env)
			outs = []
			for hd in s.handlers:
				self.env = dict(after)
				if hd.name:
					self.env[hd.name] = False
				self.block(hd.body, pc)
				outs.append(self.env)
			self.env = after
			self.block(s.orelse, pc)
			for o in outs:
				self.join(o)
			self.block(s.finalbody, pc)
		elif isinstance(s, (ast.With, ast.AsyncWith)):
			for it in s.items:
				h = self.ev(it.context_expr, pc)
				if it.optional_vars is not None:
					self.assign(it.optional_vars, h, pc)
			self.block(s.body, pc)
		elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
			self.nested[s.name] = s
			self.env[s.name] = bool(pc)
			self.sub(s)
		elif isinstance(s, ast.Break):
			if pc and getattr(self, 'loops', None):
				self.loops[-1]['brk'] = True
				self.loops[-1]['skip'] = True
		elif isinstance(s, ast.Continue):
			if pc and getattr(self, 'loops', None):
				self.loops[-1]['skip'] = True
		elif isinstance(s, ast.Raise):
			if s.exc is not None:
				self.ev(s.exc, False)
			if pc and not self.guarded_option(s):
				self.cx.emit('result', self.f.short + ': raise', None, '%s: raises depending on the verbosity option' % self.where(s))
		elif isinstance(s, ast.Assert):
			self.cond(s.test, pc)
		elif isinstance(s, ast.Delete):
			pass

	def guarded_option(self, s):
		return False

	def guards(self, n):
		if self.cx.final:
			g = self.cx.seen.setdefault(self.f.short, [0, 0])
			g[0] += n

	def join(self, o):
		for k, v in o.items():
			if k in self.env:
				self.env[k] = self.env[k] or v
			else:
				self.env[k] = v

	def same_jump(self, s, rest):
		b = s.body[-1] if s.body else None
		if not isinstance(b, (ast.Return, ast.Break, ast.Continue, ast.Raise)):
			return False
		other = s.orelse[-1] if s.orelse else (rest[0] if rest else None)
		if other is None:
			return False
		assigned = {n.id for x in s.body[:-1] + (s.orelse[:-1] if s.orelse else []) for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
		used = {n.id for n in ast.walk(b) if isinstance(n, ast.Name)}
		return dump(b) == dump(other) and not (assigned & used)

	@staticmethod
	def same_defs(s):
		"""variables given the same expression on both sides (verbosity keywords aside)"""
		def last(body):
			d = {}
			for x in body:
				if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
					d[x.targets[0].id] = x.value
				else:
					for n in ast.walk(x):
						if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
							d.pop(n.id, None)
			return d
		a, b = last(s.body), last(s.orelse)
		return {k: a[k] for k in a if k in b and dump(a[k]) == dump(b[k])}

	def sub(self, node):
		"""a nested function or lambda, analysed with what the enclosing variables may hold"""
		w = Flow(self.cx, self.f, node, self.env, self)
		w.nested = dict(self.nested)
		w.run()
		return w

	# expressions ----------------------------------------------------------------
	def label(self, e):
		f, self.cx.final = self.cx.final, False
		try:
			return self.ev(e, False)
		finally:
			self.cx.final = f

	def ev(self, e, pc):
		"""does the value depend on verbosity? (effects of evaluating it are judged on the way)"""
		if e is None:
			return False
		if isinstance(e, ast.Name):
			return self.env.get(e.id, False)
		if isinstance(e, ast.Constant):
			return False
		if isinstance(e, ast.Attribute):
			if e.attr in VERB or e.attr in self.cx.attrs:
				self.ev(e.value, pc)
				return True
			return self.ev(e.value, pc)
		if isinstance(e, ast.Subscript):
			if isinstance(e.slice, ast.Constant) and e.slice.value in VERB:
				return True
			a, b = self.ev(e.value, pc), self.ev(e.slice, pc)
			return a or b
		if isinstance(e, ast.Compare):
			if isinstance(e.left, ast.Constant) and e.left.value in VERB:
				for c in e.comparators:
					self.ev(c, pc)
				return True
			hs = [self.ev(x, pc) for x in [e.left] + e.comparators]
			return any(hs)
		if isinstance(e, ast.BoolOp):
			h = False
			for v in e.values:
				h = self.ev(v, pc or h) or h
			return h
		if isinstance(e, ast.IfExp):
			h = self.ev(e.test, pc)
			a, b = self.ev(e.body, pc or h), self.ev(e.orelse, pc or h)
			if h and dump(e.body) == dump(e.orelse):
				h = False
			return h or a or b
		if isinstance(e, ast.Call):
			return self.call(e, pc)
		if isinstance(e, ast.Lambda):
			return self.sub(e).retH
		if isinstance(e, ast.Dict):
			h = False
			for k, v in zip(e.keys, e.values):
				if isinstance(k, ast.Constant) and k.value in VKEY:
					continue
				h = self.ev(v, pc) or (k is not None and self.ev(k, pc)) or h
			return h
		if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
			save = dict(self.env)
			h = False
			p2 = pc
			for g in e.generators:
				hi = self.ev(g.iter, pc)
				self.assign(g.target, hi, False)
				h = h or hi
				p2 = p2 or hi
				for c in g.ifs:
					hc = self.ev(c, p2)
					h, p2 = h or hc, p2 or hc
			for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
				h = self.ev(x, p2) or h
			self.env = save
			return h
		if isinstance(e, ast.NamedExpr):
			h = self.ev(e.value, pc)
			self.assign(e.target, h, pc, e.value)
			return h or pc
		h = False
		for c in ast.iter_child_nodes(e):
			if isinstance(c, ast.expr):
				h = self.ev(c, pc) or h
			elif isinstance(c, ast.keyword):
				h = self.ev(c.value, pc) or h
		return h

	def call(self, e, pc):
		f = e.func
		name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
		hargs = [self.ev(a.value if isinstance(a, ast.Starred) else a, pc) for a in e.args]
		hkw = {}
		for k in e.keywords:
			h = self.ev(k.value, pc)
			if k.arg in VKEY:
				if h:
					g = self.cx.seen.setdefault(self.f.short, [0, 0]) if self.cx.final else [0, 0]
					g[1] += 1
				continue
			hkw[k.arg] = h
		hrecv = self.ev(f.value, pc) if isinstance(f, ast.Attribute) else False
		anyh = any(hargs) or any(hkw.values())
		full = None
		if isinstance(f, (ast.Name, ast.Attribute)):
			root = f
			while isinstance(root, ast.Attribute):
				root = root.value
			if not (isinstance(root, ast.Name) and root.id in self.env):
				r = self.cx.P.resolve_expr(self.f.module, f)
			else:
				r = None
		else:
			r = None
			self.ev(f, pc)
		if isinstance(f, ast.Name) and f.id == 'print' or r and r[0] == 'ext' and any(r[1] == p or r[1].startswith(p + '.') or r[1] == 'builtins.' + p for p in PRINTS):
			return False
		# nested functions
		if isinstance(f, ast.Name) and f.id in self.nested:
			node = self.nested[f.id]
			self.bind(node, hargs, hkw, 0)
			if pc:
				self.inner_effects(node, e)
			return self.cx.ret.get(id(node), False)
		if r and r[0] == 'func':
			return self.lib([r[1]], e, hargs, hkw, pc, 0, None)
		if r and r[0] == 'class':
			k = r[1].lookup('__init__')
			if k and k[0] == 'method':
				self.lib([k[1]], e, hargs, hkw, pc, 1, None)
			return anyh
		if r and r[0] == 'ext':
			if pc:
				if classify(r[1]) in ('draw', 'reseed'):
					self.cx.emit('random', self.f.short, False, '%s: %s is drawn only for some verbosity settings' % (self.where(e), r[1]))
				ln = r[1].split('.')[-1]
				if ln in MUT_FUN and len(e.args) > MUT_FUN[ln]:
					self.mutated(e.args[MUT_FUN[ln]], e, 'changed by %s' % ln, pc)
				if r[1] == 'builtins.next' and e.args:
					self.mutated(e.args[0], e, 'advanced', pc)
			elif anyh and classify(r[1]) == 'draw':
				self.cx.emit('random', self.f.short, False, '%s: what %s draws depends on the verbosity option' % (self.where(e), r[1]))
			return anyh
		if isinstance(f, ast.Attribute):
			lib = self.cx.by_meth.get(name, [])
			own = isinstance(f.value, ast.Name) and f.value.id == self.me and self.f.cls is not None
			sup = isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'
			cand = lib
			if own or sup:
				c = self.f.cls
				cs = [c] + self.cx.W.sub.get(id(c), []) if own else [c]
				cand = []
				for d in cs:
					k = d.lookup(name) if own else d.lookup(name, after=c)
					if k and k[0] == 'method' and k[1] not in cand:
						cand.append(k[1])
			if hrecv and not own:
				if name == 'solve':
					for v in self.cpvars:
						self.env[v] = True
				return True
			fam = None
			if not own and not sup:
				fam = domain_family(f.value, lib)
				cand = fam or lib
			out = hrecv
			if cand and not (name in MUT_METH and not own and not sup):
				out = self.lib(cand, e, hargs, hkw, pc, 1, f.value, bool(own or sup or fam)) or out
			elif name in MUT_METH:
				if pc or anyh:
					self.mutated(f.value, e, '.%s()' % name, pc)
				out = out or anyh
			else:
				out = out or anyh
			if name == 'solve' and (pc or hrecv or anyh):
				for v in self.cpvars:
					self.env[v] = True
			if pc and (name in SOLVE and not cand):
				self.mutated(f.value, e, '.%s()' % name, pc)
			return out
		return anyh

	def inner_effects(self, node, e):
		for n in ast.walk(node):
			if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
				r = self.cx.P.resolve_expr(self.f.module, n.func)
				if r and r[0] == 'ext' and classify(r[1]) == 'draw':
					self.cx.emit('random', self.f.short, False, '%s: draws only for some verbosity settings' % self.where(n))
			elif isinstance(n, ast.Nonlocal):
				for x in n.names:
					if not self.env.get(x):
						self.env[x] = True

	def bind(self, node, hargs, hkw, skip):
		pos, kwo, va, vk = params_of(node)
		pos = pos[skip:]
		hs = self.cx.hp.setdefault(id(node), set())
		for p, h in list(zip(pos, hargs)) + [(k, h) for k, h in hkw.items() if k in pos or k in kwo]:
			if h and p not in VERB and p not in hs:
				hs.add(p)
				self.cx.changed = True

	def lib(self, cand, e, hargs, hkw, pc, skip, recv, typed=True):
		out = False
		given = any(hargs) or any(hkw.values())
		for g in cand:
			sk = skip if (g.cls is not None and not g.is_static) else 0
			if (len(cand) == 1 or isinstance(recv, ast.Name) and recv.id == self.me) and not (g.short in KNOWN and public(g)):
				self.bind(g.node, hargs, hkw, sk)
			else:
				pos = params_of(g.node)[0][sk:]
				if any(h and p not in VERB for p, h in zip(pos, hargs)) or any(h for h in hkw.values()):
					out = True
			out = out or self.cx.ret.get(id(g.node), False)
		strong = cand and (any if typed else all)(g.short in self.cx.must for g in cand)
		if pc or given and out:
			if strong:
				self.cx.emit('random', self.f.short, False, '%s: %s draws random numbers in a way that depends on the verbosity option' % (self.where(e), cand[0].short))
			elif any(g.short in self.cx.may for g in cand):
				self.cx.emit('random', self.f.short, None, '%s: %s may draw random numbers' % (self.where(e), cand[0].short))
		if pc:
			for g in cand[:1] if len(cand) == 1 else []:
				s = self.cx.W.summary(g)
				sk = skip if (g.cls is not None and not g.is_static) else 0
				pos = params_of(g.node)[0][sk:]
				for p, a in zip(pos, e.args):
					hits = s.mut.get(('p', p))
					if hits and any(h[2] for h in hits):
						self.mutated(a, e, 'changed by %s' % g.short, pc)
				if sk and recv is not None and isinstance(recv, ast.Name) and recv.id == self.me:
					for o in s.mut:
						if o[0] == 's' and not cacheish(g, o[1]) and o[1] not in self.cx.attrs and not o[1].startswith('_norm'):
							self.cx.emit('state', '%s.%s' % (self.f.short, o[1]), None, '%s: %s changes self.%s' % (self.where(e), g.short, o[1]))
		return out


def quietly(body):
	return [x for x in body if not (isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == 'print')]


def cacheish(g, attr):
	return False


def all_none(node):
	for n in ast.walk(node):
		if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
			return False
		if isinstance(n, (ast.Yield, ast.YieldFrom)):
			return False
	return True


RULES = [
	('result', 'no public operation returns, raises or decides anything from a value or a program point that depends on its verbosity option', 25),
	('state', 'no attribute, argument or stored result is changed depending on verbosity', 25),
	('random', 'no random number is drawn, and no iterator advanced, depending on verbosity', 25),
]


def judge(P):
	cx = Ctx(P)
	funcs = [f for f in cx.W.funcs if f.parent is None]
	for rnd in range(8):
		cx.changed = False
		for f in funcs:
			Flow(cx, f).run()
		if not cx.changed:
			break
	cx.final = True
	for f in funcs:
		Flow(cx, f).run()
	return cx, funcs


def sources(cx, f):
	pos, kwo, va, vk = params_of(f.node)
	return bool((set(pos) | set(kwo)) & VERB or cx.seen.get(f.short) or cx.hp.get(id(f.node)))


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	cx, funcs = judge(P)
	n = 0
	for f in funcs:
		if not sources(cx, f):
			continue
		n += 1
		for r in ('result', 'state', 'random'):
			mine = [(k, v) for k, v in cx.out.items() if k[0] == r and (k[1] == f.short or k[1].startswith((f.short + '.', f.short + '(', f.short + ':')))]
			if not mine:
				g = cx.seen.get(f.short, [0, 0])
				ck.ok(r, f.short, '%d guarded regions, option handed on %d times' % tuple(g))
	for (r, c), (v, det) in cx.out.items():
		ck.verdict(r, c, v, det)
	ck.stats['operations with a verbosity option'] = n
	ck.stats['verbosity-guarded regions'] = sum(v[0] for v in cx.seen.values())
	ck.stats['functions that may draw'] = len(cx.may)
	selftest(ck)


FIXTURE = '''
import numpy as np
def quiet(x, verbose=False):
	if verbose:
		mess = 'a'
		mess += 'b'
		print(mess, np.linalg.norm(x))
	for it in range(10):
		y = x**2
		if verbose: print(it, y)
		if y < 1:
			if verbose: print('done')
			break
	return y
def _log(verbose, m):
	if not verbose:
		return
	print(m)
def quiet2(x, verbose=False):
	_log(verbose, x)
	if verbose:
		z = quiet(x, verbose=True)
	else:
		z = quiet(x)
	if verbose:
		print(z)
		return z
	return z
def bad_value(x, verbose=False):
	if verbose:
		x = x + 1
	return x
def bad_stop(x, verbose=False):
	for it in range(10):
		x = x**2
		if x < 1 and verbose:
			break
	return x
def bad_draw(x, verbose=False):
	if verbose:
		print(np.random.rand())
	return x
def bad_count(x, verbose=False):
	for it in range(10 if verbose else 5):
		x = x*2
	return x
def _help(x, n):
	y = 0
	for k in range(n):
		y = y + x
	return y
def bad_help(x, verbose=False):
	return _help(x, 3 if verbose else 2)
class K:
	def bad_store(self, verbose=False):
		if verbose:
			self.n = 3
'''


def selftest(ck):
	import tempfile
	from ..loader import Project
	with tempfile.TemporaryDirectory() as d:
		os.makedirs(d + '/psdr')
		open(d + '/psdr/__init__.py', 'w').write('')
		open(d + '/psdr/fx.py', 'w').write(FIXTURE)
		cx, _ = judge(Project(d))
		got = {(r, c.split('.', 1)[1] if c.startswith('fx.') else c) for (r, c), (v, _) in cx.out.items() if v is False}
	want = {('result', 'bad_value'), ('result', 'bad_stop'), ('random', 'bad_draw'), ('result', 'bad_count'), ('result', 'bad_help'), ('state', 'K.bad_store.n')}
	ck.selftest('fixture: exactly the six planted dependencies are reported (%s)' % sorted(got ^ want), got == want)
