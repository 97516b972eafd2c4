#!/usr/bin/env python3
"""Development aid: rewrite every module of the package in a way that keeps its behaviour, and see that every check stays quiet.
usage: dev/refac.py KIND [CHECK ...];  kinds: see KINDS"""
import ast, copy, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class T(ast.NodeTransformer):
	def __init__(self):
		self.n = 0

	def fresh(self, p='tmp'):
		self.n += 1
		return '%s_%d_' % (p, self.n)


def name(n, store=False):
	return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())


class Unparse(T):
	pass


class Returns(T):
	"""return e -> r = e; return r"""
	def visit_Return(self, s):
		if s.value is None or isinstance(s.value, (ast.Name, ast.Constant)):
			return s
		n = self.fresh('result')
		return [ast.Assign(targets=[name(n, True)], value=s.value), ast.Return(value=name(n))]
	def visit_Lambda(self, s):
		return s


class Swap(T):
	"""if c: A else: B -> if not c: B else: A"""
	def visit_If(self, s):
		self.generic_visit(s)
		if s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
			return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=s.orelse, orelse=s.body)
		return s


class Flip(T):
	"""a < b -> b > a"""
	def visit_Compare(self, s):
		self.generic_visit(s)
		m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
		if len(s.ops) == 1 and type(s.ops[0]) in m:
			return ast.Compare(left=s.comparators[0], ops=[m[type(s.ops[0])]()], comparators=[s.left])
		return s


class Comp(T):
	"""x = [e for ...] -> loop with append"""
	def visit_Assign(self, s):
		v = s.value
		if isinstance(v, ast.ListComp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
			# the loop variables must not be used elsewhere: rename them
			t = self.fresh('acc')
			names = {n.id for g in v.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
			ren = {n: self.fresh(n) for n in names}

			class R(ast.NodeTransformer):
				def visit_Name(self, x):
					return ast.Name(id=ren.get(x.id, x.id), ctx=x.ctx)
			v = copy.deepcopy(v)
			first = v.generators[0].iter
			v.generators[0].iter = ast.Constant(value=None)
			v = R().visit(v)
			v.generators[0].iter = first
			body = [ast.Expr(ast.Call(func=ast.Attribute(value=name(t), attr='append', ctx=ast.Load()), args=[v.elt], keywords=[]))]
			for g in reversed(v.generators):
				for c in reversed(g.ifs):
					body = [ast.If(test=c, body=body, orelse=[])]
				body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
			return [ast.Assign(targets=[name(t, True)], value=ast.List(elts=[], ctx=ast.Load()))] + body + [ast.Assign(targets=s.targets, value=name(t))]
		return s


class Hoist(T):
	"""the arguments of the outermost call of a plain assignment or return get names"""
	def go(self, s):
		v = s.value
		if not isinstance(v, ast.Call) or any(isinstance(a, ast.Starred) for a in v.args):
			return s
		if isinstance(v.func, ast.Name) and v.func.id in ('super', 'locals', 'isinstance'):
			return s
		out = []
		for k, a in enumerate(v.args):
			if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript, ast.ListComp)):
				n = self.fresh('arg')
				out.append(ast.Assign(targets=[name(n, True)], value=a))
				v.args[k] = name(n)
			elif not isinstance(a, (ast.Name, ast.Constant)):
				break
		return out + [s]
	visit_Assign = visit_Return = go


class Impl(T):
	"""the body of a method goes to another method that it calls"""
	def visit_ClassDef(self, c):
		new = []
		for f in c.body:
			new.append(f)
			if not isinstance(f, ast.FunctionDef) or f.decorator_list or f.name.startswith('__') or f.args.vararg or f.args.kwonlyargs:
				continue
			if any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' and not x.args for x in ast.walk(f)):
				continue
			g = copy.deepcopy(f)
			g.name = f.name.rstrip('_') + '_impl'
			names = [a.arg for a in f.args.args]
			call = ast.Call(func=ast.Attribute(value=name(names[0]), attr=g.name, ctx=ast.Load()), args=[name(n) for n in names[1:]], keywords=[])
			if f.args.kwarg:
				call.keywords.append(ast.keyword(arg=None, value=name(f.args.kwarg.arg)))
			g.args.defaults = []
			doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
			g.name = '_%s%s' % (c.name.lower(), g.name if g.name.startswith('_') else '_of_' + g.name)
			call.func.attr = g.name
			f.body = doc + [ast.Return(value=call)]
			new.append(g)
		c.body = new
		return c
	def visit_FunctionDef(self, f):
		return f


class ImplF(T):
	"""the body of a module level function goes to another function that it calls"""
	def visit_Module(self, m):
		new = []
		for f in m.body:
			if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.args.vararg and not f.args.kwonlyargs and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
				g = copy.deepcopy(f)
				g.name = '_' + f.name + '_impl'
				names = [a.arg for a in f.args.args]
				call = ast.Call(func=name(g.name), args=[name(n) for n in names], keywords=[ast.keyword(arg=None, value=name(f.args.kwarg.arg))] if f.args.kwarg else [])
				g.args.defaults = []
				doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
				f.body = doc + [ast.Return(value=call)]
				new.append(g)
			new.append(f)
		m.body = new
		return m


class Rename(T):
	"""local names get another spelling"""
	def visit_FunctionDef(self, f):
		params = {a.arg for a in f.args.args + f.args.kwonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
		skip = set(params)
		for x in ast.walk(f):
			if isinstance(x, (ast.Global, ast.Nonlocal)):
				skip |= set(x.names)
			if isinstance(x, (ast.Import, ast.ImportFrom)):
				skip |= {(a.asname or a.name).split('.')[0] for a in x.names}
			if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f:
				skip |= {a.arg for a in x.args.args}
				if isinstance(x, ast.FunctionDef):
					skip.add(x.name)
			if isinstance(x, ast.ExceptHandler) and x.name:
				skip.add(x.name)
		loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - skip
		for x in ast.walk(f):
			if isinstance(x, ast.Name) and x.id in loc:
				x.id = x.id + '_v'
		return f


class While(T):
	"""for i in range(n) -> while"""
	def visit_For(self, s):
		self.generic_visit(s)
		it = s.iter
		if s.orelse or not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 and isinstance(s.target, ast.Name)):
			return s
		for x in s.body:
			for y in ast.walk(x):
				if isinstance(y, ast.Continue):
					return s
		k, n = self.fresh('k'), self.fresh('n')
		return [ast.Assign(targets=[name(n, True)], value=it.args[0]), ast.Assign(targets=[name(k, True)], value=ast.Constant(value=0)),
			ast.While(test=ast.Compare(left=name(k), ops=[ast.Lt()], comparators=[name(n)]),
				body=[ast.Assign(targets=[copy.deepcopy(s.target)], value=name(k))] + s.body + [ast.AugAssign(target=name(k, True), op=ast.Add(), value=ast.Constant(value=1))], orelse=[])]


class Enum(T):
	"""for x in xs -> for k, x in enumerate(xs)"""
	def visit_For(self, s):
		self.generic_visit(s)
		s.iter = ast.Call(func=name('enumerate'), args=[s.iter], keywords=[])
		s.target = ast.Tuple(elts=[name(self.fresh('k'), True), s.target], ctx=ast.Store())
		return s


class Ternary(T):
	"""x = a if c else b -> if"""
	def visit_Assign(self, s):
		v = s.value
		if isinstance(v, ast.IfExp):
			return ast.If(test=v.test, body=[ast.Assign(targets=s.targets, value=v.body)], orelse=[ast.Assign(targets=copy.deepcopy(s.targets), value=v.orelse)])
		return s


class Guard(T):
	"""a condition of an if is given a name first (not of elif)"""
	def visit_FunctionDef(self, f):
		self.generic_visit(f)
		f.body = self.block(f.body)
		return f
	def block(self, body):
		out = []
		for s in body:
			for k in ('body', 'orelse', 'finalbody'):
				b = getattr(s, k, None)
				if isinstance(b, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
					if k == 'orelse' and isinstance(s, ast.If) and len(b) == 1 and isinstance(b[0], ast.If):
						continue
					setattr(s, k, self.block(b))
			if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
				n = self.fresh('cond')
				out.append(ast.Assign(targets=[name(n, True)], value=s.test))
				s.test = name(n)
			out.append(s)
		return out


class Nothing(T):
	"""a statement that does nothing at the start and the end of every function"""
	def visit_FunctionDef(self, f):
		self.generic_visit(f)
		k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
		f.body.insert(k, ast.Assign(targets=[name('unused_', True)], value=ast.Constant(value=0)))
		return f


class Keywords(T):
	"""np.f(..., axis) untouched; self.m(a) -> bound method taken first"""
	def visit_Assign(self, s):
		v = s.value
		if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == 'self':
			n = self.fresh('method')
			f = v.func
			v.func = name(n)
			return [ast.Assign(targets=[name(n, True)], value=f), s]
		return s


class Elif(T):
	"""if/elif chains of returning branches become separate ifs"""
	def visit_If(self, s):
		self.generic_visit(s)
		if s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
			rest = s.orelse
			s.orelse = []
			return [s] + rest
		return s


class AugA(T):
	"""n += k -> n = n + k for counters (small constant)"""
	def visit_AugAssign(self, s):
		if isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
			return ast.Assign(targets=[s.target], value=ast.BinOp(left=name(s.target.id), op=s.op, right=s.value))
		return s


class Commute(T):
	"""a*b -> b*a when one is a number; a + b -> b + a of names"""
	def visit_BinOp(self, s):
		self.generic_visit(s)
		if isinstance(s.op, ast.Mult) and (isinstance(s.left, ast.Constant) and isinstance(s.left.value, (int, float)) or isinstance(s.right, ast.Constant) and isinstance(s.right.value, (int, float))) :
			if not isinstance(s.left, (ast.List, ast.Tuple)) and not isinstance(s.right, (ast.List, ast.Tuple)):
				return ast.BinOp(left=s.right, op=s.op, right=s.left)
		return s


KINDS = {k.__name__.lower(): k for k in (Unparse, Returns, Swap, Flip, Comp, Hoist, Impl, ImplF, Rename, While, Enum, Ternary, Guard, Nothing, Keywords, Elif, AugA, Commute)}


def main(kind, checks):
	root = tempfile.mkdtemp(prefix='refac_')
	try:
		shutil.copytree('/repo/psdr', root + '/psdr')
		for f in ('setup.py',):
			shutil.copy('/repo/' + f, root)
		for d, _, fs in os.walk(root + '/psdr'):
			for f in fs:
				if f.endswith('.py'):
					p = os.path.join(d, f)
					t = ast.parse(open(p).read())
					for k in kind.split('+'):
						t = KINDS[k]().visit(t)
						ast.fix_missing_locations(t)
						t = ast.parse(ast.unparse(t))
					open(p, 'w').write(ast.unparse(t) + '\n')
		if checks == ['test']:
			shutil.copytree('/repo/tests', root + '/tests')
			r = subprocess.run('/opt/venv/bin/python -m pytest -q -x tests -k "not multif and not oas and not naca" -n 6 2>&1 | tail -5', shell=True, cwd=root, capture_output=True, text=True, env=dict(os.environ, MPLBACKEND='Agg'))
			print(kind, r.stdout[-600:])
			return
		import json
		ids = checks or [c.get('property', c.get('id')) for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
		base = {}
		def one(i):
			r = subprocess.run([sys.executable, HERE + '/check.py', i], capture_output=True, text=True, env=dict(os.environ, PSA_REPO=root, PSA_EVIDENCE=root + '/ev_' + i + '.json'))
			v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
			head = next((l for l in r.stdout.splitlines() if l.startswith(i + ':')), '')
			return i, r.returncode, v, head, r.stderr[-300:] if r.returncode not in (0, 1) else ''
		from concurrent.futures import ThreadPoolExecutor
		with ThreadPoolExecutor(7) as ex:
			for i, rc, v, head, err in ex.map(one, ids):
				print(kind, i, 'rc=%d' % rc, head[len(i) + 2:90], err)
				for l in v[:6]:
					print('    ', l.split('rule=')[-1][:230])
	finally:
		shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
	main(sys.argv[1], sys.argv[2:])
