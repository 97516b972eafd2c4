"""G02: every random draw comes from numpy's global generator, freshly, at call time."""
import ast
from ..sweep import Sweep
from ..terms import *
from ..loader import Project

DRAWS = {'rand', 'randn', 'randint', 'random', 'random_sample', 'ranf', 'sample', 'choice', 'permutation', 'shuffle', 'uniform',
	'normal', 'standard_normal', 'beta', 'binomial', 'chisquare', 'dirichlet', 'exponential', 'gamma', 'lognormal', 'multivariate_normal',
	'poisson', 'triangular', 'vonmises', 'weibull', 'bytes', 'random_integers', 'multinomial', 'laplace', 'logistic', 'standard_exponential',
	'standard_gamma', 'standard_cauchy', 'standard_t', 'pareto', 'power', 'rayleigh', 'wald', 'zipf', 'geometric', 'gumbel', 'f', 'hypergeometric',
	'logseries', 'negative_binomial', 'noncentral_chisquare', 'noncentral_f', 'get_state'}
RESEED = {'numpy.random.seed', 'numpy.random.set_state', 'numpy.random.mtrand.seed'}
FOREIGN_PREFIX = ('random.', 'secrets.', 'uuid.uuid', 'numpy.random.', 'scipy.stats.qmc.', 'torch.rand', 'jax.random')
FOREIGN = {'os.urandom', 'os.getrandom', 'random', 'secrets', 'random.SystemRandom'}
CLOCK = {'time.time', 'time.perf_counter', 'time.time_ns', 'time.monotonic', 'time.process_time', 'os.getpid', 'builtins.id', 'builtins.hash',
	'datetime.datetime.now', 'datetime.datetime.utcnow', 'time.perf_counter_ns', 'os.getppid', 'threading.get_ident'}
GENKW = {'seed', 'random_state', 'rng', 'random_seed'}
MEMO = {'lru_cache', 'functools.lru_cache', 'cache', 'functools.cache', 'cached_property', 'functools.cached_property'}
# results that are cached on purpose: a fixed attribute of the (immutable) domain, not a fresh draw
MEMO_OK = {'is_point', 'is_unbounded', 'is_empty', 'volume'}


def classify(name):
	if name in RESEED:
		return 'reseed'
	if name in FOREIGN or name in CLOCK:
		return 'foreign' if name in FOREIGN else 'clock'
	for p in FOREIGN_PREFIX:
		if name.startswith(p):
			if p == 'numpy.random.' and name[len(p):] in DRAWS:
				return 'draw'
			if p == 'numpy.random.' and name.split('.')[2] == 'mtrand' and name.split('.')[-1] in DRAWS:
				return 'draw'
			if name == 'numpy.random.mtrand':
				return None
			return 'foreign'
	if name.startswith('scipy.stats.') and name.endswith('.rvs'):
		return 'draw'
	return None


def is_global_draw(t):
	def p(x):
		return x.op == 'call' and x.args[0].op == 'ext' and classify(x.args[0].args[0]) == 'draw'
	return contains(t, p)


def own_refs(P, module, fnode):
	"""resolved external names mentioned in a function (own body, local imports included)"""
	for n in ast.walk(fnode):
		if isinstance(n, (ast.Attribute, ast.Name)):
			r = P.resolve_expr(module, n)
			if r and r[0] == 'ext':
				yield n, r[1]


def run(ck, P, tier):
	ck.rule('source', 'every reference to a randomness API is a draw from the global numpy generator (numpy.random.<draw> or scipy.stats <dist>.rvs)', 15)
	ck.rule('no-reseed', 'no code of the package seeds, resets or replaces the global generator', 1)
	ck.rule('generator-arg', 'no call passes its own seed or generator (seed=, random_state=, rng=) except a value drawn from the global generator or the caller\'s own argument', 0)
	ck.rule('import-time', 'no draw in a default argument, class body or module body: draws happen when the operation runs', 1)
	ck.rule('no-memo', 'no memoised function draws (a cached draw would be replayed); cached domain attributes %s excepted' % sorted(MEMO_OK), 1)
	ck.rule('no-clock', 'no clock, process id or object identity reaches a returned or stored value', 0)
	analyse(ck, P)
	# self-tests: each expected-zero rule must fire on a fragment
	import tempfile, os
	from ..report import Check
	src = '''
import numpy as np, random, time
from functools import lru_cache
import scipy.stats
def a(n):
	r = np.random
	return r.RandomState(0).rand(n)
def b():
	np.random.seed(3)
def c(n, z=np.random.rand()):
	return random.random() + time.time()
@lru_cache()
def d(n):
	return np.random.rand(n)
def e(n):
	import picosat
	picosat.itersolve(n, initialization='random')
	return scipy.stats.ortho_group.rvs(n, random_state=4)
'''
	with tempfile.TemporaryDirectory() as d:
		os.mkdir(os.path.join(d, 'psdr'))
		open(os.path.join(d, 'psdr', '__init__.py'), 'w').write(src)
		c2 = Check('selftest', Project(d))
		analyse(c2, c2.P)
		got = {(r, c) for v, r, c, _ in c2.obs if v == 'violated'}
	for r in ('source', 'no-reseed', 'generator-arg', 'import-time', 'no-memo', 'no-clock'):
		ck.selftest('g02:' + r, any(x[0] == r for x in got))


def analyse(ck, P):
	S = Sweep(P)
	refs = {}
	for f in P.all_functions():
		if f.parent is not None:
			continue
		for n, name in own_refs(P, f.module, f.node):
			refs.setdefault(f.short, set()).add(name)
	for q, (f, v, st, I) in S.results.items():
		for name, fns in I.ext_seen.items():
			refs.setdefault(f.short, set()).add(name)
	# module and class bodies
	for m in P.modules.values():
		for n in m.tree.body:
			for x in body_exprs(n):
				for y in ast.walk(x):
					if isinstance(y, (ast.Attribute, ast.Name)):
						r = P.resolve_expr(m, y)
						if r and r[0] == 'ext' and classify(r[1]) in ('draw', 'foreign', 'reseed') and called(x, y):
							ck.bad('import-time', '%s:%s' % (m.name, r[1]), 'random source used at import or definition time')
		ck.ok('import-time', m.name)
	draws = 0
	drawing = set()
	for fn in sorted(refs):
		for name in sorted(refs[fn]):
			k = classify(name)
			if k == 'draw':
				draws += 1
				drawing.add(fn)
				ck.ok('source', '%s:%s' % (fn, name))
			elif k == 'foreign':
				# an imported but unused name is not a use: it must be mentioned in a function
				ck.bad('source', '%s:%s' % (fn, name), 'randomness from a source other than the global numpy generator')
			elif k == 'reseed':
				ck.bad('no-reseed', '%s:%s' % (fn, name), 'seeds or replaces the global generator')
		ck.ok('no-reseed', fn)
	# generator arguments
	for f, e in S.events:
		if e['kind'] in ('extcall', 'methcall'):
			t = e['data']
			for k, v in t.args[2]:
				if k in GENKW and v is not NONE:
					nm = t.args[0].args[0] if t.args[0].op == 'ext' else t.args[0].args[1]
					c = '%s:%s(%s)' % (f.short, nm, k)
					if is_global_draw(v) or v.op == 'param' or contains(v, lambda x: x.op == 'param'):
						ck.ok('generator-arg', c)
					else:
						ck.bad('generator-arg', c, 'passes its own generator or seed %s' % show(v, 3))
			kws = dict(t.args[2])
			if 'initialization' in kws and is_const(kws['initialization'], 'random') and 'seed' not in kws:
				ck.bad('generator-arg', '%s:%s' % (f.short, show(t.args[0], 2)), 'random initialisation by an external generator without a seed drawn from the global one')
	# clocks reaching results
	for q, (f, v, st, I) in S.results.items():
		if 'su2_driver' in q:
			continue
		vals = [v] if v is not None else []
		vals += [x for k, x in st.heap.items() if isinstance(x, T)]
		for e in I.events:
			if e['kind'] == 'setattr':
				vals.append(e['data'][2])
			if e['kind'] == 'extcall' and e['data'].args[0].args[0].startswith('numpy.random'):
				vals.append(e['data'])
		hit = None
		for x in vals:
			for y in walk(x):
				if y.op == 'call' and y.args[0].op == 'ext' and y.args[0].args[0] in CLOCK:
					hit = y.args[0].args[0]
		if hit:
			ck.bad('no-clock', f.short, 'a value of %s reaches a result' % hit)
	# memoised draws: transitive over self-calls and resolved calls
	fs = {f.qualname: f for f in P.all_functions() if f.parent is None}
	edges = {}
	for q, f in fs.items():
		out = set()
		for n in ast.walk(f.node):
			if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'super') and f.cls is not None:
				for c in P.classes():
					if c.is_subclass(f.cls) or f.cls.is_subclass(c):
						m = c.lookup(n.attr)
						if m and m[0] == 'method':
							out.add(m[1].qualname)
			if isinstance(n, (ast.Name, ast.Attribute)):
				r = P.resolve_expr(f.module, n)
				if r and r[0] == 'func':
					out.add(r[1].qualname)
		edges[q] = out
	drawq = {q for q, f in fs.items() if f.short in drawing}
	# the attribute caches of domains hide their draws
	reach = set(drawq)
	ch = True
	while ch:
		ch = False
		for q, out in edges.items():
			if q not in reach and any(o in reach and o.rsplit('.', 1)[1] not in MEMO_OK for o in out):
				reach.add(q)
				ch = True
	nm = 0
	for f in P.all_functions():
		if any(d in MEMO for d in f.decorators):
			nm += 1
			top = f
			nested = False
			while top.parent is not None:
				top = top.parent
				nested = True
			if f.cls is not None and f.name in MEMO_OK:
				ck.ok('no-memo', f.short)
			elif f.qualname in reach:
				ck.bad('no-memo', f.short, 'a memoised function draws random numbers, so later calls replay the first draw')
			else:
				ck.ok('no-memo', f.short)
	# calls of a memoiser as a function:  f = lru_cache(g)
	ck.stats.update(functions=S.n, events=len(S.events), draw_sites=draws, drawing_functions=len(drawq), memoised=nm, unanalysed=len(S.failed))


def body_exprs(n):
	"""expressions evaluated when the statement n of a module body is executed"""
	if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
		yield from n.args.defaults
		yield from [d for d in n.args.kw_defaults if d is not None]
		yield from n.decorator_list
		for x in ast.walk(n):
			if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda)):
				pass
	elif isinstance(n, ast.ClassDef):
		for b in n.body:
			yield from body_exprs(b)
	elif isinstance(n, (ast.If, ast.Try)):
		if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test):
			return
		for b in ast.iter_child_nodes(n):
			if isinstance(b, ast.stmt):
				yield from body_exprs(b)
			elif isinstance(b, ast.ExceptHandler):
				for c in b.body:
					yield from body_exprs(c)
	elif isinstance(n, (ast.Import, ast.ImportFrom)):
		return
	else:
		yield from [x for x in ast.iter_child_nodes(n) if isinstance(x, ast.expr)]


def called(root, ref):
	"""is ref (part of) the callee of a call in root, outside lambdas?"""
	def go(n):
		if isinstance(n, ast.Lambda):
			return False
		if isinstance(n, ast.Call) and any(y is ref for y in ast.walk(n.func)):
			return True
		return any(go(c) for c in ast.iter_child_nodes(n))
	return go(root)
