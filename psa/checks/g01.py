"""G01: library calls never modify the caller's arrays, option dictionaries or defaults (may-alias analysis)."""
import ast
import json
import os
from ..alias import World
from ..loader import AnalysisBroken

KNOWN = set(json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'functions.json'))))

FIXTURE = '''
import numpy as np
TABLE = {}
def _work(A):
	A[0] *= 2
	return A
def pub_direct(X):
	X = np.asarray(X)
	X[0] = 1
	return X
def pub_via(X, k=2):
	return _work(X.T)
def pub_copy(X):
	X = np.array(X)
	X[0] = 1
	return _work(X.copy())
def pub_default(a, opts={}):
	opts['a'] = a
	return opts
def pub_merge(a, opts={}):
	opts = dict(opts, a=a)
	return opts
def pub_table(k):
	TABLE[k] = 1
	return TABLE
class Keeper:
	def __init__(self, X):
		self.X = np.asarray(X)
		self.Y = np.array(X)
	def run(self):
		self.X[0] += 1
	def safe(self):
		self.Y[0] += 1
'''


def public(f):
	parts = f.short.split('.')
	n = parts[-1]
	if parts[0] != 'fx' and f.short not in KNOWN:
		return False      # a helper split off later: its callers answer for what reaches it
	return (not n.startswith('_')) or n.startswith('__')


def self_names(f):
	if f.cls is None:
		return set()
	a = f.node.args
	ps = a.posonlyargs + a.args
	if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.node.decorator_list):
		return set()
	return {ps[0].arg} if ps else set()


def default_params(f):
	a = f.node.args
	ps = a.posonlyargs + a.args
	out = []
	for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
		if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call):
			out.append(p.arg)
	return out


def all_params(f):
	a = f.node.args
	return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


MUTATORS = ('add', 'append', 'read', 'fit', 'init', 'build', 'load', 'reset', 'set', 'update', 'sample', 'insert', 'extend', 'clear', 'train')


def is_mutator(f):
	n = f.short.split('.')[-1].lstrip('_')
	return n.startswith(MUTATORS)


def helper_of_mutator(P, f, seen=()):
	"""a private method every mention of which, anywhere in the package, is in a constructor, a mutator or another such helper"""
	n = f.short.split('.')[-1]
	if not n.startswith('_') or n.startswith('__') or n in seen:
		return False
	idx = getattr(P, '_g01_mentions', None)
	if idx is None:
		idx = {}
		for g in P.all_functions():
			for x in ast.walk(g.node):
				if isinstance(x, ast.Attribute):
					idx.setdefault(x.attr, []).append(g)
		P._g01_mentions = idx
	users = [g for g in idx.get(n, []) if g is not f]
	return bool(users) and all(g.short.split('.')[-1] == '__init__' or is_mutator(g) or helper_of_mutator(P, g, seen + (n,)) for g in users)


def judge(P):
	"""yield (rule, construct, verdict, detail)"""
	W = World(P)
	state = {}
	for f in W.funcs:
		if f.parent is not None:
			continue
		s = W.summary(f)
		me = self_names(f)
		dflt = default_params(f)
		for p in all_params(f):
			if p in me:
				continue
			for kind, rule in (('p', 'argument'), ('e', 'argument')):
				hits = s.mut.get((kind, p), [])
				con = '%s(%s)' % (f.short, p)
				if hits:
					d = any(h[2] for h in hits)
					h = next((h for h in hits if h[2]), hits[0])
					det = '%s%s: %s' % ('contents of the argument: ' if kind == 'e' else '', h[0], h[1])
					if public(f):
						yield rule, con, False if d else None, det
					elif p in dflt and kind == 'p':
						yield 'default', con, False if d else None, det
				elif public(f) and kind == 'p':
					yield rule, con, True, ''
			if p in dflt and not s.mut.get(('p', p)):
				yield 'default', '%s(%s)' % (f.short, p), True, ''
		for o, hits in s.mut.items():
			if o[0] == 'g':
				h = hits[0]
				yield 'module', '%s -> %s' % (f.short, o[1]), False if any(x[2] for x in hits) else None, '%s: %s' % (h[0], h[1])
		if not s.mut or not any(o[0] == 'g' for o in s.mut):
			yield 'module', f.short, True, ''
	for c in W.classes:
		st = W.stored(c)
		for f in list(c.methods.values()) + list(c.setters.values()):
			s = W.summary(f)
			for o, hits in s.mut.items():
				if o[0] == 's' and o[1] in st:
					src = sorted(st[o[1]])
					src = [x for x in src if x[1][0] == 'p' or True]
					own = [h for h in hits]
					h = own[0]
					# a stored caller's *container element* only counts when the mutation reaches it
					yield 'kept', '%s.%s' % (c.name, o[1]), False if any(x[2] for x in own) else None, \
						'%s keeps the caller\'s %s without copying, and %s: %s' % (src[0][0], src[0][1][1], h[0], h[1])
			for a in st:
				if ('s', a) not in s.mut:
					yield 'kept', '%s.%s in %s' % (c.name, a, f.short), True, ''
			# accumulating changes of the object's own data by something that is not a mutator
			if f.short.split('.')[-1] == '__init__' or is_mutator(f) or helper_of_mutator(P, f):
				continue
			for n, a, how in accumulates(f):
				if built_here(f, a):
					continue
				yield 'drift', '%s.%s' % (f.short, a), False, 'line %d: %s: the next identical call starts from different data' % (n.lineno, how)
			yield 'drift', f.short, True, ''
	yield 'stats', W, None, ''


INPLACE = {'append', 'extend', 'insert', 'pop', 'sort', 'reverse', 'remove'}


def accumulates(f):
	"""self.attr op= e, self.attr[..] op= e, self.attr.append(..)"""
	me = next(iter(self_names(f)), None)
	if me is None:
		return

	def own(e):
		while isinstance(e, ast.Subscript):
			e = e.value
		if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me:
			return e.attr
		return None
	for n in ast.walk(f.node):
		if isinstance(n, ast.AugAssign) and own(n.target):
			yield n, own(n.target), 'augmented'
		elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in INPLACE and own(n.func.value):
			yield n, own(n.func.value), '.%s()' % n.func.attr


def built_here(f, attr):
	"""the method itself (re)binds self.attr before changing it, so repeated calls start afresh; or it is a counter of calls"""
	me = next(iter(self_names(f)), None)
	for n in ast.walk(f.node):
		if isinstance(n, ast.Assign):
			for t in n.targets:
				for u in (t.elts if isinstance(t, ast.Tuple) else [t]):
					if isinstance(u, ast.Attribute) and isinstance(u.value, ast.Name) and u.value.id == me and u.attr == attr:
						return True
		elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == attr:
			v = n.value
			if isinstance(v, ast.Constant) and isinstance(n.op, ast.Add):
				return True
	return False


RULES = [
	('argument', 'no public function, constructor or method changes, itself or through any callee, an array/list/dictionary argument, a view of it, or something inside it', 500),
	('default', 'a shared default argument (list, dict, object) is never changed in place', 30),
	('module', 'no function changes a module-level container', 300),
	('kept', 'a caller\'s object kept in an attribute without copying is never changed in place later', 100),
	('drift', 'a query method does not accumulate changes in the object\'s own data (a repeated call starts from the same state)', 150),
]


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	W = None
	for rule, con, v, det in judge(P):
		if rule == 'stats':
			W = con
			continue
		ck.verdict(rule, con, v, det)
	ck.stats['functions summarised'] = len(W.funcs)
	ck.stats['fixpoint rounds'] = W.rounds
	names = {f.short for f in W.funcs}
	for a in ('sample.minimax.minimax_cluster', 'domains.euclidean.EuclideanDomain.sweep', 'seqlp.sequential_lp', 'gn.gauss_newton'):
		if a not in names:
			raise AnalysisBroken('public function %s has gone' % a)
	selftest(ck)


def selftest(ck):
	import tempfile
	from ..loader import Project
	with tempfile.TemporaryDirectory() as d:
		os.makedirs(d + '/psdr')
		open(d + '/psdr/__init__.py', 'w').write('')
		open(d + '/psdr/fx.py', 'w').write(FIXTURE)
		got = {(r, c) for r, c, v, _ in judge(Project(d)) if r != 'stats' and v is False}
	got = {(r, c.split('.')[-1] if r != 'drift' else c) for r, c in got}
	want = {('argument', 'pub_direct(X)'), ('argument', 'pub_via(X)'), ('argument', 'pub_default(opts)'), ('module', 'TABLE'), ('kept', 'X'), ('drift', 'fx.Keeper.run.X'), ('drift', 'fx.Keeper.safe.Y')}
	ck.selftest('fixture: the 7 planted mutations are reported and nothing else', got == want)
