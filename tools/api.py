"""Regenerate psa/api.json: what the installed third-party modules define (run with /opt/venv/bin/python; needs no repo code).
usage: /opt/venv/bin/python tools/api.py /repo"""
import ast, importlib, inspect, json, os, sys, types, warnings
warnings.simplefilter('ignore')
repo = sys.argv[1]
mods = {'builtins'}
for d, _, fs in os.walk(os.path.join(repo, 'psdr')):
	for f in fs:
		if f.endswith('.py'):
			t = ast.parse(open(os.path.join(d, f)).read())
			for n in ast.walk(t):
				if isinstance(n, ast.Import):
					mods |= {a.name for a in n.names}
				elif isinstance(n, ast.ImportFrom) and not n.level:
					mods.add(n.module)
					mods |= {n.module + '.' + a.name for a in n.names}
mods |= {'numpy.linalg', 'numpy.random', 'numpy.polynomial', 'numpy.fft', 'scipy.linalg', 'scipy.optimize', 'scipy.spatial', 'scipy.spatial.distance', 'scipy.stats', 'scipy.special', 'scipy.sparse', 'scipy.sparse.linalg', 'os.path', 'itertools', 'functools', 'math', 'copy', 'warnings', 'collections', 'cvxpy.error', 'matplotlib.pyplot'}
mods = {m for m in mods if m and not m.startswith('psdr')}


def sig(o):
	try:
		s = inspect.signature(o)
	except (ValueError, TypeError):
		return None
	if isinstance(o, type) and o.__init__ is object.__init__ and o.__new__ is object.__new__:
		return None
	pos, req, kwo, kwreq, va, vk, ponly = [], 0, [], [], False, False, 0
	for p in s.parameters.values():
		if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
			pos.append(p.name)
			if p.default is p.empty:
				req = len(pos)
			if p.kind == p.POSITIONAL_ONLY:
				ponly += 1
		elif p.kind == p.KEYWORD_ONLY:
			kwo.append(p.name)
			if p.default is p.empty:
				kwreq.append(p.name)
		elif p.kind == p.VAR_POSITIONAL:
			va = True
		else:
			vk = True
	return [pos, req, va, kwo, kwreq, vk, ponly]


out, missing, uni = {}, [], set()
for m in sorted(mods):
	try:
		mod = importlib.import_module(m)
	except Exception:
		par, _, last = m.rpartition('.')
		try:
			if par and hasattr(importlib.import_module(par), last):
				continue
		except Exception:
			pass
		missing.append(m)
		continue
	d = {}
	for n in dir(mod):
		with warnings.catch_warnings():
			warnings.simplefilter('ignore')
			try:
				o = getattr(mod, n)
			except Exception:
				continue
		if isinstance(o, types.ModuleType):
			d[n] = ['mod', o.__name__]
			continue
		if isinstance(o, type):
			d[n] = ['cls', sig(o)]
			uni |= set(dir(o))
			for b in o.__mro__:
				try:
					src = inspect.getsource(b)
					for x in ast.walk(ast.parse(src.lstrip() if not src[0].isspace() else 'if 1:\n' + src)):
						if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
							uni.add(x.attr)
				except Exception:
					pass
		elif callable(o):
			d[n] = ['fun', sig(o)]
			uni |= {'__call__'} | set(dir(o))
		else:
			d[n] = ['val', None]
			uni |= set(dir(o))
	if hasattr(mod, '__getattr__'):
		for n in ['int', 'float', 'bool', 'object', 'str', 'complex', 'long', 'unicode', 'string']:
			if n not in d and hasattr(mod, n):
				d[n] = ['val', None]
	out[m] = d
import numpy, scipy, cvxpy
from scipy import stats, optimize
objs = [types.FunctionType, types.GeneratorType, stats.norm(), optimize.OptimizeResult, optimize.OptimizeResult(), numpy.random.RandomState(), numpy.finfo(float), numpy.dtype(float), Exception(), 1, 1., 'a', b'', [], {}, (), set(), iter([]), range(2), numpy.float64(1), numpy.zeros(1), numpy.zeros(1).flat, cvxpy.Variable(2), cvxpy.Problem(cvxpy.Minimize(0)), cvxpy.Variable(1) >= 0, numpy.int64(1)]
from scipy import spatial
import concurrent.futures
pts = numpy.vstack([numpy.eye(2), -numpy.eye(2)])
objs += [spatial.ConvexHull(pts), spatial.Delaunay(pts), spatial.Voronoi(pts), spatial.HalfspaceIntersection(numpy.hstack([pts, -numpy.ones((4, 1))]), numpy.zeros(2)), spatial.cKDTree(pts), concurrent.futures.Executor()]
import matplotlib
matplotlib.use('agg')
from matplotlib import pyplot
fig, ax = pyplot.subplots()
objs += [fig, ax, ax.contour(numpy.eye(3)), ax.plot([1])[0], ax.scatter([1], [1])]
uni |= {'x', 'success', 'message', 'status', 'fun', 'jac', 'nit', 'slack', 'con'}
uni |= {'x', 'xl'}
for o in objs:
	uni |= set(dir(o))
for f in ['re', 'subprocess', 'tempfile', 'shutil', 'time', 'datetime', 'io', 'matplotlib.figure', 'matplotlib.axes']:
	try:
		mod = importlib.import_module(f)
		for n in dir(mod):
			uni |= set(dir(getattr(mod, n)))
		if f == 're':
			uni |= set(dir(mod.compile('a'))) | set(dir(mod.match('a', 'a')))
		if f == 'io':
			uni |= set(dir(mod.StringIO()))
		if f == 'subprocess':
			uni |= {'returncode', 'stdout', 'stderr', 'args', 'pid', 'poll', 'wait', 'communicate'}
	except Exception:
		pass
json.dump({'modules': out, 'missing': missing, 'attributes': sorted(uni)}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'psa', 'api.json'), 'w'), sort_keys=True, separators=(',', ':'))
print(len(out), missing, len(uni))
