"""M02: runs of an external model keep to the scratch directory they create and leave nothing behind.

Each wrapper is interpreted over a stand-in file system and process table: every library call that touches files or starts a
program is an event on the stand-in, paths and command lines are exact strings, file contents are tokens. One scenario per way
the program, the disk or the caller can behave; the events are compared with the rules below."""
import ast, posixpath, shlex
from ..loader import AnalysisBroken
from ..arr import Interp, Obj, Arr, Ext, Fn, Cannot, Raised, CELL, symbols, to_arr, poly, num, unwrap
from ..formula import Poly, equal
from .r01 import tried

RULES = [
	('inside', 'everything written or removed lies in the working directory of this run', 30),
	('mounted', 'the program started is given this working directory and the input written there', 12),
	('removed', 'a scratch directory of its own is gone when the call is over, however it ends, and a directory the caller named when it succeeds, unless the caller asked to keep it', 30),
	('kept', 'what existed before the call, and what the caller asked to keep, is still there', 8),
	('answer', 'the values returned are those the program wrote, in their order', 8),
	('failure', 'a run without results raises an error and returns no values', 12),
	('option', 'every option of the wrapper reaches the program, and every option of the model reaches the wrapper', 20),
]
TMP, USER = '/scratch/tmpq1', '/home/user/run'


def plain(v):
	"""the Python value of a concrete interpreted value"""
	if isinstance(v, (tuple, list)):
		r = [plain(x) for x in v]
		return tuple(r) if isinstance(v, tuple) else r
	if isinstance(v, (str, bool)) or v is None:
		return v
	x = num(v)
	if x is None:
		raise Cannot('text of a symbol')
	return int(x) if x == int(x) else float(x)


class Shell(Interp):
	"""the interpreter with exact strings"""

	def binop(self, op, a, b):
		if isinstance(a, str) and op == 'Mod':
			b = plain(b)
			try:
				return a % (tuple(b) if isinstance(b, tuple) else b)
			except (TypeError, ValueError):
				raise Raised('TypeError')
		if isinstance(a, str) and isinstance(b, str) and op == 'Add':
			return a + b
		if op == 'Mult' and isinstance(a, Obj) and '__mul__' in a.attrs:
			return a.attrs['__mul__'](b)
		return Interp.binop(self, op, a, b)

	def e_JoinedStr(self, e, env):
		out = ''
		for v in e.values:
			if isinstance(v, ast.Constant):
				out += v.value
			else:
				x = self.ev(v.value, env)
				x = text(x) if isinstance(x, Obj) else plain(x)
				spec = self.e_JoinedStr(v.format_spec, env) if v.format_spec is not None else ''
				out += format(x, spec)
		return out

	def method(self, v, name, args, kw):
		if isinstance(v, str) and name in ('join', 'format', 'split', 'strip', 'rstrip', 'lstrip', 'startswith', 'endswith', 'lower', 'upper', 'replace', 'encode', 'decode', 'splitlines', 'rpartition', 'partition', 'isspace'):
			if name in ('encode', 'decode'):
				return v
			a = [[text(x) for x in self.iterate(args[0])]] if name == 'join' else [x if isinstance(x, tuple) else plain(x) for x in args]
			return getattr(v, name)(*a, **{k: plain(x) for k, x in kw.items()})
		return Interp.method(self, v, name, args, kw)

	def builtin(self, n, args, kw):
		if n == 'str' and args:
			return text(args[0]) if isinstance(args[0], (str, Obj)) else str(plain(args[0]))
		if n in ('float', 'int') and args and isinstance(args[0], str):
			t = args[0].strip()
			if t.startswith('token'):
				return Poly.var(t)
			raise Raised('ValueError')
		if 'builtins.' + n in self.hooks:
			return self.hooks['builtins.' + n](self, args, kw)
		return Interp.builtin(self, n, args, kw)

	def iterate(self, v):
		if isinstance(v, Obj) and '__iter__' in v.attrs:
			return list(v.attrs['__iter__']())
		return Interp.iterate(self, v)

	def e_Name(self, e, env):
		if e.id == '__file__':
			return '/package/' + env['@f'].module.name.replace('.', '/') + '.py'
		return Interp.e_Name(self, e, env)


def text(v):
	if isinstance(v, Obj) and '@path' in v.attrs:
		return v.attrs['@path']
	if isinstance(v, str):
		return v
	raise Cannot('text')


class Box:
	"""stand-in file system and process table"""

	def __init__(self, run='good', code=0, system='Linux', there=(), fails=None):
		self.dirs, self.files, self.was = set(there), {}, set(there)
		self.made, self.touched, self.gone, self.calls, self.reads = [], [], [], [], []
		self.run, self.code, self.system, self.fails, self.n = run, code, system, fails, 0
		self.live = set(there)
		for d in there:
			self.files[d + '/diary'] = 'old'
		

	def event(self, what):
		"""one more operation that can fail"""
		self.n += 1
		if self.fails == self.n:
			self.failed = what
			raise Raised('OSError')

	def put(self, p, what):
		p = posixpath.normpath(posixpath.join('/cwd', text(p)))
		self.touched.append(p)
		if posixpath.dirname(p) not in self.dirs:
			raise Raised('FileNotFoundError')
		self.files[p] = what
		return p

	def at(self, p):
		return posixpath.normpath(posixpath.join('/cwd', text(p)))

	# the program
	def start(self, args):
		args = shlex.split(args) if isinstance(args, str) else [text(x) for x in args]
		self.calls.append(args)
		self.event('start')
		if self.run == 'absent':
			raise Raised('FileNotFoundError')
		src, dst = self.mount(args)
		if src is None:
			raise Cannot('no directory mounted')
		return src

	@staticmethod
	def mount(args):
		for i, a in enumerate(args):
			spec = a.split('=', 1)[1] if a.startswith(('--mount=', '--volume=')) else args[i + 1] if a in ('--mount', '-v', '--volume', '-B', '--bind') and i + 1 < len(args) else None
			if spec is None:
				continue
			if ':' in spec and 'source=' not in spec and 'src=' not in spec:
				return tuple(spec.split(':')[:2])
			kv = dict(x.split('=', 1) for x in spec.split(',') if '=' in x)
			strip = lambda t: t.strip('\'"') if t else t
			return strip(kv.get('source', kv.get('src'))), strip(kv.get('target', kv.get('dst', kv.get('destination'))))
		return None, None

	def hooks(self, lines):
		H = {}

		def mkdtemp(I, a, k):
			self.event('mkdtemp')
			d = TMP + str(len(self.made)) if self.made else TMP
			self.dirs.add(d)
			self.made.append(d)
			self.live.add(d)
			return d

		def makedirs(I, a, k):
			self.event('makedirs')
			d = self.at(a[0])
			if d in self.dirs:
				ok = k.get('exist_ok', a[2] if len(a) > 2 else False)
				if ok:
					return None
				raise Raised('FileExistsError')
			self.dirs.add(d)
			self.live.add(d)
			self.made.append(d)

		def rmtree(I, a, k):
			d = self.at(a[0])
			self.gone.append(d)
			if d not in self.live:
				if k.get('ignore_errors', len(a) > 1 and a[1]):
					return None
				raise Raised('FileNotFoundError')
			self.live.discard(d)
			self.dirs.discard(d)
			for f in [f for f in self.files if f.startswith(d + '/')]:
				del self.files[f]

		def unlink(I, a, k):
			f = self.at(a[0])
			self.gone.append(f)
			if f not in self.files:
				raise Raised('FileNotFoundError')
			del self.files[f]
		H['tempfile.mkdtemp'] = mkdtemp
		H['os.makedirs'] = H['os.mkdir'] = makedirs
		H['shutil.rmtree'] = rmtree
		H['os.remove'] = H['os.unlink'] = unlink

		def tempdir(I, a, k):
			d = mkdtemp(I, a, k)
			return Obj('tempdir', {'name': d, '__enter__': lambda: d, '__exit__': lambda *x: rmtree(I, [d], {}), 'cleanup': lambda: rmtree(I, [d], {})})
		H['tempfile.TemporaryDirectory'] = tempdir

		def copy(I, a, k):
			self.event('copy')
			src, dst = text(a[0]), text(a[1])
			if self.at(dst) in self.dirs:
				dst = posixpath.join(dst, posixpath.basename(src))
			self.put(dst, ('copy', src))
			return dst
		for q in ('shutil.copyfile', 'shutil.copy', 'shutil.copy2'):
			H[q] = copy

		def savetxt(I, a, k):
			self.event('save')
			self.put(a[0], ('array', a[1]))

		def results(p):
			if p not in self.files:
				raise Raised('FileNotFoundError')
			w = self.files[p]
			if w[0] != 'out':
				raise Cannot('reads an input')
			self.reads.append(p)
			return w[1]

		def loadtxt(I, a, k):
			p = self.at(a[0])
			v = results(p)
			if self.run == 'broken':
				raise Raised('ValueError')
			return v if isinstance(v, Arr) else Arr((len(v),), [Poly.var(t) for t in v])
		H['numpy.savetxt'] = savetxt
		H['numpy.loadtxt'] = H['numpy.genfromtxt'] = loadtxt

		def opened(I, a, k):
			mode = a[1] if len(a) > 1 else k.get('mode', 'r')
			p = self.at(a[0])
			if 'r' in mode and '+' not in mode:
				v = results(p)
				rows = ['%s name%d\n' % (t, i) for i, t in enumerate(v)]
				if self.run == 'broken':
					rows[1] = 'segmentation fault (core dumped)\n'
				rest = list(rows)
				o = {'read': lambda *x: ''.join(rows), 'readlines': lambda: list(rows), 'readline': lambda: rest.pop(0) if rest else '', '__iter__': lambda: rows}
			else:
				self.event('open')
				old = self.files.get(p) if 'a' in mode or '+' in mode else None
				self.put(p, old or ('text', []))
				more = []
				self.files[p] = ('text', more, old)
				o = {'write': lambda t: more.append(t), 'writelines': lambda t: more.extend(I.iterate(t)), 'flush': lambda: None, 'fileno': lambda: 7}
			f = Obj('file', {**o, 'close': lambda: None, '@path': p})
			f.attrs['__enter__'] = lambda: f
			f.attrs['__exit__'] = lambda *x: None
			return f
		H['builtins.open'] = H['io.open'] = opened

		# processes
		def finish(src):
			# a relative path names no directory to the program
			if src.startswith('/') and self.run in ('good', 'broken', 'partial'):
				for name, v in lines.items():
					if self.run == 'partial' and name != sorted(lines)[0]:
						continue
					self.files[src + '/' + name] = ('out', v)

		def popen(I, a, k):
			self.cwd = k.get('cwd')
			src = self.start(a[0] if a else k['args'])
			out = ['starting\n', 'done\n']
			st = {'left': list(out)}

			def readline():
				if st['left']:
					return st['left'].pop(0)
				done()
				return ''

			def done():
				if not st.get('done'):
					st['done'] = True
					finish(src)
				o.attrs['returncode'] = self.code
				return self.code
			o = Obj('process', {'returncode': None, 'pid': 99, 'kill': lambda: None, 'terminate': lambda: None, 'args': a[0] if a else None})
			o.attrs['stdout'] = Obj('pipe', {'readline': readline, 'read': lambda *x: (done(), ''.join(out))[1], '__iter__': lambda: (done(), list(out))[1], 'close': lambda: None})
			o.attrs['poll'] = lambda: done() if not st['left'] else None
			o.attrs['wait'] = lambda *x, **y: done()
			o.attrs['communicate'] = lambda *x, **y: (done(), (''.join(out), ''))[1]
			o.attrs['__enter__'] = lambda: o
			o.attrs['__exit__'] = lambda *x: done()
			return o
		H['subprocess.Popen'] = popen

		def run(I, a, k):
			self.cwd = k.get('cwd')
			src = self.start(a[0] if a else k['args'])
			finish(src)
			if k.get('check') and self.code:
				raise Raised('CalledProcessError')
			return Obj('done', {'returncode': self.code, 'stdout': 'starting\ndone\n', 'stderr': '', 'check_returncode': lambda: None})
		H['subprocess.run'] = run

		def call(I, a, k):
			run(I, a, {x: y for x, y in k.items() if x != 'check'})
			return self.code
		H['subprocess.call'] = H['os.system'] = call

		def checked(I, a, k):
			run(I, a, k)
			if self.code:
				raise Raised('CalledProcessError')
			return 'starting\ndone\n'
		H['subprocess.check_call'] = H['subprocess.check_output'] = checked

		# names
		pure = lambda g: lambda I, a, k: g(*[text(x) for x in a])
		H['os.path.join'] = H['posixpath.join'] = pure(posixpath.join)
		H['os.path.abspath'] = H['os.path.realpath'] = pure(lambda p: posixpath.normpath(posixpath.join('/cwd', p)))
		for q in ('dirname', 'basename', 'splitext', 'normpath', 'split', 'expanduser'):
			H['os.path.' + q] = pure(getattr(posixpath, q) if q != 'expanduser' else (lambda p: p.replace('~', '/home/user')))
		H['os.path.exists'] = lambda I, a, k: self.at(a[0]) in self.dirs or self.at(a[0]) in self.files
		H['os.path.isdir'] = lambda I, a, k: self.at(a[0]) in self.dirs
		H['os.path.isfile'] = lambda I, a, k: self.at(a[0]) in self.files
		H['os.getcwd'] = lambda I, a, k: '/cwd'
		H['os.getuid'] = lambda I, a, k: 1234
		H['platform.system'] = lambda I, a, k: self.system
		H['shlex.split'] = lambda I, a, k: shlex.split(text(a[0]))
		H['shlex.quote'] = lambda I, a, k: shlex.quote(text(a[0]))
		return H


MODELS = [
	# function, results, options and the words each adds, gradient
	('demos.multif.multif', {'results.out': ['token%d' % i for i in range(4)]}, [('level', 7, ['7']), ('version', 'v99', ['jeffreyhokanson/multif:v99']), ('cores', 5, ['5'])], None),
	('demos.naca0012.naca0012_func', {'my.output': ['token0', 'token1'], 'my_grad.output': None}, [('n_lower', 3, ['--nlower', '3']), ('n_upper', 4, ['--nupper', '4']), ('maxiter', 77, ['--maxiter', '77']), ('nprocesses', 6, ['--nprocesses', '6']), ('version', 'v99', ['jeffreyhokanson/naca0012:v99']), ('return_grad', True, ['--adjoint', 'discrete'])], 'return_grad'),
	('demos.oas.oas_func', {'my.output': ['token%d' % i for i in range(3)]}, [('version', 'v99', ['jeffreyhokanson/oas:v99'])], None),
]


def words(args, want):
	"""want appears in args as a run of words"""
	return any(args[i:i + len(want)] == want for i in range(len(args)))


def run(ck, P, tier):
	for name, text_, floor in RULES:
		ck.rule(name, text_, floor)
	for q, lines, options, grad in MODELS:
		f = P.func('psdr.' + q)
		if f is None:
			raise AnalysisBroken('%s is gone' % q)
		have = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
		for o in ('workdir', 'keep_data', 'verbose') + tuple(x for x, _, _ in options):
			if o not in have:
				raise AnalysisBroken('%s has no option %s' % (q, o))
		short = q.split('.')[1]
		lines = {n: (v if v is not None else symbols('G', (2, 3))) for n, v in lines.items()}
		fn = Fn(f, f.node, None, None)

		def go(b, **kw):
			CELL[0] = {}
			I = Shell(P, b.hooks(lines), steps=60000)
			return I.call(fn, [symbols('x', (3,))], kw)

		def state(con, b, kw, over):
			"""the rules that hold however the call ends"""
			wd = USER if 'workdir' in kw else TMP
			bad = [p for p in b.touched + b.gone if not (p == wd and p in b.gone or p.startswith(wd + '/'))]
			ck.verdict('inside', con, not bad, 'touches %s' % ', '.join(sorted(set(bad))[:3]) if bad else '%d paths below %s' % (len(set(b.touched)), wd))
			left = [d for d in b.made if d in b.live]
			if not kw.get('keep_data') and ('workdir' not in kw or over == 'returns'):
				ck.verdict('removed', con, not left, '%s: %s' % (over, 'leaves %s behind' % ', '.join(left) if left else 'removed'))
			old = [d for d in b.was if d not in b.live or b.files.get(d + '/diary') != 'old' or [p for p in b.touched if p.startswith(d + '/')]]
			if b.was:
				ck.verdict('kept', con, not old, 'a directory there before is %s' % ('changed or gone' if old else 'as it was'))

		def trial(con, b, kw, expect):
			def body():
				try:
					r = go(b, **kw)
					over = 'returns'
				except Raised as e:
					r, over = None, 'raises %s' % e.name
				state(con, b, kw, over)
				if expect == 'fail':
					ck.verdict('failure', con, over != 'returns', over)
				elif expect == 'ok' and over != 'returns':
					ck.bad('answer', con, over)
				elif expect == 'ok':
					answer(con, b, kw, r)
				return over
			tried(ck, 'inside', con, body)

		def answer(con, b, kw, r):
			g = None
			if grad and kw.get(grad):
				if not isinstance(r, (tuple, list)) or len(r) != 2:
					return ck.bad('answer', con, 'no gradient')
				r, g = r
			main = next(v for v in lines.values() if isinstance(v, list))
			r = to_arr(r)
			ok = len(r.flat) == len(main) and all(equal(poly(x), Poly.var(t)) for x, t in zip(r.flat, main))
			if g is not None:
				G = next(v for v in lines.values() if isinstance(v, Arr))
				g = to_arr(g)
				ok = ok and g.shape == G.shape and all(equal(poly(x), poly(y)) for x, y in zip(g.flat, G.flat))
			ck.verdict('answer', con, ok, '%d values' % len(r.flat))

		modes = [('', {})] + ([(', gradient', {grad: True})] if grad else [])
		for extra, base in modes:
			c = '%s%s' % (short, extra)
			for sysname in ('Linux', 'Darwin'):
				for v in (False, True):
					b = Box(system=sysname)
					trial('%s: runs on %s%s' % (c, sysname, ', talking' if v else ''), b, dict(base, verbose=v), 'ok')
			wd = {'workdir': USER}
			b = Box()
			trial('%s: directory given' % c, b, dict(base, **wd), 'ok')
			b = Box()
			con = '%s: directory given and kept' % c
			trial(con, b, dict(base, keep_data=True, **wd), 'ok')
			ck.verdict('kept', con, USER in b.live and not b.gone and any(p.startswith(USER + '/') and w[0] == 'out' for p, w in b.files.items()), 'results are still there')
			b = Box(there=(USER,))
			trial('%s: directory exists' % c, b, dict(base, **wd), 'any')
			b = Box(there=(USER,))
			trial('%s: directory exists, kept' % c, b, dict(base, keep_data=True, **wd), 'any')
			for run_, code in (('absent', 0), ('silent', 0), ('silent', 125), ('broken', 1)) + ((('partial', 1),) if base else ()):
				for w in ({}, wd):
					b = Box(run=run_, code=code)
					trial('%s: %s%s%s' % (c, {'absent': 'program not installed', 'silent': 'program writes nothing', 'broken': 'program writes nonsense', 'partial': 'program stops before the gradient'}[run_], ', code %d' % code if code else '', ', directory given' if w else ''), b, dict(base, **w), 'fail')
			b = Box()
			con = '%s: keep without a directory' % c

			def lone():
				try:
					go(b, keep_data=True, **base)
				except Raised:
					ck.verdict('removed', con, not [d for d in b.made if d in b.live], 'refused, %s left' % ([d for d in b.made if d in b.live] or 'nothing'))
			tried(ck, 'removed', con, lone)
			# the disk fails at any step
			ref = Box()
			try:
				go(ref, **base)
				steps = ref.n
			except (Cannot, Raised):
				steps = 0
			for k in range(1, steps + 1):
				b = Box(fails=k)
				trial('%s: operation %d of %d fails' % (c, k, steps), b, dict(base), 'fail')
		# what the program is given
		con = '%s: command' % short

		def given():
			b = Box()
			go(b)
			args = b.calls[0]
			src, dst = b.mount(args)
			ck.verdict('mounted', con, len(b.calls) == 1 and src == TMP and bool(dst) and any(a == dst or a.startswith(dst + '/') for a in args), '%s becomes %s' % (src, dst))
			b2 = Box()
			go(b2, workdir=USER)
			ck.verdict('mounted', con + ', directory given', b2.mount(b2.calls[0])[0] == USER, 'mounts %s' % b2.mount(b2.calls[0])[0])
			b3 = Box()
			try:
				go(b3, workdir='run')
			except Raised:
				pass
			ck.verdict('mounted', con + ', relative directory given', b3.mount(b3.calls[0])[0] == '/cwd/run', 'mounts %s' % b3.mount(b3.calls[0])[0])
			seen = {}

			class Keep(Box):
				def start(self, args):
					seen.update(self.files)
					return Box.start(self, args)
			go(Keep())
			X = symbols('x', (3,))
			inp = [p for p, w in seen.items() if w[0] == 'array']
			ok = len(inp) == 1 and len(to_arr(seen[inp[0]][1]).flat) == 3 and all(equal(poly(a), poly(c)) for a, c in zip(to_arr(seen[inp[0]][1]).flat, X.flat))
			ck.verdict('mounted', con + ', input', ok and posixpath.dirname(inp[0]) == TMP, 'the point is in %s' % ', '.join(inp))
			if ok:
				stem = posixpath.splitext(posixpath.basename(inp[0]))[0]
				ck.verdict('mounted', con + ', names the input', any(posixpath.splitext(posixpath.basename(a))[0] == stem for a in args), 'the command names %s' % stem)
			configs = [w for w in seen.values() if w[0] == 'copy']
			for w in configs:
				ck.verdict('mounted', con + ', settings', w[1].startswith('/package/psdr/demos/'), 'copied from %s' % w[1])
			for o, v, want in options:
				b = Box()
				go(b, **{o: v})
				ck.verdict('option', '%s: %s' % (short, o), words(b.calls[0], want) and not words(args, want), 'adds %s' % ' '.join(want))
		tried(ck, 'mounted', con, given)
	# settings of the flow solver
	con = 'multif: su2_maxiter'

	def settings():
		f = P.func('psdr.demos.multif.multif')
		CELL[0] = {}
		seen = {}

		class Keep(Box):
			def start(self, args):
				seen.update(self.files)
				return Box.start(self, args)
		for n in (None, 321):
			Shell(P, Keep().hooks({'results.out': ['token0', 'token1']}), steps=60000).call(Fn(f, f.node, None, None), [symbols('x', (3,))], {'su2_maxiter': n})
			cfg = [w for p, w in seen.items() if p.endswith('.cfg')]
			txt = [''.join(w[1]) for w in cfg if w[0] == 'text']
			if n is None:
				ck.verdict('option', con + ' left out', len(cfg) == 1 and not txt, 'settings as shipped')
			else:
				ck.verdict('option', con, len(cfg) == 1 and len(txt) == 1 and 'SU2_MAX_ITERATIONS=321' in txt[0].replace(' ', '') and cfg[0][2] is not None and cfg[0][2][0] == 'copy', 'appended to the settings shipped')
	tried(ck, 'option', con, settings)
	# the models hand their options on
	for cls, fname, given in (('demos.multif.MULTIF', 'multif', {'level': 7, 'su2_maxiter': 321, 'workdir': USER, 'keep_data': True, 'verbose': True, 'version': 'v99', 'cores': 5}),
			('demos.naca0012.NACA0012', 'naca0012_func', {'n_lower': 3, 'n_upper': 4, 'maxiter': 77, 'verbose': True, 'nprocesses': 6, 'workdir': USER, 'keep_data': True, 'version': 'v99'})):
		C = P.cls('psdr.' + cls)
		if C is None:
			raise AnalysisBroken('%s is gone' % cls)

		def model():
			CELL[0] = {}
			caught = []
			H = {}

			def standin():
				o = Obj('domain', {'@len': 2})
				o.attrs.update({'__mul__': lambda x: standin(), 'normalized_domain': lambda: standin()})
				return o
			for q in ('demos._multif_domains3d.buildDesignDomain', 'demos._multif_domains3d.buildRandomDomain', 'demos.naca0012.build_hicks_henne_domain'):
				H[q] = lambda I, fn, a, k: standin()
			F_ = P.cls('psdr.function.Function')
			kind = F_.lookup('__init__') if F_ is not None else None
			if not kind or kind[0] != 'method':
				raise Cannot('Function')

			def made(I, fn, a, k):
				names = [x.arg for x in fn.node.args.args][1:]
				a = a[1:] if len(a) and isinstance(a[0], Obj) and a[0].cls is C else a
				got = dict(zip(names, a))
				got.update(k)
				caught.append(got)
			H[kind[1].short] = made
			I = Shell(P, H, steps=60000)
			I.new(C, [], dict(given))
			if len(caught) != 1:
				raise Cannot('function not built once')
			kw = caught[0].get('kwargs') or {}
			target = caught[0].get('funs')
			nm = target.f.name if isinstance(target, Fn) else None
			ck.verdict('option', '%s runs its wrapper' % cls.split('.')[-1], nm == fname if nm else None, 'evaluates %s' % nm)
			for o, v in given.items():
				w = kw.get(o)
				same_ = w == v if isinstance(v, (str, bool)) else w is not None and not isinstance(w, (str, bool)) and num(w) == v
				ck.verdict('option', '%s: %s' % (cls.split('.')[-1], o), bool(same_), 'handed on' if same_ else 'the wrapper is called with %s' % ('nothing' if w is None else w))
			ck.verdict('option', '%s: nothing else' % cls.split('.')[-1], set(kw) <= set(given) | {'su2_maxiter', 'level', 'workdir'}, 'hands on %s' % ', '.join(sorted(kw)))
		tried(ck, 'option', cls, model)
