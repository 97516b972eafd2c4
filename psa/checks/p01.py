"""P01: plots and data files hold the data they are named for."""
import ast, posixpath, string
from fractions import Fraction as Fr
from ..loader import AnalysisBroken
from ..arr import Interp, Fn, Obj, Ext, Arr, Cannot, Raised, CELL, symbols, to_arr, poly, dot, transpose, unwrap
from ..formula import Poly, ZERO, ONE, equal, expf, TooBig, Undefined
from ..conv import value
from .l02 import agree

RULES = [
	('file', 'the columns read back from a written data file have the names, the order and the values they were added with', 16),
	('refused', 'columns of different lengths do not go into one file', 3),
	('shadow', 'a shadow plot puts each value at the projection of its own sample onto the leading directions', 20),
	('response', 'the response surface is the function at the point of the subspace with the coordinates it is drawn at, over the range of the samples', 8),
	('band', 'an uncertainty band is drawn with its own bounds at its own coordinates', 8),
	('score', 'the bar of each parameter is its score, under its own name', 3),
	('density', 'the density of an output is estimated from the predictions at the normalised samples, over their range', 6),
	('contour', 'every segment of a contour is written under its own level with all of its vertices, closed ones closed', 6),
]
FAIL = (Cannot, Undefined, TooBig, RecursionError)


def digits(spec):
	"""significant digits of a format, None when all"""
	s = spec.strip().lstrip('<>^=+-# 0123456789,') if not spec.strip().startswith('.') else spec.strip()
	if '.' in spec:
		s = spec[spec.index('.'):]
	if s in ('', 's', 'r'):
		return None
	if s.startswith('.'):
		n = ''.join(c for c in s[1:] if c.isdigit())
		t = s[1 + len(n):]
		n = int(n or 0)
		return n + 1 if t in ('e', 'E') else n if t in ('g', 'G', '') else 0
	return 6 if s in ('g', 'G', 'e', 'E') else 0


class Page(Interp):
	"""the interpreter with exact strings, where a number printed is a token for its formula, and files that keep what is written"""

	def __init__(self, P, hooks=None, steps=500000):
		h = {'builtins.print': lambda I, a, k: None}
		Interp.__init__(self, P, h, steps)
		self.files, self.numbers = {}, []
		h['builtins.open'] = h['io.open'] = self.opened
		for n in ('splitext', 'basename', 'dirname', 'join', 'split'):
			h['os.path.' + n] = lambda I, a, k, n=n: getattr(posixpath, n)(*a)
		h.update(hooks or {})

	def token(self, p, spec):
		n = digits(spec)
		self.numbers.append(p if n is None or n >= 16 else None)
		return '\u27e6%d\u27e7' % (len(self.numbers) - 1)

	def number(self, t):
		t = t.strip(' \t\r\n')
		if t[:1] == '\u27e6' and t[-1:] == '\u27e7' and t[1:-1].isdigit():
			p = self.numbers[int(t[1:-1])]
			return Poly.var('rounded%s' % t[1:-1]) if p is None else p
		try:
			return Poly.const(Fr(t))
		except (ValueError, ZeroDivisionError):
			raise Raised('ValueError')

	def text(self, v, spec=''):
		if isinstance(v, Arr) and len(v.flat) == 1 and not v.shape:
			v = v.flat[0]
		if isinstance(v, bool) or v is None:
			return str(v)
		if isinstance(v, str):
			return format(v, spec)
		if isinstance(v, int) and not isinstance(v, bool):
			return format(v, spec) if not spec or spec[-1] == 'd' else self.token(Poly.const(v), spec)
		if isinstance(v, (Poly, Fr, float)):
			if spec and spec[-1] == 'd':
				from ..arr import integer
				return format(integer(v), spec)
			return self.token(poly(v), spec)
		raise Cannot('text of %r' % type(v).__name__)

	def percent(self, t, args):
		args = list(args) if isinstance(args, tuple) else [args]
		out, i = '', 0
		while i < len(t):
			if t[i] != '%':
				out, i = out + t[i], i + 1
				continue
			j = i + 1
			while j < len(t) and t[j] not in 'diouxXeEfFgGcrs%':
				j += 1
			if j == len(t):
				raise Raised('ValueError')
			if t[j] == '%':
				out += '%'
			else:
				if not args:
					raise Raised('TypeError')
				spec = t[i + 1:j + 1]
				if spec.endswith(('s', 'r')):
					spec = ''
				if spec.endswith('i'):
					spec = spec[:-1] + 'd'
				out += self.text(args.pop(0), spec)
			i = j + 1
		if args:
			raise Raised('TypeError')
		return out

	def fmt(self, t, args, kw):
		out, k = '', 0
		for lit, name, spec, conv in string.Formatter().parse(t):
			out += lit
			if name is None:
				continue
			if name == '':
				name, k = str(k), k + 1
			if '{' in spec or not name.isalnum():
				raise Cannot('format')
			try:
				v = args[int(name)] if name.isdigit() else kw[name]
			except (IndexError, KeyError):
				raise Raised('IndexError')
			out += self.text(v, spec)
		return out

	def binop(self, op, a, b):
		if isinstance(a, str) and op == 'Mod':
			return self.percent(a, b)
		if isinstance(a, str) and isinstance(b, str) and op == 'Add':
			return a + b
		if isinstance(a, str) and isinstance(b, int) and op == 'Mult':
			return a * b
		return Interp.binop(self, op, a, b)

	def e_JoinedStr(self, e, env):
		out = ''
		for v in e.values:
			if isinstance(v, ast.Constant):
				out += v.value
			else:
				spec = self.e_JoinedStr(v.format_spec, env) if v.format_spec is not None else ''
				out += self.text(self.ev(v.value, env), spec)
		return out

	def method(self, v, name, args, kw):
		if isinstance(v, str):
			if name == 'format':
				return self.fmt(v, args, kw)
			if name == 'join':
				parts = self.iterate(args[0])
				if not all(isinstance(x, str) for x in parts):
					raise Raised('TypeError')
				return v.join(parts)
			if name in ('split', 'rsplit', 'strip', 'rstrip', 'lstrip', 'startswith', 'endswith', 'lower', 'upper', 'replace', 'rfind', 'find', 'index', 'rindex', 'splitlines', 'rpartition', 'partition', 'count', 'isspace', 'expandtabs', 'ljust', 'rjust'):
				try:
					r = getattr(v, name)(*args, **kw)
				except ValueError:
					raise Raised('ValueError')
				return r
		return Interp.method(self, v, name, args, kw)

	def builtin(self, n, args, kw):
		if n in ('str', 'repr', 'format') and args:
			return self.text(args[0], args[1] if n == 'format' and len(args) > 1 else '')
		if n == 'float' and args and isinstance(args[0], str):
			return self.number(args[0])
		if n == 'float' and args and isinstance(args[0], Arr) and len(args[0].flat) == 1:
			return args[0].flat[0]
		if n == 'len' and isinstance(args[0], Obj) and '__len__' in args[0].attrs:
			return args[0].attrs['__len__']()
		return Interp.builtin(self, n, args, kw)

	def iterate(self, v):
		if isinstance(v, Obj) and '__iter__' in v.attrs:
			return list(v.attrs['__iter__']())
		return Interp.iterate(self, v)

	def cmp(self, op, l, r):
		if isinstance(op, (ast.Eq, ast.NotEq)):
			if isinstance(l, Ext) and isinstance(r, Ext):
				return (l.path == r.path) == isinstance(op, ast.Eq)
			if any(isinstance(x, Obj) and isinstance(x.cls, str) and isinstance(y, (str, type(None))) for x, y in ((l, r), (r, l))):
				return isinstance(op, ast.NotEq)
		return Interp.cmp(self, op, l, r)

	def np(self, n, args, kw):
		if n == 'savetxt':
			raise Cannot('savetxt')
		if n == 'fromstring':
			raise Cannot('fromstring')
		return Interp.np(self, n, args, kw)

	def opened(self, I, a, k):
		mode = a[1] if len(a) > 1 else k.get('mode', 'r')
		p = a[0]
		if not isinstance(p, str):
			raise Cannot('path')
		if 'r' in mode and '+' not in mode:
			if p not in self.files:
				raise Raised('FileNotFoundError')
			rest = ''.join(self.files[p]).splitlines(True)

			def lines():
				out = list(rest)
				del rest[:]
				return out
			o = {'read': lambda *x: ''.join(lines()), 'readlines': lines, 'readline': lambda: rest.pop(0) if rest else '', '__iter__': lines, '__next__': lambda: rest.pop(0)}
		elif mode in ('w', 'a', 'wt', 'at'):
			if mode[0] == 'w' or p not in self.files:
				self.files[p] = []
			more = self.files[p]

			def write(t):
				if not isinstance(t, str):
					raise Raised('TypeError')
				more.append(t)

			def writelines(t):
				for x in self.iterate(t):
					write(x)
			o = {'write': write, 'writelines': writelines, 'flush': lambda: None}
		else:
			raise Cannot('mode')
		f = Obj('file', {**o, 'close': lambda: None})
		f.attrs['__enter__'] = lambda: f
		f.attrs['__exit__'] = lambda *x: None
		return f


def guard(ck, rule, con, go):
	try:
		go()
	except FAIL as e:
		ck.unknown(rule, con, 'not analysed: %s' % e)
	except Raised as e:
		(ck.bad if e.name == 'AttributeError' else ck.unknown)(rule, con, 'raises %s' % e.name)
	finally:
		CELL[0] = None


def put(at, a, vals):
	for p, v in zip(to_arr(a).flat, vals):
		at[[x[1] for x in p.atoms()][0]] = v
	return a


def flat(v):
	if isinstance(v, (list, tuple)):
		return [poly(unwrap(to_arr(x))) for x in v]
	return [poly(x) for x in to_arr(v).flat]


def series(ck, rule, con, got, want, at):
	"""a drawn or written series against the one due"""
	if got is None:
		return ck.bad(rule, con, 'is missing')
	try:
		got = flat(got)
	except (TypeError, ValueError, AttributeError):
		return ck.unknown(rule, con, 'not an array of numbers')
	if len(got) != len(want):
		return ck.bad(rule, con, '%d entries where %d are due' % (len(got), len(want)))
	for i, (g, w) in enumerate(zip(got, want)):
		if not equal(g, w):
			return agree(ck, rule, '%s: entry %d' % (con, i), g, w, at)
	ck.ok(rule, con, '%d entries' % len(want))


def files(ck, P, cls):
	for con, names, n in (('one column', ['x'], 3), ('two columns', ['x', 'fx'], 2), ('three columns', ['y', 'lower bound', 'ub'], 3), ('one row', ['b', 'a'], 1)):
		for kind in ('vectors', 'lists', 'numbers'):
			def go(con='%s of %s' % (con, kind), names=names, n=n, kind=kind):
				at = {}
				cols = []
				for j, nm in enumerate(names):
					if kind == 'numbers':
						v = Arr((n,), [Poly.const(Fr(3 * i + j + 1, 7) * (-1) ** j) for i in range(n)])
					else:
						v = put(at, symbols('c%d_' % j, (n,)), [.3 * i - j for i in range(n)])
					cols.append(list(v.flat) if kind == 'lists' else v)
				want = [flat(c) for c in cols]
				I = Page(P)
				CELL[0] = at
				a = I.new(cls, [], {})
				for nm, c in zip(names, cols):
					I.call(I.attr(a, 'add'), [nm, c], {})
				if kind == 'vectors':
					# what was added does not change with the array it came from
					cols[0].flat[0] = Poly.var('later')
					at['later'] = 77.
				series(ck, 'file', con + ': kept', I.call(I.attr(a, '__getitem__'), [names[0]], {}), want[0], at)
				I.call(I.attr(a, 'write'), ['out.dat'], {})
				b = I.new(cls, [], {})
				I.call(I.attr(b, 'read'), ['out.dat'], {})
				keys = I.call(I.attr(b, 'keys'), [], {})
				if not isinstance(keys, list) or not all(isinstance(k, str) for k in keys):
					return ck.unknown('file', con, 'names not understood')
				if [k.strip() for k in keys] != names:
					return ck.bad('file', con, 'names read back are %r' % (keys,))
				for j, nm in enumerate(names):
					series(ck, 'file', '%s: %r' % (con, nm), I.call(I.attr(b, '__getitem__'), [nm], {}), want[j], at)
			guard(ck, 'file', '%s of %s' % (con, kind), go)
	for con, ns in (('second shorter', (3, 2)), ('second longer', (2, 3)), ('third shorter', (3, 3, 2))):
		at = {}
		CELL[0] = at
		try:
			I = Page(P)
			a = I.new(cls, [], {})
			for j, n in enumerate(ns):
				I.call(I.attr(a, 'add'), ['c%d' % j, put(at, symbols('c%d_' % j, (n,)), [1.] * n)], {})
			I.call(I.attr(a, 'write'), ['out.dat'], {})
			ck.bad('refused', con, 'a file is written')
		except Raised as e:
			ck.ok('refused', con, 'refused (%s)' % e.name)
		except FAIL as e:
			ck.unknown('refused', con, 'not analysed: %s' % e)
		finally:
			CELL[0] = None


class Ax(Obj):
	"""an axis that keeps what is drawn on it"""

	def __init__(self):
		Obj.__init__(self, 'axis', {})
		self.drawn = []
		for n in ('plot', 'scatter', 'fill_between', 'contour', 'contourf', 'bar', 'step'):
			self.attrs[n] = lambda *a, n=n, **k: self.draw(n, a, k)
		for n in ('set_xlabel', 'set_ylabel', 'set_title', 'legend', 'set_xlim', 'set_ylim', 'grid', 'axis'):
			self.attrs[n] = lambda *a, **k: None
		self.attrs['set_xticks'] = lambda a, **k: self.draw('ticks', (a,), k)
		self.attrs['set_xticklabels'] = lambda a, **k: self.draw('labels', (a,), k)

	def draw(self, n, a, k):
		self.drawn.append((n, a, k))
		return Obj('artist', {})

	def get(self, *names):
		return [(n, a, k) for n, a, k in self.drawn if n in names]


class Sheet(Page):
	"""... and plots and data files that record the columns"""

	def __init__(self, P, at, hooks=None):
		self.written, self.ax = {}, Ax()
		h = {}
		bar = Obj('colorbar', {'set_label': lambda *a, **k: None})
		h['matplotlib.pyplot.subplots'] = lambda I, a, k: (Obj('figure', {'colorbar': lambda *a, **k: bar}), self.ax)
		h['matplotlib.pyplot.colorbar'] = lambda I, a, k: bar
		h['tqdm.tqdm'] = lambda I, a, k: a[0]

		def pgf(I, cls, args, kw):
			cols = {}

			def add(name, col):
				cols[name] = col.flat[:] if isinstance(col, Arr) else list(col) if isinstance(col, (list, tuple)) else col

			def write(name):
				self.written[name] = cols
			return Obj('pgf', {'add': add, 'write': write})
		h[P.cls('psdr.pgf.PGF').qualname] = pgf
		h.update(hooks or {})
		Page.__init__(self, P, h)
		CELL[0] = at


XV = [[0.31, -1.27, .4], [1.43, 0.59, -.2], [-2.87, 0.41, .9], [.2, .1, .3]]


def samples(at, M=4, m=3, name='x'):
	return put(at, symbols(name, (M, m)), [v for r in XV[:M] for v in r[:m]])


def directions(at, m, n, name='u'):
	return put(at, symbols(name, (m, n)), [[[.6, .3], [-.7, .5], [.2, -.8]][i][j] + (.17 * (i + 1) if name == 'v' else 0) for i in range(m) for j in range(n)])


def project(X, U, k):
	m, n = U.shape
	return [sum((poly(X.flat[i * m + j]) * poly(U.flat[j * n + k]) for j in range(m)), ZERO) for i in range(X.shape[0])]


def pairs(ck, rule, con, cols, wants, at):
	"""series that belong together, in any common order"""
	for nm, want in wants.items():
		series(ck, rule, '%s: %s' % (con, nm), cols.get(nm), want, at)


def base(P, cls, U):
	me = Obj(cls, {'_U': U, '_dimension': U.shape[0]})
	return me


def shadow(ck, P):
	cls = P.cls('psdr.ActiveSubspace')
	for dim in (1, 2):
		for given in ('own', 'given', 'vector'):
			if dim == 2 and given == 'vector':
				continue
			for column in (False, True):
				for ax in ('auto', 'none', 'given'):
					con = '%d-d, %s directions%s, axis %s' % (dim, given, ', values in a column' if column else '', ax)

					def go(dim=dim, given=given, column=column, con=con, ax=ax):
						at = {}
						X, U, V = samples(at), directions(at, 3, 2), directions(at, 3, 2, 'v')
						f = put(at, symbols('f', (4, 1) if column else (4,)), [1., 4., 2., 3.])
						if given == 'vector':
							V = Arr((3,), [V.flat[2 * i] for i in range(3)])
						I = Sheet(P, at)
						me = base(P, cls, U)
						kw = {'X': X, 'fX': f, 'dim': dim, 'pgfname': 'out.dat'}
						mine = Ax()
						kw['ax'] = {'auto': 'auto', 'none': None, 'given': mine}[ax]
						if given != 'own':
							kw['U'] = V
						I.call(I.attr(me, 'shadow_plot'), [], kw)
						W = U if given == 'own' else V if len(V.shape) == 2 else Arr((3, 1), V.flat)
						ys = [project(X, W, k) for k in range(dim)]
						fs = flat(f)
						cols = I.written.get('out.dat')
						if cols is None:
							return ck.bad('shadow', con, 'no data file written')
						if len(cols) != dim + 1 or 'fX' not in cols:
							return ck.unknown('shadow', con, 'columns %s' % ', '.join(cols))
						names = [k for k in cols if k != 'fX']
						pairs(ck, 'shadow', con + ': file', cols, dict(zip(names + ['fX'], ys + [fs])), at)
						page = mine if ax == 'given' else I.ax
						drawn = page.get('plot', 'scatter')
						if ax == 'none':
							return ck.verdict('shadow', con + ': drawn', not drawn, 'nothing drawn')
						if len(drawn) != 1:
							return ck.verdict('shadow', con + ': drawn', False if not drawn else None, '%d series drawn' % len(drawn))
						n, a, k = drawn[0]
						got = list(a[:dim])
						val = a[1] if dim == 1 else k.get('c', a[3] if len(a) > 3 else None)
						for j, (g, w) in enumerate(zip(got, ys)):
							series(ck, 'shadow', '%s: coordinate %d drawn' % (con, j), g, w, at)
						series(ck, 'shadow', con + ': values drawn', val, fs, at)
					guard(ck, 'shadow', con, go)


def response(ck, P):
	cls = P.cls('psdr.PolynomialRidgeApproximation') or P.cls('psdr.ridge.RidgeFunction')
	for dim in (1, 2):
		for case in ('', ', without axis', ', largest first', ', own samples') + ((', plain name', ', dotted folder') if dim == 1 else ()):
			con = '%d-d ridge function%s' % (dim, case)

			def go(dim=dim, con=con, case=case):
				at = {}
				vals = [[.6, .3], [-.8, .4], [.0, -.5]]
				X = samples(at)
				if case == ', largest first':
					rows = [X.flat[3 * i:3 * i + 3] for i in (1, 0, 2, 3)]
					X = Arr((4, 3), [p for r in rows for p in r])
				# orthonormal directions with exact entries
				Q = [[Fr(2, 3), Fr(1, 3)], [Fr(-2, 3), Fr(2, 3)], [Fr(1, 3), Fr(2, 3)]]
				U = Arr((3, dim), [Poly.const(Q[i][j]) for i in range(3) for j in range(dim)])
				f = put(at, symbols('f', (4,)), [1., 4., 2., 3.])
				asked = []

				def evaluated(I, fn, a, k):
					Z = to_arr(a[1] if len(a) > 1 and isinstance(a[0], Obj) else a[0])
					if len(Z.shape) == 1:
						Z = Arr((1, Z.shape[0]), Z.flat)
					out = []
					for i in range(Z.shape[0]):
						nm = 'r%d' % len(asked)
						asked.append((nm, Z.flat[3 * i:3 * i + 3]))
						at[nm] = CELL[0][nm] = .25 * (len(asked) % 7)
						out.append(Poly.var(nm))
					return Arr((Z.shape[0],), out)
				I = Sheet(P, at)
				small = 5
				def line(I_, a, k):
					n = a[2] if len(a) > 2 else k.get('num', 50)
					a, b = poly(unwrap(to_arr(a[0]))), poly(unwrap(to_arr(a[1])))
					return Arr((small,), [a + (b - a) * Poly.const(Fr(i, small - 1)) for i in range(small)])
				I.hooks['numpy.linspace'] = line
				me = Obj(cls, {'_U': U, '_dimension': 3})
				me.attrs['eval'] = lambda Z, **k: evaluated(I, None, [Z], k)
				me.attrs['__call__'] = me.attrs['eval']
				kw = {'X': X, 'fX': f}
				if case == ', own samples':
					del kw['X']
					me.attrs['X'] = me.attrs['_X'] = X
				name, name2 = {', plain name': ('plot', 'plot_response'), ', dotted folder': ('run.1/plot', 'run.1/plot_response')}.get(case, ('plot.out.dat', 'plot.out_response.dat'))
				if dim == 1:
					kw['pgfname'] = name
				if case == ', without axis':
					kw['ax'] = None
				I.call(I.attr(me, 'shadow_plot'), [], kw)
				ys = [project(X, U, k) for k in range(dim)]
				fs = flat(f)
				lo = [min(y, key=lambda p: value(p, at)) for y in ys]
				hi = [max(y, key=lambda p: value(p, at)) for y in ys]
				grid = [[l + (h - l) * Poly.const(Fr(i, small - 1)) for i in range(small)] for l, h in zip(lo, hi)]

				def judge(what, xs, v):
					"""the value v is the function at a point whose coordinates are xs"""
					hit = [z for nm, z in asked if equal(poly(v), Poly.var(nm))]
					if not hit:
						return ck.unknown('response', '%s: %s' % (con, what), 'value not understood')
					for k in range(dim):
						p = sum((poly(hit[0][j]) * poly(U.flat[dim * j + k]) for j in range(3)), ZERO)
						if not equal(p, xs[k]):
							return agree(ck, 'response', '%s: %s: coordinate %d' % (con, what, k), p, xs[k], at)
					ck.ok('response', '%s: %s' % (con, what), 'the function there')
				if dim == 1:
					cols = {k: v for n, c in I.written.items() if n != name for k, v in c.items()}
					first = I.written.get(name)
					if first is None:
						ck.bad('response', con + ': samples', 'no data file under the given name')
					else:
						pairs(ck, 'shadow', con + ': file', first, {'y': ys[0], 'fX': fs}, at)
					ck.verdict('response', con + ': file', set(I.written) == {name, name2}, 'files %s' % ', '.join(sorted(I.written)))
					series(ck, 'response', con + ': coordinates written', cols.get('x'), grid[0], at)
					v = cols.get('fx')
					for i, w in enumerate(flat(v) if v is not None else []):
						judge('value %d written' % i, [grid[0][i]], w)
					lines = [a for n, a, k in I.ax.get('plot')]
					if case == ', without axis':
						return ck.verdict('response', con + ': drawn', not lines, 'nothing drawn')
					if len(lines) != 2:
						return ck.verdict('response', con + ': drawn', False if len(lines) < 2 else None, '%d series' % len(lines))
					series(ck, 'response', con + ': coordinates drawn', lines[1][0], grid[0], at)
					for i, w in enumerate(flat(lines[1][1])):
						judge('value %d drawn' % i, [grid[0][i]], w)
				else:
					cs = I.ax.get('contour', 'contourf')
					if case == ', without axis':
						return ck.verdict('response', con + ': drawn', not cs, 'nothing drawn')
					if len(cs) != 1 or len(cs[0][1]) < 3:
						return ck.verdict('response', con + ': drawn', False if not cs else None, '%d surfaces' % len(cs))
					a, b, Z = [to_arr(x) for x in cs[0][1][:3]]
					if Z.shape != (small, small):
						return ck.unknown('response', con, 'surface of shape %r' % (Z.shape,))
					for i in range(small):
						for j in range(small):
							if len(a.shape) == 1:
								xs = [poly(a.flat[j]), poly(b.flat[i])]
							else:
								xs = [poly(a.flat[small * i + j]), poly(b.flat[small * i + j])]
							judge('surface %d, %d' % (i, j), xs, Z.flat[small * i + j])
					ends = sorted(value(poly(p), at) for p in a.flat), sorted(value(poly(p), at) for p in b.flat)
					for k in range(2):
						good = abs(ends[k][0] - value(lo[k], at)) < 1e-9 and abs(ends[k][-1] - value(hi[k], at)) < 1e-9
						ck.verdict('response', '%s: range %d' % (con, k), good, 'from the smallest to the largest projection')
			guard(ck, 'response', con, go)


def band(ck, P):
	cls = P.cls('psdr.LipschitzApproximation') or P.cls('psdr.lipschitz_approx.LipschitzApproximation')
	for given in (False, True):
		con = 'Lipschitz approximation, %s direction' % ('given' if given else 'own')

		def go(con=con, given=given):
			at = {}
			X, f, y = samples(at, 3, 2), put(at, symbols('f', (3,)), [1., 4., 2.]), put(at, symbols('y', (3,)), [1.1, 3.9, 2.1])
			Z = put(at, symbols('z', (3, 2)), [.1, .5, -.4, .2, .9, -.6])
			U, V = directions(at, 2, 2), directions(at, 2, 1, 'v')
			L = put(at, symbols('l', (2, 2)), [1., .2, .3, .8])
			lb, ub = put(at, symbols('lb', (3,)), [.2, .4, .6]), put(at, symbols('ub', (3,)), [1.2, 1.3, 1.9])
			I = Sheet(P, at)
			seen, along = [], []

			def bounds(*a, **k):
				seen.append([to_arr(x) for x in a])
				return lb, ub
			dom = Obj('domain', {})
			f1 = P.func('psdr.sample.maximin.maximin_design_1d')
			if f1 is not None:
				spread = lambda I_, fn, a, k: along.append(k.get('L', a[2] if len(a) > 2 else None)) or Z
				I.hooks[f1.short] = spread
			me = Obj(cls, {'_U': U, '_dimension': 2, '_X': X, '_fX': f, '_y': y, '_L': L, 'domain': dom, 'uncertainty': bounds, 'epsilon': ZERO})
			kw = {'pgfname': 'out', 'nsamp': 3}
			if given:
				kw['U'] = V
			I.call(I.attr(me, 'shadow_plot'), [], kw)
			W = V if given else U
			u = Arr((2, 1), [W.flat[W.shape[1] * j] for j in range(2)])
			zs, xs = project(Z, u, 0), project(X, u, 0)
			mid = [(poly(a) + poly(b)) * Poly.const(Fr(1, 2)) for a, b in zip(lb.flat, ub.flat)]
			if along:
				a = flat(along[0]) if along[0] is not None else []
				d = None
				if len(a) == 2:
					d = abs(value(a[0] * poly(u.flat[1]) - a[1] * poly(u.flat[0]), at)) < 1e-9
				ck.verdict('band', con + ': points', False if len(a) != 2 else d, 'spread along the direction drawn')
			if not seen:
				return ck.unknown('band', con, 'no bounds asked for')
			for nm, g, w in zip(('samples', 'values', 'points'), seen[0], (X, y, Z)):
				series(ck, 'band', '%s: bounds from the %s' % (con, nm), g, flat(w), at)
			c = I.written.get('out_curves.dat')
			p = I.written.get('out_points.dat')
			for nm, w in (('x', zs), ('lb', flat(lb)), ('c', mid), ('ub', flat(ub))):
				series(ck, 'band', '%s: curve %s' % (con, nm), (c or {}).get(nm), w, at)
			for nm, w in (('x', xs), ('y', flat(f))):
				series(ck, 'band', '%s: points %s' % (con, nm), (p or {}).get(nm), w, at)
			fills = I.ax.get('fill_between')
			if len(fills) == 1:
				for nm, g, w in zip(('x', 'lower', 'upper'), fills[0][1], (zs, flat(lb), flat(ub))):
					series(ck, 'band', '%s: band %s' % (con, nm), g, w, at)
			lines = [a for n, a, k in I.ax.get('plot')]
			if len(lines) == 2:
				for (xx, yy), g in zip(((xs, flat(f)), (zs, mid)), lines):
					series(ck, 'band', '%s: line of %d' % (con, len(xx)), g[0], xx, at)
					series(ck, 'band', '%s: line of %d values' % (con, len(xx)), g[1], yy, at)
		guard(ck, 'band', con, go)

	def unc(con='shadow uncertainty'):
		at = {}
		X, f = samples(at, 3, 2), put(at, symbols('f', (3,)), [1., 4., 2.])
		u = put(at, symbols('u', (2, 1)), [.6, .8])
		hi, lo = put(at, symbols('hi', (2,)), [.9, 1.2]), put(at, symbols('lo', (2,)), [-1.1, -.4])
		I = Sheet(P, at)
		dom = Obj('domain', {'corner': lambda p, **k: hi if value(poly(to_arr(p).flat[0]), CELL[0]) > 0 else lo, 'add_constraints': lambda **k: Obj('slice', {})})
		n = [0]

		def pair(*a, **k):
			n[0] += 1
			for nm, v in (('a%d', .1), ('b%d', .7)):
				CELL[0][nm % n[0]] = at[nm % n[0]] = v * n[0]
			return (Arr((1,), [Poly.var('a%d' % n[0])]), Arr((1,), [Poly.var('b%d' % n[0])]))

		def pair2(*a, **k):
			r = pair()
			return tuple(x.flat[0] for x in r)
		me = Obj(P.cls('psdr.LipschitzMatrix'), {'_L': put(at, symbols('l', (2, 2)), [1., .2, .3, .8]), 'uncertainty': pair, 'uncertainty_domain': pair2, 'epsilon': ZERO})
		ax = Ax()
		I.call(I.attr(me, 'shadow_uncertainty'), [dom, X, f], {'ngrid': 4, 'U': u, 'ax': ax, 'pgfname': 'out.dat'})
		c = I.written.get('out.dat') or {}
		d = ax.get('fill_between')
		if len(d) != 1:
			return ck.verdict('band', con, False if not d else None, '%d bands drawn' % len(d))
		for nm, g in zip(('y', 'lb', 'ub'), d[0][1]):
			if nm in c:
				series(ck, 'band', '%s: drawn %s' % (con, nm), g, flat(c[nm]), at)
	guard(ck, 'band', 'shadow uncertainty', unc)


def score(ck, P):
	cls = P.cls('psdr.DiagonalLipschitzMatrix')
	for named in (False, True):
		con = 'score%s' % (', with names' if named else '')

		def go(con=con, named=named):
			at = {}
			s = put(at, symbols('s', (3,)), [.2, .9, .4])
			I = Sheet(P, at)
			names = ['span', 'chord', 'sweep']
			me = Obj(cls, {'_score': s})
			L = Arr((3, 3), [s.flat[i] if i == j else ZERO for i in range(3) for j in range(3)])
			me.attrs['_L'] = L
			ax = Ax()
			kw = {'ax': ax}
			if named:
				kw['domain'] = Obj('domain', {'names': names})
			I.call(I.attr(me, 'plot_score'), [], kw)
			b = ax.get('bar')
			if len(b) != 1:
				return ck.verdict('score', con, False if not b else None, '%d bar charts' % len(b))
			pos, h = flat(b[0][1][0]), flat(b[0][1][1])
			series(ck, 'score', con + ': heights', h, flat(I.attr(me, 'score')), at)
			if named:
				t, l = ax.get('ticks'), ax.get('labels')
				if not t or not l:
					return ck.verdict('score', con + ': names', False if not l else None, 'no names shown')
				series(ck, 'score', con + ': ticks', t[-1][1][0], pos, at)
				ck.verdict('score', con + ': names', list(I.iterate(l[-1][1][0])) == names, 'in the order of the parameters')
		guard(ck, 'score', con, go)


def estimator(I, at, fits, points):
	"""percentiles, an even grid of five points and a density estimate with symbols for its values"""
	def percentile(I_, a, k):
		q = [value(poly(x), at) for x in to_arr(a[1]).flat]
		s = sorted(flat(a[0]), key=lambda p: value(p, at))
		n = len(s)
		r = []
		for x in q:
			t = Fr(x).limit_denominator(1000) / 100 * (n - 1)
			i = int(t)
			r.append(s[i] if t == i else s[i] * Poly.const(1 - t + i) + s[i + 1] * Poly.const(t - i))
		return unwrap(Arr((len(r),), r)) if to_arr(a[1]).shape else r[0]

	def line(I_, a, k):
		a, b = poly(unwrap(to_arr(a[0]))), poly(unwrap(to_arr(a[1])))
		return Arr((5,), [a + (b - a) * Poly.const(Fr(i, 4)) for i in range(5)])

	def kernel(I_, a, k):
		def score_samples(Z):
			points.append(flat(Z))
			for i in range(5):
				CELL[0]['ld%d' % i] = at['ld%d' % i] = -.3 * i
			return Arr((len(points[0]),), [Poly.var('ld%d' % i) for i in range(len(points[0]))])
		return Obj('kde', {'fit': lambda Z, **k: fits.append(to_arr(Z)), 'score_samples': score_samples})
	I.hooks['numpy.percentile'] = percentile
	I.hooks['numpy.linspace'] = line
	I.hooks['sklearn.neighbors.KernelDensity'] = kernel


def chance(ck, P):
	cls = P.cls('psdr.duu.RidgeChanceConstraint')
	if cls is None:
		raise AnalysisBroken('RidgeChanceConstraint is gone')
	for mode in ('upper', 'lower'):
		con = 'chance constraint, %s' % mode

		def go(mode=mode, con=con):
			at = {}
			raw, nrm = put(at, symbols('raw', (5, 2)), [.1 * i for i in range(10)]), put(at, symbols('nrm', (5, 2)), [1.1, -.4, .3, .9, -.7, .2, .5, -.8, .05, .6])
			U = put(at, symbols('u', (3, 1)), [.4, -.7, .6])
			fits, points = [], []
			I = Sheet(P, at)
			estimator(I, at, fits, points)
			design = Obj('design domain', {'normalized_domain': lambda: Obj('normalized design', {}), '__len__': lambda: 1})
			rand = Obj('random domain', {'normalized_domain': lambda: Obj('normalized random', {}), '__len__': lambda: 2, 'sample': lambda *a, **k: raw,
				'normalize': lambda Z: nrm if all(equal(poly(x), poly(y)) for x, y in zip(to_arr(Z).flat, raw.flat)) else Z})
			me = I.new(cls, [design, rand, Obj('ridge', {'U': U}), ONE], {'mode': mode, 'prob': Poly.const(Fr(1, 4))})
			# the random inputs are the last of the combined input
			ys = [poly(nrm.flat[2 * i]) * poly(U.flat[1]) + poly(nrm.flat[2 * i + 1]) * poly(U.flat[2]) for i in range(5)]
			I.call(I.attr(me, 'plot_pgf_random_ridge_pdf'), ['out.dat'], {})
			if len(fits) == 1:
				series(ck, 'density', con + ': fitted', fits[0], ys, at)
			else:
				ck.unknown('density', con, '%d fits' % len(fits))
			c = I.written.get('out.dat') or {}
			s = sorted(ys, key=lambda p: value(p, at))
			series(ck, 'density', con + ': x', c.get('x'), [s[0] + (s[-1] - s[0]) * Poly.const(Fr(i, 4)) for i in range(5)], at)
			if len(points) == 1:
				series(ck, 'density', con + ': at', points[0], flat(c.get('x', [])), at)
				series(ck, 'density', con + ': y', c.get('y'), [expf(Poly.var('ld%d' % i)) for i in range(5)], at)
			v = I.call(I.attr(me, 'empirical_safety_factor_1d'), [], {})
			series(ck, 'density', con + ': safety factor', [v], [s[3] if mode == 'upper' else s[1]], at)
		guard(ck, 'density', con, go)


def density(ck, P):
	cases = [('forward propagation', 'psdr.duu.forward_propagation_pdf', 'psdr.duu.plot_pgf_forward_propagation_pdf')]
	for con, fname, pname in cases:
		if P.func(fname) is None:
			raise AnalysisBroken(fname + ' is gone')

		def go(con=con, pname=pname, cls=None):
			at = {}
			raw, nrm = put(at, symbols('raw', (5, 2)), [.1 * i for i in range(10)]), put(at, symbols('nrm', (5, 2)), [.2 * i - 1 for i in range(10)])
			out = put(at, symbols('out', (5,)), [2., 5., 1., 3., 4.])
			fits, points = [], []
			I = Sheet(P, at)
			mark = []

			def same(a, b):
				a = to_arr(a)
				return len(a.flat) == len(b.flat) and all(equal(poly(x), poly(y)) for x, y in zip(a.flat, b.flat))

			def normalize(Z):
				mark.append(same(Z, raw))
				return nrm
			dom = Obj('random domain', {'sample': lambda *a, **k: raw, 'normalize': normalize, '__len__': lambda: 2})

			def predict(Z, **k):
				mark.append(same(Z, nrm))
				return out

			estimator(I, at, fits, points)
			f = P.func(pname)
			I.call(Fn(f, f.node), ['out.dat', dom, Obj('surrogate', {'predict': predict, '__call__': predict, 'eval': predict})], {})
			if len(mark) == 2:
				ck.verdict('density', con + ': normalised', mark[0], 'the samples drawn are normalised')
				ck.verdict('density', con + ': predicted', mark[1], 'the normalised samples are predicted')
			else:
				ck.unknown('density', con, '%d calls' % len(mark))
			if len(fits) != 1:
				return ck.verdict('density', con, False if not fits else None, '%d fits' % len(fits))
			series(ck, 'density', con + ': fitted', fits[0], flat(out), at)
			s = sorted(flat(out), key=lambda p: value(p, at))
			c = I.written.get('out.dat') or {}
			series(ck, 'density', con + ': x', c.get('x'), [s[0] + (s[-1] - s[0]) * Poly.const(Fr(i, 4)) for i in range(5)], at)
			if len(points) != 1:
				return ck.unknown('density', con + ': y', '%d evaluations' % len(points))
			series(ck, 'density', con + ': at', points[0], flat(c.get('x', [])), at)
			series(ck, 'density', con + ': y', c.get('y'), [expf(Poly.var('ld%d' % i)) for i in range(5)], at)
		guard(ck, 'density', con, go)


def contour(ck, P):
	f = P.func('psdr.pgf.save_contour')
	if f is None:
		raise AnalysisBroken('save_contour is gone')
	move, line, close = [Ext('matplotlib.path.Path.' + n) for n in ('MOVETO', 'LINETO', 'CLOSEPOLY')]
	for fm in ('matlab', 'prepared'):
		con = 'contours, %s' % fm

		def go(con=con, fm=fm):
			at, want, cols, levels = {}, [], [], []
			shapes = [[[(3, False)], [(2, False), (3, True)]], [[(4, True)]], [[(2, False)]], [[(3, False), (2, False)], [(4, True), (2, False)]]]
			n = [0]

			def point():
				n[0] += 1
				return put(at, symbols('p%d' % n[0], (2,)), [n[0] * .5, 1 - n[0] * .25])
			for k, paths in enumerate(shapes):
				z = put(at, symbols('z%d' % k, (1,)), [k * 1.5]).flat[0]
				levels.append(z)
				ps = []
				for segs in paths:
					steps = []
					for cnt, closed in segs:
						pts = [point() for _ in range(cnt)]
						steps += [(tuple(p.flat), move if i == 0 else line) for i, p in enumerate(pts)]
						if closed:
							steps.append(((ZERO, ZERO), close))
							pts.append(pts[0])
						want.append((z, pts))
					ps.append(Obj('path', {'iter_segments': lambda steps=steps, **k: list(steps), 'simplify_threshold': ZERO}))
				cols.append(Obj('lines', {'get_paths': lambda ps=ps: ps}))
			I = Page(P)
			CELL[0] = at
			I.call(Fn(f, f.node), ['out.dat', Obj('contours', {'collections': cols, 'levels': levels})], {'fmt': fm})
			rows = [[c for c in r.split('\t')] for r in ''.join(I.files.get('out.dat', [])).splitlines()]
			got, k = [], 0
			if fm == 'matlab':
				while k < len(rows):
					z, cnt = I.number(rows[k][0]), int(rows[k][1])
					pts = [[I.number(x) for x in r[:2]] for r in rows[k + 1:k + 1 + cnt]]
					if len(pts) < cnt:
						return ck.bad('contour', con, 'segment %d of %d rows has %d' % (len(got), cnt, len(pts)))
					got.append((z, pts))
					k += 1 + cnt
			else:
				cur = []
				for r in rows + [['']]:
					if not any(c.strip() for c in r):
						if cur:
							got.append((cur[0][2], [c[:2] for c in cur]))
							if any(not equal(c[2], cur[0][2]) for c in cur):
								ck.bad('contour', con, 'levels mixed in a segment')
						cur = []
					else:
						cur.append([I.number(c) for c in r if c.strip()])
			if len(got) != len(want):
				return ck.bad('contour', con, '%d segments where %d are due' % (len(got), len(want)))
			for i, ((z, pts), (z0, pts0)) in enumerate(zip(got, want)):
				series(ck, 'contour', '%s: level of segment %d' % (con, i), [z], [poly(z0)], at)
				series(ck, 'contour', '%s: segment %d' % (con, i), [c for p in pts for c in p], [poly(c) for p in pts0 for c in p.flat], at)
		guard(ck, 'contour', con, go)


def run(ck, P, tier):
	for r in RULES:
		ck.rule(*r)
	cls = P.cls('psdr.pgf.PGF')
	if cls is None:
		raise AnalysisBroken('psdr.pgf.PGF is gone')
	ck.assumptions.append('matplotlib draws what it is given; printing a number with 16 or more significant digits keeps it')
	files(ck, P, cls)
	shadow(ck, P)
	response(ck, P)
	band(ck, P)
	score(ck, P)
	density(ck, P)
	chance(ck, P)
	contour(ck, P)
