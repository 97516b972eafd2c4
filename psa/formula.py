"""Formulas of several variables in a canonical form: sums of generalised monomials (rational exponents) over
variables, cosines and sines of variables, exponentials, logarithms and sums that occur as factors.  Differentiation
is exact; equality is decided by clearing denominators and expanding.  Roots are taken of positive quantities."""
import zlib
from fractions import Fraction as Fr
import math


class TooBig(Exception):
	pass


class Undefined(Exception):
	pass


LIMIT = 200000
BUDGET = 250000      # term products per obligation
OPS = [0]
SPENT = [0]           # over the whole run: once this is large, obligations only get a small budget each
TOTAL = 1000000
PRIMES = [p for p in range(2, 2000) if all(p % q for q in range(2, int(p ** .5) + 1))]
QTAB = {}      # id -> Poly (canonical)
QID = {}       # key -> id
QSIM = {}      # support -> [keys]
DEPTH = {}


def frac(v):
	if isinstance(v, Fr):
		return v
	if isinstance(v, bool):
		return Fr(int(v))
	if isinstance(v, int):
		return Fr(v)
	if isinstance(v, float):
		if v != v or v in (math.inf, -math.inf):
			raise Undefined('not finite')
		return Fr(repr(v))
	raise Undefined('not a number')


RANK = {}


def rank(a):
	r = RANK.get(a)
	if r is None:
		r = RANK[a] = repr(a)
	return r


def mkey(d):
	return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda t: rank(t[0])))


class Poly:
	__slots__ = ('t',)

	def __init__(self, t=None):
		self.t = {m: c for m, c in (t or {}).items() if c}

	@staticmethod
	def const(v):
		return Poly({(): frac(v)})

	@staticmethod
	def var(n):
		return Poly({((('v', n), Fr(1)),): Fr(1)})

	@staticmethod
	def atom(a, e=Fr(1)):
		return Poly({((a, Fr(e)),): Fr(1)})

	def key(self):
		return tuple(sorted(self.t.items(), key=repr))

	def is_const(self):
		return not self.t or set(self.t) == {()}

	def value(self):
		return self.t.get((), Fr(0)) if self.is_const() else None

	def __add__(self, o):
		n = (len(self.t) + len(o.t)) // 16
		OPS[0] += n
		SPENT[0] += n
		if OPS[0] > BUDGET or SPENT[0] > TOTAL and OPS[0] > 20000:
			raise TooBig
		t = dict(self.t)
		for m, c in o.t.items():
			t[m] = t.get(m, 0) + c
		return Poly(t)

	def __neg__(self):
		return Poly({m: -c for m, c in self.t.items()})

	def __sub__(self, o):
		return self + (-o)

	def __mul__(self, o):
		n = len(self.t) * len(o.t)
		OPS[0] += n
		SPENT[0] += n
		if n > LIMIT or OPS[0] > BUDGET or SPENT[0] > TOTAL and OPS[0] > 20000:
			raise TooBig
		out = {}
		for m1, c1 in self.t.items():
			d1 = dict(m1)
			for m2, c2 in o.t.items():
				d = dict(d1)
				for a, e in m2:
					d[a] = d.get(a, 0) + e
				for m, c in norm_mono(d, c1 * c2):
					out[m] = out.get(m, 0) + c
		return Poly(out)

	def atoms(self):
		return {a for m in self.t for a, _ in m}

	def __repr__(self):
		return show(self)


def show(p, limit=6):
	if not p.t:
		return '0'
	out = []
	for m, c in list(sorted(p.t.items(), key=repr))[:limit]:
		fs = []
		for a, e in m:
			n = a[1] if a[0] == 'v' else '(%s)' % show(QTAB[a[1]], 4) if a[0] == 'Q' else '%s(%s)' % ({'c': 'cos', 's': 'sin', 'E': 'exp', 'L': 'log', 'n': ''}.get(a[0], a[0]), a[1] if isinstance(a[1], str) else '..')
			fs.append(n if e == 1 else '%s^%s' % (n, e))
		cs = str(c) if len(str(c)) < 14 else '%.10g' % float(c)
		out.append('*'.join(([cs] if c != 1 or not fs else []) + fs))
	return ' + '.join(out) + (' + ...' if len(p.t) > limit else '')


def norm_mono(d, c):
	"""reduce a raw product to canonical terms: [(monomial, coefficient)]"""
	num = [a for a in d if a[0] == 'n']
	for a in num:
		e = d[a]
		k = math.floor(e)
		if k:
			c = c * Fr(a[1]) ** k
			d[a] = e - k
	sins = [a for a in d if a[0] == 's' and d[a].denominator == 1 and d[a] >= 2]
	if not sins:
		return [(mkey(d), c)]
	a = sins[0]
	k, r = divmod(int(d[a]), 2)
	base = dict(d)
	base[a] = Fr(r)
	out = []
	cos = ('c', a[1])
	for j in range(k + 1):
		b = dict(base)
		b[cos] = b.get(cos, Fr(0)) + 2 * j
		out += norm_mono(b, c * math.comb(k, j) * (-1) ** j)
	return out


ZERO, ONE = Poly(), Poly({(): Fr(1)})


def num_power(c, e):
	"""a positive rational to a rational power"""
	if e.denominator == 1:
		return Poly({(): c ** int(e)})
	if c < 0:
		raise Undefined('root of a negative number')
	out = {}
	rest = Fr(1)
	for n, s in ((c.numerator, 1), (c.denominator, -1)):
		for p in PRIMES:
			k = 0
			while n % p == 0:
				n //= p
				k += 1
			if k:
				out[p] = out.get(p, 0) + s * k
		if n != 1:
			out[n] = out.get(n, 0) + s
	d = {('n', p): k * e for p, k in out.items() if k}
	return Poly(dict(norm_mono(d, Fr(1))))


def content(p):
	"""(monomial, positive coefficient, primitive sum)"""
	it = iter(p.t)
	m0 = dict(next(it))
	low = dict(m0)
	for m in it:
		dm = dict(m)
		for a in set(low) | set(dm):
			low[a] = min(low.get(a, Fr(0)), dm.get(a, Fr(0)))
	for a in list(low):
		low[a] = low[a]
	low = {a: e for a, e in low.items() if e}
	q = {}
	for m, c in p.t.items():
		d = dict(m)
		for a, e in low.items():
			d[a] = d.get(a, Fr(0)) - e
		q[mkey(d)] = q.get(mkey(d), 0) + c
	lead = abs(q[min(q, key=repr)])
	return low, lead, Poly({m: c / lead for m, c in q.items()})


def expand_inner(p):
	"""positive integer powers of sums multiplied out; returns a Poly without such factors where possible"""
	for _ in range(40):
		hit = None
		for m in p.t:
			for a, e in m:
				if a[0] == 'Q' and e >= 1:
					hit = a
					break
			if hit:
				break
		if not hit:
			return p
		out = ZERO
		for m, c in p.t.items():
			d = dict(m)
			e = d.get(hit, Fr(0))
			k = math.floor(e)
			if k >= 1:
				d[hit] = e - k
				x = Poly({mkey(d): c})
				for _k in range(k):
					x = x * QTAB[hit[1]]
				out = out + x
			else:
				out = out + Poly({m: c})
			if len(out.t) > LIMIT:
				raise TooBig
		p = out
	raise TooBig


def clear(p):
	"""common negative powers taken out: (monomial dict, expanded Poly)"""
	pulled = {}
	for _ in range(60):
		low = {}
		for m in p.t:
			for a, e in m:
				if a[0] == 'Q' and e < 0:
					low[a] = min(low.get(a, Fr(0)), Fr(math.floor(e)))
		if not low:
			return pulled, expand_inner(p)
		a = max(low, key=lambda x: DEPTH[x[1]])
		k = -low[a]
		pulled[a] = pulled.get(a, Fr(0)) - k
		t = {}
		for m, c in p.t.items():
			d = dict(m)
			d[a] = d.get(a, Fr(0)) + k
			t[mkey(d)] = c
		p = expand_inner(Poly(t))
		if not p.t:
			return pulled, p
	raise TooBig


def near(p, q):
	return all(abs(p.t[m] - q.t[m]) <= abs(p.t[m]) * Fr(1, 10 ** 9) for m in p.t)


def qatom(p):
	"""the atom of a primitive, expanded sum"""
	k = p.key()
	if k not in QID:
		sup = frozenset(p.t)
		for other in QSIM.get(sup, ()):
			if near(p, QTAB[other]):
				QID[k] = other
				return ('Q', other)
		n = len(QTAB)
		QID[k] = n
		QTAB[n] = p
		QSIM.setdefault(sup, []).append(n)
		DEPTH[n] = 1 + max([DEPTH[a[1]] for a in p.atoms() if a[0] == 'Q'] + [0])
	return ('Q', QID[k])


def power(p, e):
	e = frac(e)
	if e == 0:
		return ONE
	if not p.t:
		if e > 0:
			return ZERO
		raise Undefined('division by zero')
	if len(p.t) == 1:
		(m, c), = p.t.items()
		return Poly({mkey({a: x * e for a, x in m}): Fr(1)}) * num_power(c, e)
	if e.denominator == 1 and 0 < e <= 4:
		out = p
		for _ in range(int(e) - 1):
			out = out * p
		return out
	pulled, x = clear(p)
	if not x.t:
		return power(ZERO, e)
	if len(x.t) == 1:
		return power(Poly({mkey({a: k for a, k in pulled.items()}): Fr(1)}), e) * power(x, e)
	low, lead, prim = content(x)
	for a, k in pulled.items():
		low[a] = low.get(a, Fr(0)) + k
	if e.denominator != 1 and all(c < 0 for c in prim.t.values()):
		raise Undefined('root of a negative sum')
	d = {a: k * e for a, k in low.items()}
	a = qatom(prim)
	d[a] = d.get(a, Fr(0)) + e
	return Poly(dict(norm_mono({k: v for k, v in d.items()}, Fr(1)))) * num_power(lead, e)


def div(p, q):
	return p * power(q, -1)


def expf(p):
	out = ONE
	d = {}
	for m, c in p.t.items():
		d[('E', m)] = c
	return Poly({mkey(d): Fr(1)})


def logf(p):
	if len(p.t) == 1:
		(m, c), = p.t.items()
		if c < 0:
			raise Undefined('logarithm of a negative number')
		out = ZERO
		for a, e in m:
			if a[0] == 'E':
				out = out + Poly({a[1]: e})
			else:
				out = out + Poly.atom(('L', a)) * Poly.const(e)
		for p_, k in num_power(c, Fr(1, 2)).t.items():
			pass
		if c != 1:
			out = out + Poly.atom(('L', ('n', c)))
		return out
	pulled, x = clear(p)
	low, lead, prim = content(x)
	for a, k in pulled.items():
		low[a] = low.get(a, Fr(0)) + k
	out = Poly.atom(('L', qatom(prim)))
	for a, e in low.items():
		out = out + (Poly({a[1]: e}) if a[0] == 'E' else Poly.atom(('L', a)) * Poly.const(e))
	if lead != 1:
		out = out + Poly.atom(('L', ('n', lead)))
	return out


def trig(p):
	"""(cos, sin) of a sum, by the addition theorems"""
	p = clear(p)
	if p[0]:
		p = Poly({mkey(dict(p[0])): Fr(1)}) * p[1]
	else:
		p = p[1]
	C, S = ONE, ZERO
	for m, c in sorted(p.t.items(), key=repr):
		k = abs(c)
		if k.denominator == 1 and k <= 6:
			base, reps = Poly({m: Fr(1)}), int(k)
		else:
			base, reps = Poly({m: k}), 1
		if not m:
			base, reps = Poly({m: k}), 1
		n = base.key()
		c1, s1 = Poly.atom(('c', n)), Poly.atom(('s', n))
		if c < 0:
			s1 = -s1
		for _ in range(reps):
			C, S = C * c1 - S * s1, S * c1 + C * s1
	return C, S


def datom(a, v):
	if a[0] == 'v':
		return ONE if a[1] == v else ZERO
	if a[0] == 'n':
		return ZERO
	if a[0] == 'Q':
		return diff(QTAB[a[1]], v)
	if a[0] == 'c':
		return -(Poly.atom(('s', a[1])) * diff(Poly(dict(a[1])), v))
	if a[0] == 's':
		return Poly.atom(('c', a[1])) * diff(Poly(dict(a[1])), v)
	if a[0] == 'E':
		return Poly.atom(a) * diff(Poly({a[1]: Fr(1)}), v)
	if a[0] == 'L':
		if a[1][0] == 'n':
			return ZERO
		return datom(a[1], v) * Poly.atom(a[1], Fr(-1))
	if a[0] == 'abs':
		return Poly.atom(('sgn', a[1])) * diff(Poly(dict(a[1])), v)
	raise Undefined('derivative of ' + str(a[0]))


def diff(p, v):
	out = {}
	cache = {}
	for m, c in p.t.items():
		for a, e in m:
			if a not in cache:
				cache[a] = datom(a, v)
			da = cache[a]
			if not da.t:
				continue
			d = dict(m)
			d[a] = e - 1
			x = Poly(dict(norm_mono(d, c * e))) * da
			for mm, cc in x.t.items():
				out[mm] = out.get(mm, 0) + cc
	return Poly(out)


def atom_value(a, at):
	k = a[0]
	if k == 'v':
		if a[1] == 'pi':
			return math.pi
		if isinstance(at, dict):
			if a[1] in at:
				return float(at[a[1]])
			at = 0
		h = zlib.crc32(('%s|%d' % (a[1], at)).encode())
		return 0.4 + 1.3 * (h % 1000003) / 1000003
	if k == 'n':
		return float(a[1])
	if k == 'Q':
		v, big = numeric(QTAB[a[1]], at)
		return 0. if v < 0 and -v <= 1e-11 * big else v
	if k in ('c', 's'):
		return (math.cos if k == 'c' else math.sin)(numeric(Poly(dict(a[1])), at)[0])
	if k == 'L':
		return math.log(atom_value(a[1], at))
	raise ValueError


def numeric(p, at):
	"""(value, sum of magnitudes) of the formula at a fixed assignment of its variables"""
	s = big = 0.0
	for m, c in p.t.items():
		x = float(c)
		for a, e in m:
			x *= math.exp(float(e) * numeric(Poly({a[1]: Fr(1)}), at)[0]) if a[0] == 'E' else atom_value(a, at) ** float(e)
		if isinstance(x, complex) or x != x or abs(x) == math.inf:
			raise ValueError
		s += x
		big += abs(x)
	return s, big


def apart(p, q):
	"""True if the two formulas take clearly different values somewhere"""
	for at in range(3):
		try:
			(a, x), (b, y) = numeric(p, at), numeric(q, at)
		except (ValueError, OverflowError, ZeroDivisionError, TypeError):
			continue
		if abs(a - b) > 1e-6 * max(abs(a), abs(b)) and abs(a - b) > 1e-8 * max(x, y):
			return True
	return False


def equal(p, q, tol=Fr(1, 10 ** 9)):
	"""True / False: the two formulas are the same (up to rounding of printed constants)"""
	OPS[0] = 0
	if p.key() == q.key():
		return True
	if apart(p, q):
		return False
	x = p - q
	if not x.t:
		return True
	# common monomial factor out first, then clear denominators keeping the two sides' sizes for the tolerance
	scale = dict()
	P_, Q_ = p, q
	for _ in range(60):
		low = {}
		for r in (P_, Q_):
			for m in r.t:
				for a, e in m:
					if a[0] == 'Q' and e < 0:
						low[a] = min(low.get(a, Fr(0)), Fr(math.floor(e)))
		if not low:
			break
		a = max(low, key=lambda z: DEPTH[z[1]])
		k = -low[a]
		new = []
		for r in (P_, Q_):
			t = {}
			for m, c in r.t.items():
				d = dict(m)
				d[a] = d.get(a, Fr(0)) + k
				t[mkey(d)] = t.get(mkey(d), 0) + c
			new.append(expand_inner(Poly(t)))
		P_, Q_ = new
	else:
		raise TooBig
	P_, Q_ = expand_inner(P_), expand_inner(Q_)
	P_, Q_ = numeric_pi(P_), numeric_pi(Q_)
	big = max([abs(c) for c in list(P_.t.values()) + list(Q_.t.values())] + [Fr(0)])
	for m in set(P_.t) | set(Q_.t):
		a, b = P_.t.get(m, Fr(0)), Q_.t.get(m, Fr(0))
		if abs(a - b) > tol * max(abs(a), abs(b)) and not (max(abs(a), abs(b)) < big * Fr(1, 10 ** 30)):
			return False
	return True


def numeric_pi(p):
	if not any(a == ('v', 'pi') or a[0] == 'n' or a[0] == 'L' and a[1][0] == 'n' for a in p.atoms()):
		return p
	t = {}
	for m, c in p.t.items():
		d = dict(m)
		e = d.pop(('v', 'pi'), Fr(0))
		if e.denominator == 1:
			c = c * Fr(math.pi) ** int(e)
		elif e:
			d[('v', 'pi')] = e
		for a in list(d):
			if a[0] == 'n':
				c = c * Fr(float(a[1]) ** float(d.pop(a)))
			elif a[0] == 'L' and a[1][0] == 'n' and d[a].denominator == 1:
				c = c * Fr(math.log(a[1][1])) ** int(d.pop(a))
		k = mkey(d)
		t[k] = t.get(k, 0) + c
	return Poly(t)
