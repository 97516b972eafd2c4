SEEDS = []
def seed(*a): SEEDS.append(a)
EU='psdr/domains/euclidean.py'; LQ='psdr/domains/linquad.py'; LN='psdr/domains/lognormal.py'; TE='psdr/domains/tensor.py'; GP='psdr/gp.py'; RI='psdr/ridge.py'; LA='psdr/lipschitz_approx.py'; PO='psdr/polyridge.py'; SE='psdr/seqlp.py'; CH='psdr/domains/convexhull.py'; SU='psdr/subspace.py'; PG='psdr/pgf.py'; LI='psdr/lipschitz.py'; NO='psdr/domains/normal.py'
H = 'import numpy as np, psdr, warnings\nwarnings.simplefilter("ignore")\nfrom psdr import *\nnp.random.seed(0)\n'
seed('gp-nugget', 'K01', [(GP, "np.hstack([K + self.nugget*np.eye(K.shape[0]), self.V])", "np.hstack([K, self.V])")], H + """
X = np.random.uniform(-1, 1, (8, 2)); y = X[:,0]**2
gp = GaussianProcess(structure = 'diag', degree = 0, nugget = 1e-1)
gp._fit_init(X, y)
for ell in ([0., 0.], [.5, -.3]):
	ell = np.array(ell); h = 1e-6
	g = gp._grad(ell)
	for i in range(2):
		e = np.zeros(2); e[i] = h
		d = (gp._obj(ell + e) - gp._obj(ell - e))/(2*h)
		assert abs(d - g[i]) < 1e-3*max(1, abs(d)), (d, g[i])
	K = np.exp(-.5*np.sum((np.dot(gp._make_L(ell), X.T).T[:,None] - np.dot(gp._make_L(ell), X.T).T[None])**2, axis = 2))
	a, b = gp._log_marginal_likelihood(ell, return_obj = False, return_alpha_beta = True)
	assert np.allclose((K + .1*np.eye(8)).dot(a) + gp.V.dot(b), y, atol = 1e-6)
""", 'a nugget larger than rounding', 'the weights solve a system without the nugget the likelihood includes')
seed('ridge-mesh', 'P01', [(RI, "XX0, XX1 = np.meshgrid(xx0, xx1)", "XX0, XX1 = np.meshgrid(xx0, xx1, indexing = 'ij')")], H + """
import matplotlib; matplotlib.use('Agg')
X = np.random.uniform(-1, 1, (60, 3)); fX = X[:,0] + 3*X[:,1]**2
pra = PolynomialRidgeApproximation(2, 2)
pra.fit(X, fX)
got = []
class Ax:
	def contour(self, a, b, Z, **k): got.append((a, b, Z))
	def __getattr__(self, n): return lambda *a, **k: type('o', (), {'set_label': lambda s, *a: None})()
import matplotlib.pyplot as plt
plt.colorbar = lambda *a, **k: Ax()
pra.shadow_plot(X, fX, ax = Ax())
a, b, Z = got[0]
x = pra.U.dot(np.array([a[7], b[31]]))
assert abs(Z[31,7] - pra(x)) < 1e-8, (Z[31,7], pra(x))
""", 'a two-dimensional ridge function', 'the response surface is drawn with its coordinates exchanged')
seed('approx-band', 'P01', [(LA, "			lb, ub = self.uncertainty(self._X, self._y, X)\n			c", "			lb, ub = self.uncertainty(self._X, self._fX, X)\n			c")], H + """
import tempfile, os
from psdr.pgf import PGF
dom = BoxDomain([-1,-1],[1,1])
X = dom.sample(10); fX = X[:,0] + 2*X[:,1]
app = LipschitzApproximation(.2*np.eye(2), dom)
app.fit(X, fX)
with tempfile.TemporaryDirectory() as d:
	app.shadow_plot(ax = None, pgfname = os.path.join(d, 'a'), nsamp = 12)
	p = PGF(); p.read(os.path.join(d, 'a_curves.dat'))
	Z = psdr.maximin_design_1d(dom, 12, L = app.U[:,:1].T)
	want = dict(zip(np.round(Z.dot(app.U[:,0]), 6), app(Z).flatten()))
	for x, c in zip(p['x'], p['c']):
		k = min(want, key = lambda z: abs(z - x))
		assert abs(k - x) < 1e-4 and abs(want[k] - c) < 1e-4, (x, c, want[k])
""", 'data that violate the given Lipschitz matrix', 'the curve drawn is not the approximation')
seed('pgf-spaces', 'P01', [(PG, "self.column_names = line.split('\\t')", "self.column_names = line.split()")], H + """
import tempfile, os
from psdr.pgf import PGF
with tempfile.TemporaryDirectory() as d:
	p = PGF(); p.add('lower bound', [1.,2.]); p.add('ub', [3.,4.]); p.write(os.path.join(d, 'a'))
	q = PGF(); q.read(os.path.join(d, 'a'))
	assert list(q.keys()) == ['lower bound', 'ub'] and q['ub'] == [3.,4.]
""", 'a column name with a blank', 'names and columns no longer belong together')
seed('ln-offset', 'D05', [(LN, "offset = D*(self.offset - c)", "offset = D*self.offset - c")], H + """
dom = LogNormalDomain(0., .1, offset = 2., scaling = 3., truncate = 1e-2)
X = dom.sample(50)
dn = dom.normalized_domain()
assert np.all(dn.isinside(dom.normalize(X)))
assert np.allclose(dn.norm_lb, dom.normalize(np.array(dom.norm_lb))) and np.allclose(dn.norm_ub, dom.normalize(np.array(dom.norm_ub)))
""", 'a truncated log-normal domain', 'the normalized domain is shifted')
seed('hull-nd', 'D05', [(CH, "return ConvexHullDomain(self._X_norm, A = self.A_norm", "return ConvexHullDomain(self._X_norm, A = self.A")], H + """
X = np.array([[0,0],[4,0],[4,2],[0,2.]])
dom = ConvexHullDomain(X, A = [[1.,1.]], b = [5.])
dn = dom.normalized_domain()
Z = np.random.uniform(-1, 1, (200, 2))
assert np.all(dn.isinside(Z) == dom.isinside(dom.unnormalize(Z)))
""", 'a hull that is not the unit cube and carries an inequality', 'the normalized hull cuts elsewhere')
