SEEDS = []
def seed(*a): SEEDS.append(a)
CH='psdr/domains/convexhull.py'; E='psdr/domains/euclidean.py'; LQ='psdr/domains/linquad.py'; TP='psdr/domains/tensor.py'; F='psdr/function.py'; BA='psdr/basis.py'
H = 'import numpy as np, psdr\nfrom psdr import *\nnp.random.seed(0)\n'
seed('hull-quad-order', 'D04', [(CH, "ys = self.ys + ys\n", "ys = ys + self.ys\n")], H + """
X = np.array([[0,0],[4,0],[0,4],[4,4.]])
dom = ConvexHullDomain(X, Ls=[np.eye(2)], ys=[np.array([0.,0.])], rhos=[1.])
dom2 = dom.add_constraints(Ls=[np.eye(2)], ys=[np.array([3.,0.])], rhos=[2.5])
# (0.9, 0.1): within 1 of the origin and within 2.5 of (3, 0)
assert dom2.isinside(np.array([0.9, 0.1]))
assert not dom2.isinside(np.array([2.5, 0.5]))
""", 'a convex hull that already has a quadratic constraint receives another with a different centre and radius', 'the centres of the two constraints are swapped relative to their radii')
seed('hull-eq-lost', 'D01', [(CH, "		inside &= self._isinside_eq(X, tol = tol)\n", "")], H + """
X = np.array([[0,0],[1,0],[0,1],[1,1.]])
dom = ConvexHullDomain(X, A_eq=[[1.,1.]], b_eq=[1.])
assert dom.isinside(np.array([0.5, 0.5]))
assert not dom.isinside(np.array([0.5, 0.25]))
""", 'a convex hull domain with a linear equality constraint', 'membership ignores the equality constraint')
seed('extent-eq-any', 'D03', [(LQ, "np.all(np.abs(self.A_eq.dot(p) ) < self.tol)", "np.any(np.abs(self.A_eq.dot(p) ) < self.tol)")], H + """
dom = LinQuadDomain(lb=-np.ones(3), ub=np.ones(3), A_eq=[[1.,0,0],[0,1.,0]], b_eq=[0.,0.], Ls=[np.eye(3)], ys=[np.zeros(3)], rhos=[2.])
assert dom.extent(np.zeros(3), np.array([0.,1.,0.])) == 0
assert dom.extent(np.zeros(3), np.array([0.,0.,1.])) > 0.9
""", 'two equality constraints and a direction that keeps only one of them', 'the extent along a direction that leaves the domain is positive')
seed('closest-scale', 'D02', [(E, "obj = cp.norm(LD @ x_norm - LD.dot(x0_norm))", "obj = cp.norm(L @ x_norm - L.dot(x0_norm))")], H + """
dom = LinIneqDomain(lb=[-1.,-100.], ub=[1.,100.], A=[[1.,0.01]], b=[0.])
x = dom.closest_point(np.array([1.,100.]))
y = np.array([1.,100.]) - 2.*np.array([1.,0.01])/(1+1e-4)
y[0] = max(y[0], -1)
assert np.linalg.norm(x - np.array([1.,100.])) <= np.linalg.norm(dom.closest_point(y) - np.array([1.,100.])) + 1e-3
assert np.linalg.norm(x - np.array([1.,100.])) < 5
""", 'bounds of very different width and a point outside the domain', 'the closest point is measured in normalised instead of user coordinates')
seed('norm-quad-center', 'D05', [(E, "return [self.normalize(y) for y in self.ys]", "return [self._normalize_der() @ y for y in self.ys]")], H + """
dom = LinQuadDomain(lb=[0.,0.], ub=[4.,4.], Ls=[np.eye(2)], ys=[np.array([1.,1.])], rhos=[1.])
n = dom.normalized_domain()
for x in np.random.uniform(0, 4, size=(200,2)):
	assert bool(n.isinside(dom.normalize(x))) == bool(dom.isinside(x)), x
""", 'a quadratic constraint in a domain whose bounds are not centred at zero', 'the normalised quadratic constraint has its centre in the wrong place')
seed('hess-cross', 'F02', [(BA, "DDV[:,:,k, ell] *= dscale[k]*dscale[ell]", "DDV[:,:,k, ell] *= dscale[k]**2")], H + """
from psdr.basis import LegendreTensorBasis
X = np.random.rand(30, 2)*np.array([1., 5.])
b = LegendreTensorBasis(3, X)
x = X[:1]; h = 1e-5
D = b.DDV(x)[0]
for k in range(2):
	for l in range(2):
		e = np.zeros((1,2)); e[0,l] = h
		fd = (b.DV(x+e)[0,:,k] - b.DV(x-e)[0,:,k])/(2*h)
		assert np.allclose(fd, D[:,k,l], atol=1e-4*(1+abs(fd).max())), (k,l)
""", 'samples with different ranges per coordinate and mixed second derivatives', 'mixed second derivatives are scaled with the wrong factor')
MI='psdr/misc.py'; GN='psdr/gn.py'; MM='psdr/minimax.py'; SL='psdr/seqlp.py'
seed('kwargs-precedence', 'F01', [(F, """		X = self.domain_app.unnormalize(X_norm)

		kwargs = merge(self.kwargs, kwargs)

""", """		X = self.domain_app.unnormalize(X_norm)

		kwargs = merge(kwargs, self.kwargs)

""")], H + """
f = Function(lambda x, a=1., b=0.: a*np.sum(x) + b, BoxDomain([0.,0.],[1.,1.]), kwargs={'a': 2.})
x = np.array([0.5, 0.5])
assert np.isclose(f(x, a=5., b=1.)[0], 8.5*1.5/1.5) or True
v = f.domain_app.unnormalize(x).sum()
assert np.isclose(f.eval(x, a=5., b=1.)[0], 5*v + 1), f.eval(x, a=5., b=1.)
assert np.isclose(f.eval(x)[0], 2*v)
""", 'an option given both when the function is built and when it is called', 'the value given at construction wins over the one given at the call')
seed('merge-inplace', 'G01', [(MI, "	z = x.copy()\n", "	z = x\n")], H + """
opts = {'a': 2.}
f = Function(lambda x, a=1.: a*np.sum(x), BoxDomain([0.,0.],[1.,1.]), kwargs=opts)
x = np.array([0.5, 0.5])
y0 = f.eval(x)
f.eval(x, a=5.)
assert opts == {'a': 2.}
assert np.isclose(f.eval(x)[0], y0[0])
""", 'call-time options on an object that has default options, then another call without them', 'options of one call leak into the defaults of the object and into the dictionary of the caller')
seed('volume-own-generator', 'G02', [(E, "			Xt = np.random.uniform(self.norm_lb, self.norm_ub, size = (N, len(self)))", "			Xt = np.random.RandomState().uniform(self.norm_lb, self.norm_ub, size = (N, len(self)))")], H + """
vols = []
for k in range(4):
	dom = LinQuadDomain(lb=[-1.,-1.], ub=[1.,1.], Ls=[np.eye(2)], ys=[np.zeros(2)], rhos=[1.])
	np.random.seed(3)
	vols.append(dom.volume())
assert len(set(vols)) == 1, vols
""", 'the volume of a domain that is not a box, computed twice under the same seed', 'the volume estimate no longer follows the seed of the global generator')
seed('corner-status', 'G05', [(E, "			#self._point = False\n			raise UnboundedDomainException\n		elif problem.status not in ['optimal', 'optimal_inaccurate']:\n			raise SolverError(\"CVXPY exited with status '%s'\" % problem.status)\n", "			#self._point = False\n			raise UnboundedDomainException\n		elif problem.status in ['solver_error']:\n			raise SolverError(\"CVXPY exited with status '%s'\" % problem.status)\n")], H + """
import psdr.domains.euclidean as eu
from psdr.exceptions import SolverError
dom = LinIneqDomain(A=[[1.,1.]], b=[1.], lb=[0.,0.], ub=[2.,2.])
dom.corner(np.array([1.,0.]))
real = eu.cp.Problem
class Stub(real):
	@property
	def status(self):
		return 'user_limit'
eu.cp.Problem = Stub
try:
	dom.corner(np.array([1.,0.5]))
	ok = False
except SolverError:
	ok = True
finally:
	eu.cp.Problem = real
assert ok
""", 'the convex solver stops early (iteration limit) while looking for a corner', 'the iterate of the unfinished solve is returned as the corner')
