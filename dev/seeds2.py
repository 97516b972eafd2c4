SEEDS = []
def seed(*a): SEEDS.append(a)
LI='psdr/lipschitz.py'; GN='psdr/gn.py'; SL='psdr/seqlp.py'; MM='psdr/minimax.py'; SU='psdr/subspace.py'; BE='psdr/demos/beam.py'; NO='psdr/domains/normal.py'; CH='psdr/domains/convexhull.py'; LN='psdr/domains/lognormal.py'; PR='psdr/polyridge.py'; PO='psdr/poly.py'; LA='psdr/sample/latin.py'; MX='psdr/sample/minimax.py'; GP='psdr/gp.py'; LP='psdr/lipschitz_partial.py'; SQ='psdr/sample/seqmaximin.py'; MS='psdr/sample/minimax_scale.py'
H = 'import numpy as np, psdr, warnings\nwarnings.simplefilter("ignore")\nfrom psdr import *\nnp.random.seed(0)\n'
seed('eps-scale', 'L01', [(LI, "epsilon = self.epsilon/scale\n", "epsilon = self.epsilon/scale1\n")], H + """
lip = LipschitzMatrix(epsilon = 0.5)
lip.fit(X = np.array([[0.,0.],[1.,0.]]), fX = np.array([0.,1.]), grads = np.array([[0.,10.]]))
u = np.array([1.,0.])
assert u @ lip.H @ u >= 0.25 - 1e-3, lip.H
""", 'samples with a noise tolerance together with gradients longer than the spread of the outputs', 'the noise tolerance is divided by another number than the outputs, so sample pairs are dropped or loosened')
seed('armijo-sign', 'O01', [(MM, "t_new <= t + c_armijo*alpha*pt", "t_new <= t - c_armijo*alpha*pt")], H + """
from psdr.minimax import minimax
class F(BaseFunction):
	def __init__(self): self.domain = None
	def __call__(self, x): return np.array([x[0] + 1.005*x[0]**2])
	def grad(self, x): return np.array([[1 + 2.01*x[0]]])
f = F()
x = minimax(f, np.array([0.]), domain = BoxDomain([-5.],[5.]), maxiter = 1)
assert np.max(f(x)) <= 1e-9, (x, f(x))
""", 'a full step that increases the objective by less than a hundredth of the predicted decrease', 'the line search accepts steps that increase the objective')
seed('violation-lost', 'O01', [(SL, "					constraint_violation += np.linalg.norm((fx_new - obj_ub)[I], 1)", "					constraint_violation = np.linalg.norm((fx_new - obj_ub)[I], 1)")], H + """
from psdr.seqlp import sequential_lp
f = lambda x: np.array([2 - (x[0]-2)**2, 0.1])
jac = lambda x: np.array([[-2*(x[0]-2)], [0.]])
x = sequential_lp(f, np.array([1.]), jac, norm = 1, obj_lb = np.zeros(2), obj_ub = 10*np.ones(2), domain = BoxDomain([-10.],[10.]), maxiter = 3)
assert np.all(f(x) >= -1e-6), (x, f(x))
""", 'both a lower and an upper bound on the objective, and a step whose true value is below the lower one', 'the violation of the lower bound is forgotten, so the iterate leaves the bounds given for the objective')
seed('ub-loose', 'L02', [(LI, "ubs.append(np.min(-upper_bound(x)))", "ubs.append(np.max(-upper_bound(x)))")], H + """
lip = LipschitzMatrix(L = np.eye(1))
X = np.array([[-1.],[1.]]); fX = np.array([0., 0.])
dom = BoxDomain([-1.],[-.5])
lb, ub = lip.uncertainty_domain(X, fX, dom, Nsamp = 5)
assert abs(ub - .5) < 1e-4, ub
""", 'an extremal point that is not equally far from all the samples', 'the upper bound over a domain is the loosest one over the samples')
seed('as-weights', 'S01', [(SU, "scipy.linalg.svd(np.sqrt(self._weights)*self._grads.T)", "scipy.linalg.svd(self._weights*self._grads.T)")], H + """
a = ActiveSubspace()
a.fit(np.array([[1.,0.],[1.,0.],[1.,0.],[1.,0.],[0.,1.9]]), weights = [.2]*5)
b = ActiveSubspace()
b.fit(np.array([[1.,0.],[0.,1.9]]), weights = [.8, .2])
assert np.allclose(a.U, b.U), (a.U, b.U)
assert np.allclose(a.C, b.C), (a.C, b.C)
""", 'gradients with unequal weights', 'directions are ordered by the wrong importance')
seed('deflect-grad', 'M01', [(BE, "-12*F*L**3/(E*b*h**4)", "-12*F*L**3/(E*b*h**3)")], H + """
from psdr.demos.beam import beam_tip_deflect as f, beam_tip_deflect_grad as g
for x in np.array([[7., 60.],[20., 90.]]):
	for i in range(2):
		e = np.zeros(2); e[i] = 1e-3
		fd = (f(x+e) - f(x-e))/2e-3
		assert abs(fd - g(x)[i]) < 1e-3*abs(fd), (fd, g(x))
""", 'the derivative of the tip deflection, many orders smaller than those of the other outputs', 'the gradient of the deflection is not that of the deflection')
seed('affine-bound', 'R01', [(PR, "			elif self.norm == np.inf:\n				b = inf_norm_fit(XX, fX)\n", "			elif self.norm == np.inf:\n				b = one_norm_fit(XX, fX)\n")], H + """
X = np.random.rand(9, 2)
fX = X[:,0].copy(); fX[4] += 5
from psdr.polyridge import PolynomialRidgeApproximation as P, inf_norm_fit
p = P(1, 1, norm = np.inf); p.fit(X, fX)
A = np.hstack([X, np.ones((9,1))])
c = inf_norm_fit(A, fX); u = c[:2]/np.linalg.norm(c[:2])
assert abs(abs(u @ p.U[:,0]) - 1) < 1e-4, (u, p.U)
""", 'an affine ridge fit in the infinity norm to data with an outlier', 'the infinity norm selects the one-norm direction')
seed('gn-verbose-stop', 'G03', [(GN, """			if verbose: print("norm dx %1.3e less than tolerance %1.3e" % 
				(normdx, tol_normdx))
			break
""", """			if verbose:
				print("norm dx %1.3e less than tolerance %1.3e" % (normdx, tol_normdx))
				break
""")], H + """
from psdr.gn import gauss_newton
import io, contextlib
def run(verbose):
	calls = []
	f = lambda x: np.array([x[0]**2, 1.])
	def F(x):
		calls.append(1)
		return np.array([[2*x[0]], [0.]])
	with contextlib.redirect_stdout(io.StringIO()):
		x, info = gauss_newton(f, F, np.array([1.]), tol = 1e-300, tol_normdx = 1e-2, verbose = verbose)
	return x, info, len(calls)
assert run(0) == run(1), (run(0), run(1))
""", 'a run that stops because its step is short', 'a run without progress output goes on past its stopping point')
seed('box-perm', 'A01', [(LA, "perms[I,j] = perms_best[I,i]", "perms[I,j] = perms[I,i]")], H + """
dom = BoxDomain([0.,0.],[1.,1.])
from psdr.sample.latin import latin_hypercube_maximin
X = latin_hypercube_maximin(dom, 4, maxiter = 50)
for i in range(2):
	assert len(np.unique(np.round(X[:,i], 6))) == 4, X
""", 'a Latin hypercube design improved by swaps', 'a swap duplicates a level, so the design is no longer a Latin hypercube')
