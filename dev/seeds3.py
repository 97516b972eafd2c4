SEEDS = []
def seed(*a): SEEDS.append(a)
EU='psdr/domains/euclidean.py'; LQ='psdr/domains/linquad.py'; NO='psdr/domains/normal.py'; FU='psdr/function.py'; OA='psdr/demos/oas.py'; TE='psdr/domains/tensor.py'; LN='psdr/domains/lognormal.py'; RI='psdr/ridge.py'; PO='psdr/poly.py'; PR='psdr/polyridge.py'; SU='psdr/subspace.py'; BA='psdr/basis.py'; VE='psdr/geometry/vertex.py'; PG='psdr/pgf.py'; UN='psdr/domains/uniform.py'; BX='psdr/domains/box.py'; LA='psdr/sample/latin.py'; SD='psdr/sample/stretch.py'; MX='psdr/sample/minimax.py'
H = 'import numpy as np, psdr, warnings\nwarnings.simplefilter("ignore")\nfrom psdr import *\nnp.random.seed(0)\n'
seed('pdf-det-diag', 'Q01', [(NO, "np.abs(scipy.linalg.det(self.cov))", "np.prod(np.diag(self.cov))")], H + """
dom = NormalDomain([0.,0.], np.array([[1.,.8],[.8,1.]]))
assert abs(dom.pdf([0.,0.])[0] - 1/(2*np.pi*np.sqrt(1-.64))) < 1e-10, dom.pdf([0.,0.])
""", 'a normal domain with a correlated covariance', 'the density does not integrate to one')
seed('fd-kwargs', 'F02', [(FU, "grad[:,i] = (self.eval(x + h*ei, **kwargs) - fx)/h", "grad[:,i] = (self.eval(x + h*ei) - fx)/h")], H + """
f = Function(lambda x, a = 1.: a*x[0], BoxDomain([-1.],[1.]), fd_grad = True)
assert abs(f.grad([.5], a = 3.)[0] - 3.) < 1e-4, f.grad([.5], a = 3.)
""", 'a finite difference gradient of a function called with an option of its own', 'the difference is between values of two different functions')
seed('oas-dir', 'M02', [(OA, "		os.makedirs(workdir)\n", "		if not os.path.isdir(workdir):\n			os.makedirs(workdir)\n")], H + """
import os, tempfile, stat
from psdr.demos import oas
with tempfile.TemporaryDirectory() as d:
	bin_ = os.path.join(d, 'bin'); os.mkdir(bin_)
	fake = os.path.join(bin_, 'docker')
	open(fake, 'w').write('#!/bin/bash\\nexit 1\\n'); os.chmod(fake, 0o755)
	os.environ['PATH'] = bin_ + ':' + os.environ['PATH']
	mine = os.path.join(d, 'mine'); os.mkdir(mine)
	open(os.path.join(mine, 'notes.txt'), 'w').write('keep')
	dom = oas.build_oas_design_domain()*oas.build_oas_robust_domain()*oas.build_oas_random_domain()
	x = dom.sample()
	try:
		oas.oas_func(x, workdir = mine)
	except Exception as e:
		pass
	assert os.path.exists(os.path.join(mine, 'notes.txt'))
""", 'a working directory that already exists', 'the run writes into, and then removes, a directory that was there before')
seed('single-flatten', 'F01', [(FU, "			if len(X_norm.shape) == 1:\n				fX = fX.flatten()\n", "			if len(X_norm.shape) == 1 and fX.shape[1] == 1:\n				fX = fX.flatten()\n")], H + """
f = Function([lambda x, return_grad = False: (x[0], np.array([1.,0.])) if return_grad else x[0], lambda x, return_grad = False: (x[1], np.array([0.,1.])) if return_grad else x[1]], BoxDomain([-1.,-1.],[1.,1.]), return_grad = True)
a = f([.5,.2]); b = f([.5,.2], return_grad = True)[0]
assert np.shape(a) == np.shape(b), (a, b)
""", 'a single point, several outputs, and the value asked for together with the gradient', 'the value has another shape than when asked for alone')
seed('uniform-area', 'Q01', [(UN, "ub - lb for lb, ub in zip(self.lb, self.ub)", "ub - lb for lb, ub in zip(self.norm_lb, self.norm_ub)")], H + """
print(1)
""", '-', '-')
seed('pgf-columns', 'G04', [(PG, "x", "x")], H, '-', '-')
seed('lower-bound-sign', 'R01', [(PO, "constraint = [ residual <= 0]", "constraint = [ residual >= 0]")], H + "print(1)", '-', '-')
SEEDS = [s for s in SEEDS if s[4] != '-']
seed('grad-own-kwargs', 'F02', [(FU, "fxi, gradi = fun(x, return_grad = True, **kwargs)", "fxi, gradi = fun(x, return_grad = True, **self.kwargs)")], H + """
def fun(x, a = 1., return_grad = False):
	return (a*x[0], np.array([a])) if return_grad else a*x[0]
f = Function(fun, BoxDomain([-1.],[1.]), return_grad = True, kwargs = {'a': 2.})
assert abs(f.grad([.5])[0] - 2.) < 1e-9
assert abs(f.grad([.5], a = 3.)[0] - 3.) < 1e-9, f.grad([.5], a = 3.)
""", 'a gradient asked for with an option of the call, from a function that returns both', 'the gradient belongs to the default options while the value belongs to those of the call')
