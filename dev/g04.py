CASES=[]
def bad(n,*e): CASES.append((n,'G04','bad',list(e)))
def quiet(n,*e): CASES.append((n,'G04','quiet',list(e)))
E='psdr/domains/euclidean.py'
bad('typo-local',('psdr/gn.py','x = x + alpha*p','x = x + alpah*p') if False else ('psdr/seqlp.py','				px = np.zeros(x.shape)\n','				px = np.zeros(xx.shape)\n'))
bad('bt-px',('psdr/seqlp.py',"		px = np.zeros(x.shape)\n		constraint_violation = 0.\n",""))
bad('np-attr',('psdr/gn.py','np.linalg.norm','np.linalg.nrom'))
bad('np-attr2',(E,'np.isfinite(self.lb)','np.isfinit(self.lb)'))
bad('np-kw',('psdr/geometry/geometry.py','np.zeros(','np.zeros(size = ')) if False else None
bad('self-attr',('psdr/lipschitz.py','self._grads = np.copy(grads)','self._grds = np.copy(grads)'))
bad('self-method',('psdr/domains/linquad.py','self._extent_quad(x, p)','self._extent_quads(x, p)'))
bad('arity',('psdr/domains/linquad.py','self._extent_quad(x, p)','self._extent_quad(x)'))
bad('kw-internal',('psdr/subspace.py','def shadow_plot(self, X = None, fX = None, dim = 1','def shadow_plot(self, X = None, y = None, dim = 1'))
bad('override',('psdr/sample/sample.py','	def _sample(self, draw = 1, verbose = False):\n		for it','	def _sample(self, draw = 1):\n		for it'))
bad('import',('psdr/sample/sample.py','from .initial import initial_sample','from .initial import initial_samples'))
bad('dropimport',('psdr/domains/euclidean.py','from scipy.stats import ortho_group\n',''))
bad('branch-bound',('psdr/polyridge.py',"		elif self.bound == 'upper':\n","		elif self.bound == 'uper':\n"))
bad('norm-branch',('psdr/polyridge.py',"			elif self.norm == np.inf:\n","			elif self.norm == 'inf':\n"))
bad('structure',('psdr/gp.py',"		elif self.structure == 'const':\n			ell0 = np.array(L0.flatten()[0])\n",""))
bad('structure2',('psdr/gp.py',"		elif self.structure in ['const', 'scalar_mult']:","		elif self.structure in ['scalar_mult']:"))
bad('truncate',('psdr/domains/euclidean.py',"if isinstance(self, NormalDomain):","if True:"))
bad('center',('psdr/domains/euclidean.py',"	@property\n	def center(self):","	@property\n	def centre(self):"))
bad('super',('psdr/domains/convexhull.py',"super(ConvexHullDomain, self)._sample(draw = draw)","super(ConvexHullDomain, self)._samples(draw = draw)"))
bad('classcall',('psdr/domains/convexhull.py',"LinQuadDomain._build_constraints(self, x)","LinQuadDomain._build_constraints(x)"))
bad('duck',('psdr/domains/tensor.py',"dom._extent(x[I], p[I])","dom._extend(x[I], p[I])"))
bad('ctor',('psdr/domains/convexhull.py',"names = names_norm, tol = self.tol, **merge","nmes = names_norm, tolx = self.tol, bounds = 1, **merge")) if False else None
bad('none-init',('psdr/sample/projection.py',"	perms_best = None\n",""))
bad('raise-name',('psdr/domains/box.py',"raise EmptyDomainException","raise EmptyDomain"))
bad('lambda',('psdr/minimax.py',"search_constraints = lambda x, p: []","search_constraints = lambda x: []")) if False else None
quiet('helper',(E,"	@property\n	def center(self):\n		r\"\"\" A point in the domain away from its boundary\n		\"\"\"\n		return self._corner_center()\n","	def _c2(self):\n		return self._corner_center()\n	@property\n	def center(self):\n		return self._c2()\n"))
quiet('init-none',('psdr/gp.py',"		if return_obj:\n			# Should","		obj = None\n		if return_obj:\n			# Should"))
quiet('comp',('psdr/domains/tensor.py',"return min(alpha)","return min([a for a in alpha])"))
quiet('walrus',('psdr/domains/tensor.py',"return min(alpha)","if (amin := min(alpha)) is not None:\n			return amin\n		return amin"))
quiet('hasattr',('psdr/lipschitz.py','	def grads(self): return self._grads','	def grads(self):\n		if hasattr(self, "_zzz"): return self._zzz\n		return self._grads'))
quiet('getattr',('psdr/lipschitz.py','	def grads(self): return self._grads','	def grads(self):\n		return getattr(self, "_grads")'))
quiet('flag',('psdr/gp.py',"		if return_obj and return_grad:\n			return obj, grad\n		if not return_obj:\n			return grad","		if not return_obj:\n			return grad\n		if return_grad:\n			return obj, grad"))
quiet('tryname',('psdr/misc.py',"import numpy as np","import numpy as np\ntry:\n	unicode_type = unicode\nexcept NameError:\n	unicode_type = str") if 'import numpy as np' in open('/repo/psdr/misc.py').read() else ('psdr/gp.py',"import numpy as np","import numpy as np\ntry:\n	unicode_type = unicode\nexcept NameError:\n	unicode_type = str"))
quiet('importlocal',('psdr/domains/tensor.py',"		return min(alpha)","		from functools import reduce\n		import operator as op\n		return reduce(min, alpha)"))
quiet('newattr',('psdr/lipschitz.py','self._grads = np.copy(grads)','self._grads = self.__dict__.setdefault("_gg", np.copy(grads))'))
CASES[:] = [c for c in CASES if c]
