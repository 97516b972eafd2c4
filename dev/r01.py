CASES=[]
Y='psdr/poly.py'; R='psdr/polyridge.py'; S='psdr/seqlp.py'; G='psdr/gp.py'; E='psdr/domains/euclidean.py'; D='psdr/duu.py'; T='psdr/study.py'; O='psdr/opg.py'; LL='psdr/local_linear.py'; Q='psdr/quadrature.py'; B='psdr/demos/borehole.py'; L='psdr/lipschitz.py'
def bad(n,*e): CASES.append((n,'R01','bad',list(e)))
def quiet(n,*e): CASES.append((n,'R01','quiet',list(e)))
bad('lf-lower',(Y,"constraint = [residual <= 0]","constraint = [residual >= 0]"))
bad('lf-inf',(Y,"elif norm == np.inf: obj = cp.norm_inf(residual)","elif norm == np.inf: obj = cp.norm1(residual)"))
bad('lf-shortcut',(Y,"if norm == 2 and bound == None:","if norm == 2:"))
bad('lf-shortcut2',(Y,"if norm == 2 and bound == None:","if bound == None:"))
bad('pa-basis',(Y,"			self.basis = LaguerreTensorBasis(self.degree, X = X) ","			self.basis = HermiteTensorBasis(self.degree, X = X) "))
bad('pa-degree',(Y,"			self.basis = ChebyshevTensorBasis(self.degree, X = X) ","			self.basis = ChebyshevTensorBasis(self.degree - 1, X = X) "))
bad('pa-bound',(Y,"self.coef = linear_fit(V, fX, norm = self.norm, bound = self.bound)","self.coef = linear_fit(V, fX, norm = self.norm)"))
bad('pra-basis',(R,"			self.Basis = MonomialTensorBasis ","			self.Basis = LegendreTensorBasis "))
bad('pra-lower',(R,"			c = bound_fit(-V, -fX, norm = self.norm)","			c = bound_fit(V, fX, norm = self.norm)"))
bad('pra-boundnorm',(R,"			c = bound_fit(V, fX, norm = self.norm)","			c = bound_fit(V, fX)"))
bad('pra-aff',(R,"			b = bound_fit(XX, fX, norm = self.norm)","			b = bound_fit(-XX, -fX, norm = self.norm)"))
bad('pra-infstr',(R,"		if norm == 'inf': norm = np.inf\n","		if norm == 'inf': norm = 1\n"))
bad('pra-one',(R,"		obj = cp.norm1(x.__rmatmul__(A) - b)\n		problem","		obj = cp.norm(x.__rmatmul__(A) - b)\n		problem"))
bad('pra-obj',(R,"			obj_ub = np.zeros(fX.shape)","			obj_lb = np.zeros(fX.shape)"))
bad('pra-norm',(R,"			search_constraints = search_constraints, norm = self.norm, **kwargs)","			search_constraints = search_constraints, norm = 2, **kwargs)"))
bad('slp-lb',(S,"nonlinear_constraints.append(obj_lb <= f_lin)","nonlinear_constraints.append(obj_lb >= f_lin)"))
bad('slp-ub',(S,"nonlinear_constraints.append(f_lin <= obj_ub)","nonlinear_constraints.append(p.__rmatmul__(jacx) <= obj_ub)"))
bad('slp-hinge',(S,"obj = cp.sum(cp.pos(f_lin))","obj = cp.sum(cp.pos(-f_lin))"))
bad('slp-conub',(S,"conx + p.__rmatmul__(congradx) <= con_ub )","conx + p.__rmatmul__(congradx) <= con_lb )"))
bad('slp-dom',(S,"domain._build_constraints(x + p)","domain._build_constraints(p)"))
bad('slp-drop',(S,"active_constraints = nonlinear_constraints + domain_constraints + search_step_constraints","active_constraints = nonlinear_constraints + domain_constraints"))
bad('gp-diag',(G,"			return np.diag(np.exp(ell))	","			return np.diag(ell)"))
bad('gp-scalar',(G,"			return np.exp(ell)*self.Lfixed","			return np.exp(ell)*np.eye(self.m)"))
bad('gp-tril',(G,"			self.tril_ij = [ (i,j) for i, j in zip(*np.tril_indices(m)) if i >= (m - rank)]","			self.tril_ij = [ (j,i) for i, j in zip(*np.tril_indices(m)) if i >= (m - rank)]"))
bad('quad-reject',(E,"		assert method in ['auto', 'gauss', 'montecarlo'], \"Invalid method specified\"\n",""))
bad('quad-auto',(E,"			if q > 1: method = 'gauss'","			if q > 3: method = 'gauss'"))
bad('quad-vol',(E,"			w *= vol\n","			pass\n"))
bad('quad-w',(E,"w = np.prod(W, axis = 1)","w = np.sum(W, axis = 1)"))
bad('quad-order',(E,"Ws = np.meshgrid(*ws)","Ws = np.meshgrid(*ws, indexing = 'ij')"))
bad('gauss',(Q,"w = 2*ev[0,:]**2","w = 2*ev[:,0]**2"))
bad('duu',(D,"			return float(np.percentile(y_rand.flatten(), 100.*self.prob))","			return float(np.percentile(y_rand.flatten(), 100.*(1.-self.prob)))"))
bad('study',(T,"			sdr.fit(grads = grads)","			sdr.fit(X = X, fX = fun(X))"))
bad('opg',(O,"-1./(max(X.shape[1], 3) +6)","-1./(max(X.shape[1], 3) +4)"))
bad('ll',(LL,"beta = 0.5*bandwidth","beta = 2*bandwidth"))
bad('bore',(B,"			domain = build_borehole_uncertain_domain()","			domain = build_borehole_domain()"))
bad('assert-pa',(Y,"		assert basis in ['arnoldi', 'legendre', 'monomial', 'chebyshev', 'laguerre', 'hermite']\n		self","		self"),(Y,"		elif self.basis_name == 'hermite':","		else:"))
bad('assert-bound',(R,"		assert bound in [None, 'lower', 'upper'], \"Invalid bound specified\"\n",""),(R,"		elif self.bound == 'upper':\n			c =","		else:\n			c ="))
quiet('assert-only',(Y,"		assert basis in ['arnoldi', 'legendre', 'monomial', 'chebyshev', 'laguerre', 'hermite']\n		self","		self"))
quiet('table',(R,"		if basis == 'arnoldi':\n			self.Basis = ArnoldiPolynomialBasis\n		elif basis == 'legendre':","		table = {'arnoldi': ArnoldiPolynomialBasis}\n		if basis in table:\n			self.Basis = table[basis]\n		elif basis == 'legendre':"))
quiet('lf',(Y,"			constraint = [residual <= 0]","			constraint = [b >= residual + b]"))
quiet('lf2',(Y,"residual = x.__rmatmul__(A) - b","residual = A @ x - b"))
quiet('cpnorm',(Y,"cp.norm_inf(residual)","cp.norm(residual, 'inf')"))
quiet('pra',(R,"			c = bound_fit(-V, -fX, norm = self.norm)","			c = -bound_fit(V, -fX, norm = self.norm)"))
quiet('diag',(G,"			return np.diag(np.exp(ell))	","			return np.eye(len(ell))*np.exp(ell)"))
quiet('quad',(E,"w = np.prod(W, axis = 1)","w = np.ones(len(W))\n				for k in range(W.shape[1]):\n					w = w*W[:,k]"))
