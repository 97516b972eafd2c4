CASES=[]
S='psdr/sample/'; F='psdr/function.py'; SU='psdr/subspace.py'
def bad(p,n,*e): CASES.append((n,p,'bad',list(e)))
# F01
bad('F01','eval-flat-first',(F,"return np.hstack([fun(x, **kwargs) for fun in self._funs]).flatten()","return np.hstack([fun(x, **self.kwargs) for fun in self._funs]).flatten()"))
bad('F01','vec-single',(F,"fX[i] = fXi.reshape(len(X),1)","fX[i] = fXi.reshape(1,-1) if len(X) == 1 else fXi.reshape(len(X),1)"))
bad('F02','fd-norm',(F,"(self.eval(x + h*ei, **kwargs) - fx)/h","(self.eval(x + h*ei, **kwargs) - self.eval(x - h*ei, **kwargs))/h"))
bad('F02','D-notrans',(F,"			grads = grads.dot(D.T)\n			return self._shape_grad(X_norm, grads)\n\n		elif","			grads = grads.dot(np.linalg.pinv(D.T))\n			return self._shape_grad(X_norm, grads)\n\n		elif"))
bad('F02','async-D',(F,"(fx, grad @ D.T)","(fx, grad)"))
# S01
bad('S01','signs-abs',(SU,"sgn[sgn == 0] = 1\n		return U.dot(np.diag(np.sign(sgn)))","return U.dot(np.diag(np.sign(sgn)))"))
bad('S01','signs-small',(SU,"if np.abs(denom) > 0:","if denom > 0:"))
bad('S01','coord-asc',('psdr/coord.py',"np.argsort(-self.score)","np.argsort(self.score)[::-1]"))
bad('S01','econ',(SU,"scipy.linalg.svd(np.sqrt(self._weights)*self._grads.T)","scipy.linalg.svd(self._weights*self._grads.T)"))
# P01
bad('P01','env-h',(SU,"yy[0] + (j+1)*h - y","yy[0] + j*h - y"))
bad('P01','dim2',(SU,"Y[:,0], Y[:,1]","Y[:,1], Y[:,0]"))
# A01
bad('A01','po-scale',(S+'poisson.py',"p /= np.linalg.norm(L.dot(p))","p /= np.linalg.norm(p)"))
bad('A01','po-inside',(S+'poisson.py',"			if domain.isinside(xc):\n				d = cdist","			if domain.isinside(X[i]):\n				d = cdist"))
bad('A01','lhs-count',(S+'latin.py',"xi = np.linspace(domain.norm_lb[i], domain.norm_ub[i], N+1)\n		xi = np.random","xi = np.linspace(domain.norm_lb[i], domain.norm_ub[i], N)\n		xi = np.random"))
bad('A01','lhs-best',(S+'latin.py',"score > score_best","score < score_best"))
bad('A01','coffee-min',(S+'maximin_coffeehouse.py',"d = np.min(D, axis= 0)","d = np.max(D, axis= 0)"))
bad('A01','coffee-N',(S+'maximin_coffeehouse.py',"range(1,N)","range(1,N+1)"))
bad('A01','seq-arg',(S+'seqmaximin.py',"i = np.argmax(score_I)","i = np.argmax(score_Ls)"))
bad('A01','gauss-w',('psdr/quadrature.py',"w = 2*ev[0,:]**2","w = 2*ev[:,0]**2"))
bad('A01','gauss-x',('psdr/quadrature.py',"x = a + (b-a)/2.*(1. + x)","x = a + (b-a)*(1. + x)"))
bad('A01','fill-axis',('psdr/geometry/fill.py',"np.max(np.min(D, axis = 0))","np.max(np.min(D, axis = 1))"))
# G01
bad('G01','stretch-pop',(S+'stretch.py',"Ls = Ls.copy()","pass"))
bad('G01','weights-store',(SU,"self._weights = np.array(weights)","self._weights = weights; self._weights /= np.sum(self._weights)"))
# G03
bad('G03','coffee-print',(S+'maximin_coffeehouse.py',"			printer.print_iter(it = j, dist = d[k])","			printer.print_iter(it = j, dist = d[k])\n			X0 = domain.sample(N0)"))
# G02
bad('G02','poisson-rs',(S+'poisson.py',"ri = np.random.uniform(r,2*r)","ri = np.random.RandomState(len(X)).uniform(r,2*r)"))
# G05
bad('G05','stretch-err',(SU,"if prob.status not in ['optimal', 'optimal_inaccurate']:\n			raise SolverError(\"CVXPY exited with status '%s'\" % prob.status)\n		lb","if prob.status not in ['optimal', 'optimal_inaccurate', 'infeasible']:\n			raise SolverError(\"CVXPY exited with status '%s'\" % prob.status)\n		lb"))
# R01
bad('R01','latin-box',(S+'latin.py',"return projection_sample(domain, N, None, maxiter = maxiter, _lhs = True)","return projection_sample(domain, N, None, maxiter = maxiter)"))
