CASES=[]
D='psdr/domains/'; E=D+'euclidean.py'; LQ=D+'linquad.py'; CH=D+'convexhull.py'; TP=D+'tensor.py'; LI=D+'linineq.py'
def bad(p,n,*e): CASES.append((n,p,'bad',list(e)))
def quiet(p,n,*e): CASES.append((n,p,'quiet',list(e)))
bad('D03','e-quad-abs',(E,"np.max(real_roots)","np.max(np.abs(real_roots))"))
bad('D03','e-quad-min',(E,"alpha = min(alpha, max(0., np.max(real_roots)))","alpha = min(alpha, np.min(real_roots[real_roots > 0])) if np.any(real_roots > 0) else alpha"))
bad('D03','e-lb-skip',(E,"y = (self.lb - x)[I]/p[I]","y = (self.lb - x)[I]/np.abs(p[I])"))
bad('D05','n-der-inf',(E,"c[I] = (self.norm_lb[I] + self.norm_ub[I])/2.","c[I] = (self.lb[I] + self.ub[I])/2."))
bad('D05','n-lbnorm',(E,"lb_norm[I] = -np.inf","lb_norm[I] = -1."))
bad('D05','n-beq',(E,"return self.b_eq - self.A_eq.dot(c)","return self.b_eq + self.A_eq.dot(c)"))
bad('D05','n-bnorm',(E,"return self.b - self.A.dot(c)","return self.b - self.A_norm.dot(c)"))
bad('D02','c-cls',(E,"A @ D @ x_norm - b + A @ c","A @ D @ x_norm - b - A @ c"))
bad('D02','c-dp',(E,"obj = D.dot(p).reshape(1,-1) @ x_norm","obj = p.reshape(1,-1) @ x_norm"))
bad('D02','c-norm-drop',(E,"return self.unnormalize( np.array(x_norm.value).reshape(len(self)) )","return np.array(x_norm.value).reshape(len(self))"))
bad('D01','i-dim',(E,"return np.zeros(X.shape[0],dtype = np.bool)","return np.ones(X.shape[0],dtype = np.bool)"))
bad('D01','i-quad-sq',(E,"(np.sqrt(Ldiff_norm) <= rho + tol)","(Ldiff_norm <= rho + tol)"))
bad('D01','i-eq-signed',(E,"np.all( np.abs(np.dot(self.A_eq, x) - self.b_eq) < tol)","np.all( np.dot(self.A_eq, x) - self.b_eq < tol)"))
bad('D01','lq-int',(LQ,"if isinstance(lb, (int, float)):\n				lb = [lb]","if isinstance(lb, (int, float)):\n				lb = [float(lb)]*len(self)"))
bad('G05','empty-status',(E,"if problem.status in ['infeasible']:\n			self._empty = True\n			raise EmptyDomainException","if problem.status in ['infeasible']:\n			self._empty = True\n			return np.copy(x0)"))
bad('D04','and-A-order',(LQ,"		b = np.hstack([self.b, b])","		b = np.hstack([b, self.b])"))
bad('D04','and-lb',(LQ,"lb = np.maximum(lb, self.lb)","lb = np.minimum(lb, self.lb)"))
bad('D04','and-drop-eq',(LQ,"A_eq = other.A_eq, b_eq = other.b_eq, ",""))
bad('D04','and-only-ineq',(LQ,"elif len(b) > 0 or len(b_eq)>0:","elif len(b) > 0:"))
bad('D04','hull-and-X',(CH,"		lb = np.maximum(lb, self.lb)\n		ub = np.minimum(ub, self.ub)","		lb = np.maximum(lb, self.lb)\n		ub = np.maximum(ub, self.ub)"))
bad('D01','hull-negw',(CH,"alpha, rnorm = nnls(A,b)","alpha = np.linalg.lstsq(A, b, rcond = None)[0]"))
bad('D01','hull-coef-sum',(CH,"b = np.hstack([x_norm, 1])","b = np.hstack([x_norm, 0])"))
bad('D02','hull-sum',(CH,"alpha >=0, cp.sum(alpha) == 1]\n		constraints += LinQuadDomain._build_constraints_norm","alpha >=0, cp.sum(alpha) <= 1]\n		constraints += LinQuadDomain._build_constraints_norm"))
bad('D03','hull-ext-sum',(CH,"cp.sum(self.alpha) == 1","cp.sum(self.alpha) >= 1"))
bad('D03','hull-ext-extra',(CH,"		self.constraints += LinQuadDomain._build_constraints_norm(domain, self.p_norm*self.beta + self.x_norm)","		pass"))
bad('D03','hull-ext-dir',(CH,"self.domain.normalize(x + p) - self.domain.normalize(x)","self.domain.normalize(p)"))
bad('D01','tp-slice',(TP,"			start += len(dom)","			start = len(dom)"))
bad('D01','tp-any',(TP,"inside = inside & dom.isinside","inside = inside | dom.isinside"))
bad('D03','tp-max',(TP,"return min(alpha)","return max(alpha)"))
bad('D05','tp-der',(TP,"np.diag(np.hstack([np.diag(dom._unnormalize_der())","np.diag(np.hstack([np.diag(dom._normalize_der())"))
bad('D04','tp-ys',(TP,"y_tmp[I] = y","y_tmp[:len(y)] = y"))
bad('D04','tp-nohull',(TP,"return LinQuadDomain.add_constraints(self._without_hulls(),","return LinQuadDomain.add_constraints(self,"))
bad('D02','li-cheb-eq',(LI,"if len(self.A_eq) > 0:","if len(self.A_eq) > 1:"))
bad('D02','li-cheb-norm',(LI,"np.sqrt( np.sum( np.power(A, 2), axis=1) )","np.sum( np.power(A, 2), axis=1)"))
bad('D03','li-ext-any',(LI,"not np.all(np.abs(self.A_eq.dot(p)) < self.tol)","not np.any(np.abs(self.A_eq.dot(p)) < self.tol)"))
bad('D05','li-norm-A',(LI,"A = self.A_norm, b = self.b_norm","A = self.A_norm, b = self.b"))
bad('D01','hull-lin-b',(CH,"b = -hull.equations[:,-1]","b = hull.equations[:,-1]"))
bad('D01','hull-lin-eqmean',(CH,"b_eq = np.mean(X @ Qperp, axis =0)","b_eq = np.mean(X, axis = 0) @ Qperp * 0"))
bad('D04','hull-lin-drop',(CH,"Ls = self.Ls, ys = self.ys, rhos = self.rhos)\n		return dom","Ls = None, ys = None, rhos = None)\n		return dom"))
bad('A01','hull-two',(CH,"self._X[0]*alpha + self._X[1]*(1-alpha)","self._X[0]*alpha + self._X[1]*(1+alpha)"))
bad('D02','sweep-ext',(E,"a2 = -self.extent(x, -p)","a2 = -self.extent(x, p)"))
bad('D02','names','x') if 0 else None
