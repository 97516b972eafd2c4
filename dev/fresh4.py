CASES=[]
D='psdr/domains/'; N=D+'normal.py'; LN=D+'lognormal.py'; T=D+'tensor.py'; PO='psdr/poly.py'; OP='psdr/opg.py'; LL='psdr/local_linear.py'; NL='psdr/nonlin.py'; RI='psdr/ridge.py'
def bad(p,n,*e): CASES.append((n,p,'bad',list(e)))
bad('Q01','n-clip',(N,"scipy.stats.chi2.isf(truncate, len(self))","scipy.stats.chi2.isf(truncate, 1)"))
bad('Q01','n-rho',(N,"self._rhos = [np.sqrt(self.clip)]","self._rhos = [self.clip]"))
bad('Q01','n-once',(N,"				I = np.sum(X**2, axis = 1) > self.clip\n				if np.sum(I) == 0:\n					break\n				X[I,:]","				I = np.sum(X**2, axis = 1) > self.clip\n				if np.sum(I) == 0:\n					break\n				X[I,:1] = 0.\n				X[I,:]"))
bad('Q01','n-normcov',(N,"D.dot(self.cov).dot(D.T)","D.dot(self.cov)"))
bad('Q01','n-trunc',(N,"truncate = self.truncate, names = names_norm","names = names_norm"))
bad('Q01','n-upper',(N,"self.Linv.dot(X.T - self.mean.reshape(-1,1))","self.Linv.T.dot(X.T - self.mean.reshape(-1,1))"))
bad('Q01','ln-off',(LN,"D*(self.offset - c)","D*self.offset - c"))
bad('Q01','ln-neg',(LN,"			self._lb, self._ub = self._ub, self._lb","			pass"))
bad('Q01','ln-trunc',(LN,"p /= (1-self.truncate)","p /= (1-self.truncate)**2"))
bad('D05','t-center',(T,"dom.unnormalize(np.zeros(len(dom)))","np.zeros(len(dom))"))
bad('D03','t-extent',(T,"return min(alpha)","return max(alpha)"))
bad('D03','t-extent-x',(T,"dom._extent(x[I], p[I])","dom.extent(x[I], p[I]/np.linalg.norm(p[I]))"))
bad('D04','t-rhos',(T,"y_tmp[I] = y","y_tmp[I] = dom.normalize(y)"))
bad('D04','t-nested',(T,"self._domains.extend(domain.domains)","self._domains.extend(domain.domains[::-1])"))
bad('D02','t-con',(T,"constraints.extend(dom._build_constraints(x[I]))","constraints = constraints or dom._build_constraints(x[I])"))
bad('D01','t-slice',(T,"			start += len(dom)","			start = len(dom)"))
bad('R01','p-bound',(PO,"constraint = [residual <= 0]","constraint = [residual <= 1e-3]"))
bad('R01','p-herm',(PO,"LaguerreTensorBasis(self.degree, X=X)","HermiteTensorBasis(self.degree, X=X)"))
bad('R01','p-2bound',(PO,"if norm == 2 and bound == None:","if norm == 2:"))
bad('F02','p-hess',(PO,"DDf = np.tensordot(DDV, self.coef, axes = (1,0))","DDf = np.tensordot(DDV, self.coef, axes = (1,0)).transpose(0,2,1)*2"))
bad('F01','p-1d',(PO,"return self.V(X.reshape(1,-1)).dot(self.coef).reshape(1)","return self.V(X.reshape(-1,1)).dot(self.coef)[:1]"))
bad('S01','opg-q',(OP,"self._U = self._fix_subspace_signs_grads(self._U, z_grads)","self._U = self._fix_subspace_signs_grads(U, z_grads)"))
bad('S01','opg-std',(OP,"Dinv = np.diag(1./std)","Dinv = np.diag(std)"))
bad('S01','opg-order',(OP,"np.linalg.qr(U, mode = 'reduced')","np.linalg.qr(U[:,::-1], mode = 'reduced')"))
bad('F02','ll-fx',(LL,'sqrt_weights*fX.reshape(-1,1), overwrite_a','fX.reshape(-1,1), overwrite_a'))
bad('F02','ll-slice',(LL,"return A[:,1:]","return A[:,:-1]"))
bad('F02','ll-bw',(LL,'beta = 0.5*bandwidth','beta = -0.5*bandwidth'))
bad('L01','nl-one',(NL,"fdiff + P @ a >= -L * Pnorm","fdiff + P @ a >= L * Pnorm"))
bad('L01','nl-fd',(NL,"np.triu_indices(M, k=1)","np.triu_indices(M-1, k=1)"))
bad('P01','rg',(RI,"ub1 = np.max(Y[:,1])","ub1 = np.max(Y[:,0])"))
bad('P01','rg-x',(RI,"pgf.add('x', xx)","pgf.add('x', Y)"))
