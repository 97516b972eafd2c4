CASES=[]
G='psdr/gp.py'
def bad(n,*e): CASES.append((n,'K01','bad',list(e)))
def quiet(n,*e): CASES.append((n,'K01','quiet',list(e)))
bad('half',(G,"K = np.exp(-0.5*squareform(dij))","K = np.exp(-squareform(dij))"))
bad('half-pred',(G,"		K = np.exp(-0.5*dij)\n","		K = np.exp(-dij)\n"))
bad('metric',(G,"dij = cdist(Ynew, Y, 'sqeuclidean')","dij = cdist(Ynew, Y)"))
bad('nugget-A',(G,"np.hstack([K + self.nugget*np.eye(K.shape[0]), self.V])","np.hstack([K, self.V])"))
bad('nugget-K',(G,"scipy.linalg.eigh(K + self.nugget*np.eye(K.shape[0]))","scipy.linalg.eigh(K)"))
bad('alpha-beta',(G,"		beta = x[M:]\n","		beta = -x[M:]\n"))
bad('b-sign',(G,"(1./ewA[I])*np.dot","(1./np.abs(ewA[I]))*np.dot"))
bad('ew-pos',(G,"I = (np.abs(ewA) > 5*np.finfo(float).eps)","I = (ewA > 5*np.finfo(float).eps)"))
bad('logdet',(G,"0.5*np.sum(np.log(ew))","np.sum(np.log(ew))"))
bad('grad-trace',(G,"grad[k] = 0.5*np.trace(Kinv_dK)","grad[k] = np.trace(Kinv_dK)"))
bad('grad-alpha',(G,"grad[k] -= 0.5*np.dot(alpha","grad[k] += 0.5*np.dot(alpha"))
bad('grad-diag',(G,"(Y[i,k] - Y[:,k])*(Y[i,el] - Y[:,el])","(Y[i,k] - Y[:,k])*(X[i,el] - X[:,el])"))
bad('grad-const',(G,"dK = -(squareform(dij)*K)","dK = -0.5*(squareform(dij)*K)"))
bad('grad-nugget',(G,"dK = -(squareform(dij)*K)","dK = -(squareform(dij)*(K+self.nugget))"))
bad('grad-tril-dY',(G,"dY = np.dot(dL, X.T).T","dY = np.dot(dL.T, X.T).T"))
bad('grad-tril-idx',(G,"eidx[idx] = 1.","eidx[-1-idx] = 1."))
bad('kinv',(G,"(np.dot(ev.T,dK[:,:,k]).T/ew).T)","(np.dot(ev.T,dK[:,:,k])/ew))"))
bad('tril-flat',(G,"[ i*m + j for i,j in self.tril_ij]","[ j*m + i for i,j in self.tril_ij]"))
bad('fit-L',(G,"		self.L = self._make_L(ell)\n","		self.L = self._make_L(ell0)\n"))
bad('fit-alpha',(G,"self._log_marginal_likelihood(ell, \n			return_obj = False, return_grad = False, return_alpha_beta = True)","self._log_marginal_likelihood(ell0, \n			return_obj = False, return_grad = False, return_alpha_beta = True)"))
bad('pred-V',(G,"np.dot(K, self.alpha) + np.dot(V, self.beta)","np.dot(K, self.alpha)"))
bad('pred-X',(G,"V = self.basis.V(Xnew)","V = self.basis.V(self.X)"))
bad('pred-L',(G,"Ynew = np.dot(self.L, Xnew.T).T","Ynew = np.dot(self.L.T, Xnew.T).T"))
bad('cov-clip',(G,"cov[cov< 0] = 0.","cov[cov< -1] = 0."))
bad('cov-z',(G,"1 - np.dot(K[i,:], z[:,i])","1 - np.dot(K[0,:], z[:,i])"))
bad('cov-sq',(G,"np.diag(1./ew[I])","np.diag(1./ew[I]**2)"))
bad('scalar-fixed',(G,"np.exp(ell)*self.Lfixed","np.exp(ell)*self.Lfixed.T"))
bad('diag-noexp',(G,"np.diag(np.exp(ell))","np.diag(ell)"))
bad('degree-V',(G,"self.basis = LegendreTensorBasis(self.degree, X = X)","self.basis = LegendreTensorBasis(max(self.degree-1,0), X = X)"))
bad('ell-init',(G,"ell0 = np.array([L0[i,j] for i, j in self.tril_ij])","ell0 = L0.flatten()"))
quiet('q-solve-order',(G,"x = np.dot(evA[:,I],(1./ewA[I])*np.dot(evA[:,I].T,b))","c = np.dot(evA[:,I].T, b)\n		c = c/ewA[I]\n		x = evA[:,I] @ c"))
quiet('q-kt',(G,"		A = np.vstack([np.hstack([K + self.nugget*np.eye(K.shape[0]), self.V])","		KT = K + self.nugget*np.eye(M)\n		A = np.vstack([np.hstack([KT, self.V])"),(G,"scipy.linalg.eigh(K + self.nugget*np.eye(K.shape[0]))","scipy.linalg.eigh(KT)"))
quiet('q-trace',(G,"			Kinv_dK = np.dot(ev, (np.dot(ev.T,dK[:,:,k]).T/ew).T)\n			grad[k] = 0.5*np.trace(Kinv_dK)","			grad[k] = 0.5*np.sum(np.diag(ev.T @ dK[:,:,k] @ ev)/ew)"))
quiet('q-solve',(G,"x = np.dot(evA[:,I],(1./ewA[I])*np.dot(evA[:,I].T,b))","x = np.linalg.solve(A, b)"))
quiet('q-slog',(G,"0.5*np.sum(np.log(ew))","0.5*np.linalg.slogdet(K + self.nugget*np.eye(M))[1]"))
quiet('q-dk',(G,"dK = -(squareform(dij)*K).reshape(M,M,1)","dK = np.zeros((M,M,1))\n			dK[:,:,0] = -squareform(dij)*K"))
quiet('q-loop',(G,"cov = np.array([ 1 - np.dot(K[i,:], z[:,i]) for i in range(Xnew.shape[0])])\n			cov[cov< 0] = 0.","cov = np.maximum(1 - np.sum(K*z.T, axis = 1), 0.)"))
quiet('q-jac',(G,"		ell = res.x\n","		best = res.x\n		ell = best\n"))
