CASES=[]
S='psdr/sample/'; V='psdr/geometry/vertex.py'; E='psdr/domains/euclidean.py'; G='psdr/geometry/geometry.py'
def bad(n,*e): CASES.append((n,'A01','bad',list(e)))
def quiet(n,*e): CASES.append((n,'A01','quiet',list(e)))
bad('init-lcs',(S+'initial.py',"cs.T @ alpha","cs.T @ (2*alpha)"))
bad('init-nosel',(S+'initial.py',"	cs = cs[I]","	cs = cs[:np.sum(I)]"))
bad('init-n',(S+'initial.py',"Ldom.sample(Nsamp)","Ldom.sample(Nsamp-1)"))
bad('latin-mid',(S+'latin.py',"(xi[1:]+xi[0:-1])/2.","xi[0:-1]"))
bad('latin-rand',(S+'latin.py',"xi = np.linspace(domain.norm_lb[i], domain.norm_ub[i], N + 1)","xi = np.linspace(domain.norm_lb[0], domain.norm_ub[0], N+1)"))
bad('latin-mm-best',(S+'latin.py',"			X_best = X\n			score_best = score\n","			score_best = score\n		X_best = X\n"))
bad('latin-mm-swap',(S+'latin.py',"perms[I,j] = perms_best[I,i]","perms[I,j] = perms_best[I,j]"))
bad('1d-mm',(S+'maximin.py',"avec = np.linspace(0,1,N)","avec = np.linspace(0,1,N+1)[:N]"))
bad('1d-mini',(S+'minimax.py',"avec = h/2 + h*np.arange(N)","avec = h * np.arange(N)"))
bad('1d-dir',(S+'minimax.py',"	c2 = domain.corner(-L.flatten())","	c2 = domain.corner(-np.abs(L.flatten()))"))
bad('block-mask',(S+'maximin.py',"			mask[i] = False\n","			mask[i-1] = False\n"))
bad('coffee-max',(S+'maximin_coffeehouse.py',"d = np.min(D, axis = 0)","d = np.max(D, axis=0)"))
bad('coffee-L',(S+'maximin_coffeehouse.py',"D = cdist(np.array(Xhat), X, L = L)","D = cdist(np.array(Xhat), X)"))
bad('poisson-in',(S+'poisson.py',"			if domain.isinside(xc):","			if domain.isinside(X[i]):"))
bad('poisson-r',(S+'poisson.py',"if np.min(d) > r:","if np.min(d) > r/2:"))
bad('poisson-lx',(S+'poisson.py',"d = cdist(L.dot(xc).reshape(1,-1), LX)","d = cdist(L.dot(xc).reshape(1,-1), LX[-1:])"))
bad('sobol-in',(S+'sobol.py',"X[domain.isinside(X)]","X[domain.isinside(X)] if len(Xsamp) else X"))
bad('sobol-skip',(S+'sobol.py',"		skip += n\n","		skip += 1\n"))
bad('sobol-n',(S+'sobol.py',"return Xsamp[0:n]","return Xsamp"))
bad('cluster-dom',(S+'minimax.py',"solver_opts = solver_opts, domain = domain) for i in range(N)]","solver_opts = solver_opts) for i in range(N)]"))
bad('cluster-best',(S+'minimax.py',"return best_Xhat","return Xhat"))
bad('pso-w',(S+'minimax.py',"A1 = a1*np.random.uniform(size = (N, 1))","A1 = a1*np.random.uniform(size = Xhat_new.shape)"),(S+'minimax.py',"A2 = a2*np.random.uniform(size = (N, 1))","A2 = a2*np.random.uniform(size = Xhat_new.shape)"),(S+'minimax.py',"A3 = a3*np.random.uniform(size = (N, 1))","A3 = a3*np.random.uniform(size = Xhat_new.shape)"),(S+'minimax.py',"A4 = a4*np.random.uniform(size = (N, 1))","A4 = a4*np.random.uniform(size = Xhat_new.shape)"))
bad('pso-sum',(S+'minimax.py',"A_sum = A1 + A2 + A3 + A4","A_sum = A1 + A2 + A3"))
bad('covering-r',(S+'minimax.py',"minimax_covering_discrete(X, r/2.,","minimax_covering_discrete(X, r,"))
bad('covering-gt',(S+'minimax.py',"D < r","D > r"))
bad('lloyd-dom',(S+'minimax_lloyd.py',"	constraints = domain._build_constraints(x)","	constraints = domain._build_constraints(c)"))
bad('lloyd-n',(S+'minimax_lloyd.py',"Xhat = maximin_block(domain, M,","Xhat = maximin_block(domain, M+1,"))
bad('scale-c',(S+'minimax_scale.py',"+ domain.center","+ np.mean(Xhat, axis = 0)"))
bad('scale-b',(S+'minimax_scale.py',"bounds =[0,1]","bounds =[0,2]"))
bad('scale-nob',(S+'minimax_scale.py',"bounds =[0,1], ",""))
bad('seq-max',(S+'seqmaximin.py',"return Xcan[i]","return Xcan"))
bad('seq-rec',(S+'sample.py',"fXnew = self._fun.eval(np.array(Xnew))","fXnew = self._fun.eval(np.array(Xnew[::-1]))"))
bad('vertex-filter',(V,"	V = V[I]\n	return V","	return V"))
bad('vs-alpha',(V,"alpha = np.minimum(alpha, alpha_c)\n\n		#","alpha = np.maximum(alpha, alpha_c)\n\n		#"))
bad('vs-eq',(V,"nullspace = [domain.A_eq.T]","nullspace = [domain.A_eq[:0].T]"))
bad('vs-neg',(V,"alpha_c[alpha_c <= 0] = np.inf","alpha_c[alpha_c <= 1] = np.inf"))
bad('grid-all',(E,"return Xgrid[I]","return Xgrid"))
bad('bnd',(E,"X = np.array([self.corner(d) for d in dirs])","X = np.array([self.center + d for d in dirs])"))
bad('hr-close',(E,"self._hit_and_run_state = self.closest_point(self._hit_and_run_state + alpha*p)","self._hit_and_run_state = self._hit_and_run_state + alpha*p"))
bad('hr-draw',(E,"for i in I[0:draw]]","for i in I[0:draw+1]]"))
bad('quad-w',(E,"w = w[I]	","w = w[:len(X)]	"))
bad('quad-mesh',(E,"Ws = np.meshgrid(*ws)","Ws = np.meshgrid(*ws, indexing = 'ij')"))
bad('quad-vol',(E,"w *= vol","w = w"))
bad('simplex',(G,"r = np.sort(r, axis = 1)","r = np.sort(r, axis = 0)"))
bad('proj-ls',(S+'projection.py',"X = np.vstack([consubdom.sample() for consubdom in consubdoms])","X = np.vstack([Lall.T @ (Lall @ x) for x in X])"))
bad('proj-lhs',(S+'projection.py',"avec = np.linspace(0, 1, Nsamp+1)\n			avec = 0.5*(avec[1:] + avec[0:-1])","avec = np.linspace(0, 1, Nsamp)"))
bad('bisect',(S+'minimax.py',"		if f3*f1 > 0:","		if f3 * f2 < 0 and f3 < f1 or f3*f2 > 0:"))
bad('cover-T',(S+'minimax.py',"Y = (L @ X.T).T\n	def maximin","Y = (L.T @ X.T).T\n	def maximin"))
bad('fill-axis',('psdr/geometry/fill.py',"np.max(np.min(D, axis= 0))","np.max(np.min(D, axis= 1))"))
bad('chull-2',('psdr/domains/convexhull.py',"self._X[1]*(1-alpha)","self._X[1]*(1+alpha)"))
quiet('q-init',(S+'initial.py',"X[i] = cs.T @ alpha","X[i] = alpha @ cs"))
quiet('q-1d',(S+'maximin.py',"	X = np.array([a*c1 + (1-a)*c2 for a in avec])","	X = np.array([c2 + a*(c1 - c2) for a in avec])"))
quiet('q-sobol',(S+'sobol.py',"		if Xsamp.shape[0] >= n:	\n			break\n","		if len(Xsamp) < n:\n			continue\n		break\n"))
quiet('q-scale',(S+'minimax_scale.py',"return alpha*(Xhat - np.outer(np.ones(M), domain.center)) + domain.center","c = domain.center\n		return c + (Xhat - c)*alpha"))
quiet('q-quad',(E,"				I = self.isinside(X)\n				X = X[I]\n				w = w[I]","				keep = self.isinside(X)\n				w = w[keep]\n				X = X[keep]"))
quiet('q-coffee',(S+'maximin_coffeehouse.py',"k = np.argmax(d)","k = np.argsort(-d)[0]"))
