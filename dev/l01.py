CASES=[]
L='psdr/lipschitz.py'; P='psdr/lipschitz_partial.py'; A='psdr/lipschitz_approx.py'
def bad(n,*e): CASES.append((n,'L01','bad',list(e)))
def quiet(n,*e): CASES.append((n,'L01','quiet',list(e)))
bad('scale-eps',(L,"epsilon = self.epsilon/scale","epsilon = self.epsilon"))
bad('scale-h',(L,"self._H = scale**2 * U.dot","self._H = scale * U.dot"))
bad('scale-l',(L,"self._L = scale * U.dot(np.diag(np.sqrt","self._L = scale**2 * U.dot(np.diag(np.sqrt"))
bad('no-sqrt',(L,"self._L = scale * U.dot(np.diag(np.sqrt(np.maximum(ew, 0)))","self._L = scale * U.dot(np.diag((np.maximum(ew, 0)))"))
bad('opt-noabs',(L,"				if np.abs(fX[i] - fX[j]) > epsilon:","				if fX[i] - fX[j] > epsilon:"))
bad('opt-noeps',(L,"hs.append(cvxopt.matrix( [[ -(max(np.abs(fX[i] - fX[j]) - epsilon,0))**2/p_norm**2]]))","hs.append(cvxopt.matrix( [[ -(max(np.abs(fX[i] - fX[j]),0))**2/p_norm**2]]))"))
bad('opt-pnorm',(L,"epsilon,0))**2/p_norm**2]]))","epsilon,0))**2/p_norm]]))"))
bad('opt-range',(L,"		for i in range(len(X)):\n			for j in range(i+1,len(X)):\n				if np.abs","		for i in range(len(X)):\n			for j in range(i+2,len(X)):\n				if np.abs"))
bad('opt-sign',(L,"			gg = -np.outer(grad, grad)","			gg = np.outer(grad, grad)"))
bad('opt-half',(L,"				for j in range(i+1,len(self)):\n					ej = I[:,j]\n					Es.append(0.5*np.outer(ei+ej,ei+ej))\n		elif","				for j in range(i+1,len(self)):\n					ej = I[:,j]\n					Es.append(np.outer(ei+ej,ei+ej))\n		elif"),(L,"c = cvxopt.matrix(np.array([ np.trace(E) for E in Es]))","c = cvxopt.matrix(np.array([ 1. for E in Es]))"))
bad('opt-basis',(L,"			for i in range(len(self)):\n				ei = I[:,i]\n				Es.append(np.outer(ei,ei))\n				for j in range(i+1,len(self)):\n					ej = I[:,j]\n					Es.append(0.5*np.outer(ei+ej,ei+ej))\n		elif","			for i in range(len(self)):\n				ei = I[:,i]\n				Es.append(np.outer(ei,ei))\n				for j in range(i+2,len(self)):\n					ej = I[:,j]\n					Es.append(0.5*np.outer(ei+ej,ei+ej))\n		elif"))
bad('param-sq',(L,"b[row] = (max(np.abs(fX[i] - fX[j]) - epsilon, 0))**2","b[row] = max((fX[i] - fX[j])**2 - epsilon**2, 0)"))
bad('param-row',(L,"				row += 1\n\n		# Remove","			row += 1\n\n		# Remove"))
bad('param-inactive',(L,"		A = A[b!= 0]\n","		A = A[b > np.mean(b)]\n"),(L,"		b = b[b!= 0]\n","		b = b[b > np.mean(b)]\n"))
bad('param-status',(L,"		problem = cp.Problem(cp.Minimize(cp.sum(alpha)), constraints)\n		problem.solve(**self.kwargs)\n		if problem.status not in ['optimal', 'optimal_inaccurate']:","		problem = cp.Problem(cp.Minimize(cp.sum(alpha)), constraints)\n		problem.solve(**self.kwargs)\n		if problem.status in ['unbounded']:"))
bad('cvxpy-grad',(L,"constraints.append( np.outer(g,g) << H)","constraints.append( np.outer(g,g) >> H)"))
bad('cvxpy-obj',(L,"problem = cp.Problem(cp.Minimize(cp.trace(H)), constraints)","problem = cp.Problem(cp.Minimize(cp.sum(H)), constraints)"))
bad('cvxpy-pair',(L,"				if lhs > 0:\n					constraints.append(lhs <= rhs)","				if lhs > epsilon:\n					constraints.append(lhs <= rhs)"))
bad('param-grad-first',(L,"		for grad in grads:\n			constraints.append( H >> np.outer(grad, grad))","		for grad in grads[:1]:\n			constraints.append( H >> np.outer(grad, grad))"))
bad('diag-scale',(L,"self._H = scale**2 * H\n","self._H = scale * H\n"))
bad('scale-shared',(L,"U = self._fix_subspace_signs(U, X, fX/scale, grads/scale)\n		self._U = U	\n","U = self._fix_subspace_signs(U, X, fX/scale, grads/scale)\n		ew = np.abs(ew)[::-1]\n		self._U = U	\n"))
bad('part-alpha',(P,"rhs = cp.quad_form(UTy, J) + alpha*","rhs = cp.quad_form(UTy, J) + 2*alpha*"))
bad('part-perp',(P,"			rhs = (J.__rmatmul__(U)).__matmul__(U.T) + alpha*Pperp","			rhs = (J.__rmatmul__(U)).__matmul__(U.T) + alpha*np.eye(m)"))
bad('part-obj',(P,"		obj = cp.trace(J) + alpha*(m-r)\n","		obj = cp.trace(J) + alpha\n") if False else (P,"alpha *= scale**2","alpha *= scale"))
bad('part-eps',(P,"				lhs = max(np.abs(fX[i] - fX[j]) - epsilon, 0)**2\n","				lhs = max(np.abs(fX[i] - fX[j])**2 - epsilon, 0)\n"))
bad('part-L',(P,"np.sqrt(np.maximum(JJdiag, 0))","np.maximum(JJdiag, 0)"))
bad('const-eps',(L,"		epsilon = scale*epsilon\n","") if False else (L,"if len(grads) > 0:\n			L_grad = np.max","if len(grads) > 1:\n			L_grad = np.min"))
bad('const-H',(L,"return self._L**2 * np.eye","return self._L * np.eye"))
bad('compat-abs',(A,"constraints = [cp.abs(y[I] - y[J]) <= rhs]","constraints = [y[I] - y[J] <= rhs]"))
bad('compat-k',(A,"np.tril_indices(len(X), k=1)","np.tril_indices(len(X), k=-2)"))
bad('compat-L',(A,"(L @ (X[I]","(L.T @ (X[I]"))
bad('compat-norm',(A,"obj = cp.norm(y - fX, norm)","obj = cp.norm(y - fX)"))
quiet('pairs-combos',(L,"		for i in range(len(X)):\n			for j in range(i+1,len(X)):\n				if np.abs(fX[i] - fX[j]) > epsilon:\n","		for i, j in combinations(range(len(X)), 2):\n				if epsilon < np.abs(fX[j] - fX[i]):\n"))
quiet('cvxpy-quad',(L,"				rhs = cp.quad_form(y, H)\n","				rhs = cp.trace(np.outer(y, y) @ H)\n"))
quiet('h-from-l',(L,"self._H = scale**2 * U.dot(np.diag(np.maximum(ew,0)).dot(U.T))","D = np.diag(np.maximum(ew, 0)*scale**2)\n		self._H = (U @ D) @ U.T"))
quiet('opt-nonorm',(L,"p_norm = np.linalg.norm(p)	","p_norm = 1."))
quiet('compat-loop',(A,"constraints = [cp.abs(y[I] - y[J]) <= rhs]","constraints = [y[I] - y[J] <= rhs, y[J] - y[I] <= rhs]"))
quiet('compat-k0',(A,"np.tril_indices(len(X), k=1)","np.triu_indices(len(X), k=1)"))
quiet('const-loop',(L,"L_grad = np.max([np.linalg.norm(grad) for grad in grads])","L_grad = max(np.sqrt(np.sum(g**2)) for g in grads)"))
