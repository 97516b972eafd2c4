E='psdr/domains/euclidean.py'; LI='psdr/domains/linineq.py'; LQ='psdr/domains/linquad.py'; B='psdr/domains/box.py'; CH='psdr/domains/convexhull.py'; TP='psdr/domains/tensor.py'; PT='psdr/domains/point.py'
CASES=[]
def bad(n,*e): CASES.append((n,'D03','bad',list(e)))
def quiet(n,*e): CASES.append((n,'D03','quiet',list(e)))
bad('max',(E,"alpha = min(alpha, np.min(y[y>0]))	","alpha = min(alpha, np.max(y[y>0]))	"))
bad('overwrite',(E,"		y = (self.lb - x)[I]/p[I]\n		if np.any(y>0):\n			alpha = min(alpha, np.min(y[y>0]))","		y = (self.lb - x)[I]/p[I]\n		if np.any(y>0):\n			alpha = np.min(y[y>0])"))
bad('guard-lb',(E,"if np.any(p[self.lb >= x] < 0)","if np.all(p[self.lb >= x] < 0)"))
bad('guard-lb2',(E,"		if np.any(p[self.lb >= x] < 0):\n			return 0.\n",""))
bad('guard-ineq',(E,"		if np.any(Ap[slack == 0] > 0):\n			return 0.\n",""))
bad('guard-dir',(E,"np.any(Ap[slack == 0] > 0)","np.any(Ap[slack == 0] < 0)"))
bad('guard-over',(E,"np.any(Ap[slack == 0] > 0)","np.any(Ap[slack == 0] != 0)"))
bad('slack-sign',(E,"slack = self.b - np.dot(self.A, x)","slack = np.dot(self.A, x) - self.b"))
bad('quad-b',(E,"b = 2*Lp.T.dot(Lxy)","b = Lp.T.dot(Lxy)"))
bad('quad-rho',(E,"c = Lxy.T.dot(Lxy) - rho**2","c = Lxy.T.dot(Lxy) - rho"))
bad('quad-min',(E,"max(0., np.max(real_roots))","max(0., np.min(real_roots))"))
bad('quad-last',(E,"alpha = min(alpha, max(0., np.max(real_roots)))","alpha = max(0., np.max(real_roots))"))
quiet('quad-pos',(E,"			if len(real_roots) > 0:\n				alpha = min(alpha, max(0., np.max(real_roots)))","			real_roots = real_roots[real_roots > 0]\n			if len(real_roots) > 0:\n				alpha = min(alpha, max(0., np.max(real_roots)))"))
bad('lq-noquad',(LQ,"return min(self._extent_bounds(x, p), self._extent_ineq(x, p), self._extent_quad(x, p))","return min(self._extent_bounds(x, p), self._extent_ineq(x, p))"))
bad('lq-eqany',(LQ,"np.all(np.abs(self.A_eq.dot(p) ) < self.tol)","np.any(np.abs(self.A_eq.dot(p) ) < self.tol)"))
bad('lq-noabs',(LQ,"np.all(np.abs(self.A_eq.dot(p) ) < self.tol)","np.all(self.A_eq.dot(p) < self.tol)"))
bad('li-max',(LI,"return min(self._extent_bounds(x, p), self._extent_ineq(x, p))","return max(self._extent_bounds(x, p), self._extent_ineq(x, p))"))
bad('li-noeq',(LI,"		if self.A_eq.shape[0] > 0 and not np.all(np.abs(self.A_eq.dot(p)) < self.tol):\n			return 0.\n",""))
bad('tp-max',(TP,"return min(alpha)","return max(alpha)"))
bad('tp-slice',(TP,"dom._extent(x[I], p[I])","dom._extent(x[I], p[:len(dom)])"))
bad('tp-first',(TP,"return min(alpha)","return min(alpha[1:])"))
bad('hull-nocon',(CH,"		self.constraints += LinQuadDomain._build_constraints_norm(domain, self.p_norm * self.beta + self.x_norm) \n",""))
bad('hull-bx',(CH,"LinQuadDomain._build_constraints_norm(domain, self.p_norm * self.beta + self.x_norm)","LinQuadDomain._build_constraints_norm(domain, self.x_norm)"))
bad('hull-p',(CH,"self.p_norm.value = self.domain.normalize(x+p)-self.domain.normalize(x)","self.p_norm.value = self.domain.normalize(p)"))
bad('hull-min',(CH,"self.obj = cp.Maximize(self.beta)","self.obj = cp.Minimize(self.beta)"))
bad('hull-nosum',(CH,"self.p_norm * self.beta + self.x_norm,\n			cp.sum(self.alpha) == 1","self.p_norm * self.beta + self.x_norm,\n			cp.sum(self.alpha) <= 1"))
bad('hull-nonneg',(CH,"self.alpha = cp.Variable(len(domain.X), nonneg = True)","self.alpha = cp.Variable(len(domain.X))"))
bad('inf',(E,"y = (self.ub - x)[I]/p[I]\n		if np.any(y>0):","y = (self.ub - x)[I]/p[I]\n		if np.all(y>0):"))
quiet('q-vec',(E,"		y = (self.lb - x)[I]/p[I]\n		if np.any(y>0):\n			alpha = min(alpha, np.min(y[y>0]))","		z = (self.lb[I] - x[I])/p[I]\n		z = z[z > 0]\n		if len(z) > 0:\n			alpha = np.minimum(z.min(), alpha)"))
quiet('q-one',(E,"		if np.any(p[self.lb >= x] < 0):\n			return 0.\n		if np.any(p[self.ub <= x] > 0):\n			return 0.	","		if np.any((p < 0) & (self.lb == x)) or np.any((p > 0) & (x >= self.ub)):\n			return 0.0"))
quiet('q-ineq',(E,"		if np.any(Ap[slack == 0] > 0):\n			return 0.\n","		active = np.isclose(slack, 0, atol = 1e-14)\n		if (Ap[active] > 0).any():\n			return 0.\n"))
quiet('q-ineq2',(E,"		if np.sum(y>0) > 0:\n			alpha = min(alpha, np.min(y[y>0]))","		toward = Ap > 0\n		if np.any(toward):\n			alpha = np.min(slack[toward]/Ap[toward])"))
quiet('q-quad',(E,"			Lp = L.dot(p)\n","			Lp = L @ p\n"),(E,"a = Lp.T.dot(Lp)","a = np.sum(Lp**2)"))
quiet('q-quad2',(E,"for L, y, rho in zip(self.Ls, self.ys, self.rhos):\n			Lp","for i in range(len(self.Ls)):\n			L, y, rho = self.Ls[i], self.ys[i], self.rhos[i]\n			Lp"))
quiet('q-quad3',(E,"alpha = min(alpha, max(0., np.max(real_roots)))","step = max(real_roots)\n				if step < 0:\n					step = 0.\n				alpha = min(step, alpha)"))
quiet('q-lq',(LQ,"return min(self._extent_bounds(x, p), self._extent_ineq(x, p), self._extent_quad(x, p))","steps = [self._extent_quad(x, p), self._extent_bounds(x, p)]\n			steps.append(self._extent_ineq(x, p))\n			return min(steps)"))
quiet('q-lq2',(LQ,"if self.A_eq.shape[0] == 0 or np.all(np.abs(self.A_eq.dot(p) ) < self.tol):","leaves = np.any(np.abs(np.dot(self.A_eq, p)) >= self.tol)\n		if not leaves:"))
quiet('q-tp',(TP,"		alpha = [dom._extent(x[I], p[I]) for dom, I in zip(self.domains, self._slices)]\n		return min(alpha)","		alpha = np.inf\n		for dom, I in zip(self.domains, self._slices):\n			alpha = min(alpha, dom._extent(x[I], p[I]))\n		return alpha"))
quiet('q-hull',(CH,"self.p_norm * self.beta + self.x_norm,","self.x_norm + self.beta * self.p_norm,"))
