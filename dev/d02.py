E='psdr/domains/euclidean.py'; LI='psdr/domains/linineq.py'; LQ='psdr/domains/linquad.py'; B='psdr/domains/box.py'; CH='psdr/domains/convexhull.py'; TP='psdr/domains/tensor.py'; N='psdr/domains/normal.py'; PT='psdr/domains/point.py'
CASES=[
('ys','D02','bad',[(E,"return [self.normalize(y) for y in self.ys]","c = self._center()\n\t\treturn [y - c for y in self.ys]")]),
('cls-sign','D02','bad',[(E,"- b + (A @ c) )","- b - (A @ c) )")]),
('hullT','D02','bad',[(CH,"x == alpha @ self._X,","x == alpha @ self._X.T,")]),
('no-eq','D02','bad',[(LQ,"constraints.append( x_norm.__rmatmul__(self.A_eq_norm) == self.b_eq_norm)","pass")]),
('no-ub','D02','bad',[(LQ,"constraints.append( x_norm[I] <= self.ub_norm[I])","pass")]),
('ub-guard-lb','D02','bad',[(LQ,"I = np.isfinite(self.ub_norm)","I = np.isfinite(self.ub_norm) & np.isfinite(self.lb_norm)")]),
('rev-ineq','D02','bad',[(LQ,"constraints.append( x_norm.__rmatmul__(self.A_norm) <= self.b_norm)","constraints.append( x_norm.__rmatmul__(self.A_norm) >= self.b_norm)")]),
('b-unnorm','D02','bad',[(LQ,"x_norm.__rmatmul__(self.A_norm) <= self.b_norm","x_norm.__rmatmul__(self.A_norm) <= self.b")]),
('A-unnorm','D02','bad',[(LQ,"x_norm.__rmatmul__(self.A_norm) <= self.b_norm","x_norm.__rmatmul__(self.A) <= self.b_norm")]),
('A_norm-D','D02','bad',[(E,"return self.A.dot(D)","return self.A.dot(self._normalize_der())")]),
('quad-len','D02','bad',[(LQ,"			elif len(L) == 1:\n				constraints.append( cp.norm(L @ x_norm - L @ y) <= rho)\n","")]),
('quad-break','D02','bad',[(LQ,"			if len(L) > 1:\n				constraints.append( cp.norm( L @ x_norm","			if len(L) > 2:\n				constraints.append( cp.norm( L @ x_norm")]),
('Ls_norm','D02','bad',[(E,"return [ L.dot(D) for L in self.Ls]","return [ D.dot(L) for L in self.Ls]")]),
('closest-x0','D02','bad',[(E,"LD @ x_norm - LD.dot(x0_norm)","LD @ x_norm - LD.dot(x0)")]),
('closest-L','D02','bad',[(E,"LD = L.dot(D)","LD = L")]),
('corner-D','D02','bad',[(E,"obj = D.dot(p).reshape(1,-1) @ x_norm","obj = p.reshape(1,-1) @ x_norm")]),
('corner-min','D02','bad',[(E,"cp.Problem(cp.Maximize(obj), constraints)\n	\n","cp.Problem(cp.Minimize(obj), constraints)\n	\n")]),
('corner-unnorm','D02','bad',[(E,"self._empty = False\n		return self.unnormalize(np.array(x_norm.value).reshape(len(self)))","self._empty = False\n		return np.array(x_norm.value).reshape(len(self))")]),
('closest-inside','D02','bad',[(E,"if self.isinside(x0):\n			self._empty = False\n			return np.copy(x0)","if self.isinside(x0, tol = 1e-2) or L is None:\n			self._empty = False\n			return np.copy(x0)")]),
('no-cons','D02','bad',[(E,"problem = cp.Problem(cp.Minimize(obj), constraints)","problem = cp.Problem(cp.Minimize(obj), constraints[:-1])")]),
('hull-nonneg','D02','bad',[(CH,"constraints = [x_norm == alpha @ self._X_norm, alpha >=0,","constraints = [x_norm == alpha @ self._X_norm, alpha >=-1,")]),
('hull-sum','D02','bad',[(CH,"constraints = [x_norm == alpha @ self._X_norm, alpha >=0, cp.sum(alpha) == 1]","constraints = [x_norm == alpha @ self._X_norm, alpha >=0, cp.sum(alpha) <= 1]")]),
('hull-noextra','D02','bad',[(CH,"		constraints += LinQuadDomain._build_constraints_norm(self, x_norm)\n","")]),
('box-corner','D02','bad',[(B,"I = (p>=0)","I = (p<=0)")]),
('cheb-norm','D02','bad',[(LI,"A @ x + normA * r <= b","A @ x + r <= b")]),
('cheb-sq','D02','bad',[(LI,"normA = np.sqrt( np.sum( np.power(A, 2), axis=1 ) )","normA = ( np.sum( np.power(A, 2), axis=1 ) )")]),
('cheb-eq','D02','bad',[(LI,"		if len(self.A_eq) > 0:\n			constraints += [self.A_eq @ x == self.b_eq]	\n","")]),
('aug-sign','D02','bad',[(E,"np.vstack([self.A, -I[Ilb,:], I[Iub,:]])","np.vstack([self.A, I[Ilb,:], I[Iub,:]])")]),
('aug-lb','D02','bad',[(E,"np.hstack([self.b, -self.lb[Ilb], self.ub[Iub]])","np.hstack([self.b, self.lb[Ilb], self.ub[Iub]])")]),
('tp-slice','D02','bad',[(TP,"constraints.extend(dom._build_constraints_norm(x_norm[I]))","constraints.extend(dom._build_constraints_norm(x_norm[:len(dom)]))")]),
('tp-nonorm','D02','bad',[(TP,"constraints.extend(dom._build_constraints_norm(x_norm[I]))","constraints.extend(dom._build_constraints(x_norm[I]))")]),
('lbnorm-inf','D02','bad',[(E,"I = ~np.isfinite(self.ub)\n		ub_norm[I] = np.inf","I = np.isfinite(self.ub)\n		ub_norm[I] = np.inf")]),
('user-quad','D02','bad',[(LQ,"cp.norm(L @ x - L.dot(y)) <= rho )","cp.norm(L @ x - y) <= rho )")]),
# refactorings
('r-abs','D02','quiet',[(LQ,"constraints.append( x_norm[I] <= self.ub_norm[I])","constraints.append( self.ub_norm[I] - x_norm[I] >= 0)")]),
('r-quad','D02','quiet',[(LQ,"			if len(L) > 1:\n				constraints.append( cp.norm( L @ x_norm - L @ y) <= rho )\n			elif len(L) == 1:\n				constraints.append( cp.norm(L @ x_norm - L @ y) <= rho)\n","			constraints.append( cp.norm( L @ (x_norm - y)) <= rho )\n")]),
('r-idx','D02','quiet',[(LQ,"		for L, y, rho in zip(self.Ls_norm, self.ys_norm, self.rhos_norm):\n","		Ls, ys, rhos = self.Ls_norm, self.ys_norm, self.rhos_norm\n		for k in range(len(Ls)):\n			L, y, rho = Ls[k], ys[k], rhos[k]\n")]),
('r-helper','D02','quiet',[(E,"			return self.unnormalize(np.array(x_norm.value).reshape(len(self)))\n		else:","			x = self._to_user(x_norm)\n			return x\n		else:"),(E,"	def corner(self, p,","	def _to_user(self, var):\n		xn = np.array(var.value).reshape(len(self))\n		return self.unnormalize(xn)\n\n	def corner(self, p,")]),
('r-sq','D02','quiet',[(E,"obj = cp.norm(LD @ x_norm - LD.dot(x0_norm))","obj = cp.sum_squares(LD @ (x_norm - x0_norm))")]),
('r-cheb','D02','quiet',[(LI,"normA = np.sqrt( np.sum( np.power(A, 2), axis=1 ) ).reshape((A.shape[0], ))","normA = np.linalg.norm(A, axis = 1)")]),
('r-minneg','D02','quiet',[(LI,"problem = cp.Problem(cp.Maximize(r), constraints)","problem = cp.Problem(cp.Minimize(-r), constraints)")]),
('r-mat','D02','quiet',[(LQ,"constraints.append( x_norm.__rmatmul__(self.A_norm) <= self.b_norm)","constraints.append( self.A_norm @ x_norm <= self.b_norm)")]),
('r-der','D02','quiet',[(E,"		slope[I] = (self.norm_ub[I] - self.norm_lb[I])/2.0\n		return np.diag(slope)","		width = self.norm_ub[I] - self.norm_lb[I]\n		slope[I] = 0.5*width\n		return np.diag(slope)")]),
('r-list','D02','quiet',[(LI,"			constraints += [self.A_eq @ x == self.b_eq]	","			constraints.append(self.A_eq @ x - self.b_eq == 0)")]),
('r-corner','D02','quiet',[(E,"		if len(self) > 1:\n			obj = D.dot(p).reshape(1,-1) @ x_norm\n		else:\n			obj = x_norm*float(D.dot(p))\n","		obj = (D @ p) @ x_norm\n")]),
('r-boxcorner','D02','quiet',[(B,"		x = np.copy(self.lb)\n		I = (p>=0)\n		x[I] = self.ub[I]\n","		x = np.where(p >= 0, self.ub, self.lb)\n")]),
('r-tp','D02','quiet',[(TP,"			constraints.extend(dom._build_constraints_norm(x_norm[I]))","			constraints += dom._build_constraints_norm(x_norm[I])")]),
]
