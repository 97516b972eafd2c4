E='psdr/domains/euclidean.py'; LI='psdr/domains/linineq.py'; LQ='psdr/domains/linquad.py'; B='psdr/domains/box.py'; CH='psdr/domains/convexhull.py'; TP='psdr/domains/tensor.py'; N='psdr/domains/normal.py'; PT='psdr/domains/point.py'
CASES=[
('drop-eq','D01','bad',[(LI,"& self._isinside_eq(X, tol = tol)",'')]),
('drop-quad-hull','D01','bad',[(CH,"inside &= self._isinside_quad(X, tol = tol)",'pass')]),
('rev-tol-ub','D01','bad',[(E,"self.ub[i] + tol","self.ub[i] - tol")]),
('any','D01','bad',[(E,"np.all(np.dot(self.A, x)","np.any(np.dot(self.A, x)")]),
('noabs','D01','bad',[(E,"np.abs(np.dot(self.A_eq, x) - self.b_eq)","(np.dot(self.A_eq, x) - self.b_eq)")]),
('wrong-guard','D01','bad',[(E,"if np.isfinite(self.ub[i]):\n\t\t\t\tub_check","if np.isfinite(self.lb[i]):\n\t\t\t\tub_check")]),
('loop-short','D01','bad',[(E,"for i in range(len(self)):\n\t\t\tif np.isfinite(self.lb[i]):\n\t\t\t\tlb","for i in range(len(self)-1):\n\t\t\tif np.isfinite(self.lb[i]):\n\t\t\t\tlb")]),
('quad-overwrite','D01','bad',[(E,"inside = inside & (np.sqrt(Ldiff_norm) <= rho + tol)","inside = (np.sqrt(Ldiff_norm) <= rho + tol)")]),
('quad-nosqrt','D01','bad',[(E,"(np.sqrt(Ldiff_norm) <= rho + tol)","(Ldiff_norm <= rho + tol)")]),
('quad-center','D01','bad',[(E,"np.tile(y.reshape(1,-1)","np.tile(-y.reshape(1,-1)")]),
('prod-or','D01','bad',[(TP,"inside = inside & dom.isinside","inside = inside | dom.isinside")]),
('prod-slice','D01','bad',[(TP,"start += len(dom)","start = len(dom)")]),
('normal-mean','D01','bad',[(N,"self._ys = [np.copy(self.mean)]","self._ys = [np.zeros(len(self))]")]),
('normal-L','D01','bad',[(N,"self._Ls = [np.copy(self.Linv) ]","self._Ls = [np.copy(self.L)]")]),
('normal-clip','D01','bad',[(N,"self._rhos = [np.sqrt(self.clip)]","self._rhos = [self.clip]")]),
('box-tol','D01','bad',[(E,"self.lb[i] - tol","self.lb[i] - 2*TOL")]),
('ineq-data','D01','bad',[(E,"<= self.b + tol","<= np.abs(self.b) + tol")]),
('point-any','D01','bad',[(PT,"np.all(X == Pcopy, axis = 1)","np.any(X == Pcopy, axis = 1)")]),
('shortcut','D01','bad',[(LQ,"def _isinside(self, X, tol = TOL):","def _isinside(self, X, tol = TOL):\n\t\tif len(self._Ls) > 0:\n\t\t\treturn self._isinside_bounds(X, tol=tol) & self._isinside_quad(X, tol=tol)\n")]),
('hull-cone','D01','bad',[(CH,"b = np.hstack([x_norm, 1])","b = np.hstack([x_norm, 0])")]),
('hull-frac','D01','bad',[(CH,"rnorm = np.linalg.norm( xi - self._X.T.dot(alpha))","rnorm = np.linalg.norm( xi - self._X.T.dot(alpha/np.sum(alpha)))")]),
('rhos-init','D01','bad',[(LQ,"_rhos.append(rho)","_rhos.append(rho**2)")]),
# refactorings
('r-vec-bounds','D01','quiet',[(E,"lb_check = np.ones(len(X), dtype = np.bool)","return np.all((X >= self.lb - tol) & (X <= self.ub + tol), axis = 1)\n\t\tlb_check = np.ones(len(X), dtype = np.bool)")]),
('r-vec-ineq','D01','quiet',[(E,"return np.array([np.all(np.dot(self.A, x)","return np.all(X @ self.A.T <= self.b + tol, axis = 1)\n\t\treturn np.array([np.all(np.dot(self.A, x)")]),
('r-vec-ineq2','D01','quiet',[(E,"return np.array([np.all(np.dot(self.A, x)","viol = np.dot(X, self.A.T) - self.b > tol\n\t\treturn ~np.any(viol, axis = 1)\n\t\treturn np.array([np.all(np.dot(self.A, x)")]),
('r-eq-vec','D01','quiet',[(E,"return np.array([np.all( np.abs(np.dot(self.A_eq","res = self.A_eq.dot(X.T).T - self.b_eq\n\t\treturn (np.abs(res) < tol).all(axis=1)\n\t\treturn np.array([np.all( np.abs(np.dot(self.A_eq")]),
('r-quad-norm','D01','quiet',[(E,"inside = inside & (np.sqrt(Ldiff_norm) <= rho + tol)","inside &= np.linalg.norm((X - y) @ L.T, axis = 1) <= rho + tol")]),
('r-quad-sq','D01','quiet',[(E,"inside = inside & (np.sqrt(Ldiff_norm) <= rho + tol)","inside = np.logical_and(inside, Ldiff_norm <= (rho + tol)**2)")]),
('r-early','D01','quiet',[(LI,"return self._isinside_bounds(X, tol = tol)","inside = self._isinside_bounds(X, tol = tol)\n\t\tif not np.any(inside):\n\t\t\treturn inside\n\t\treturn inside")]),
('r-prod','D01','quiet',[(TP,"inside = inside & dom.isinside(X[:,I], tol = tol)","inside = np.logical_and(dom.isinside(X[:,I], tol = tol), inside)")]),
('r-prod2','D01','quiet',[(TP,"\t\tinside = np.ones(X.shape[0], dtype = np.bool)\n","\t\treturn np.all([dom.isinside(X[:,I], tol=tol) for dom, I in zip(self.domains, self._slices)], axis=0)\n\t\tinside = np.ones(X.shape[0], dtype = np.bool)\n")]),
('r-idx','D01','quiet',[(E,"for L, y, rho in zip(self.Ls, self.ys, self.rhos):\n\t\t\tdiff","for i in range(len(self.Ls)):\n\t\t\tL = self.Ls[i]\n\t\t\ty = self.ys[i]\n\t\t\trho = self.rhos[i]\n\t\t\tdiff")]),
('r-slices','D01','quiet',[(TP,"start, stop = 0,0","start = stop = 0"),(TP,"stop += len(dom)","stop = start + len(dom)"),(TP,"start += len(dom)","start = stop")]),
('r-guardempty','D01','quiet',[(E,"return np.array([np.all(np.dot(self.A, x)","if len(self.b) == 0:\n\t\t\treturn np.ones(len(X), dtype=bool)\n\t\treturn np.array([np.all(np.dot(self.A, x)")]),
('r-hull','D01','quiet',[(CH,"\t\t\trnorm = np.linalg.norm( xi - self._X.T.dot(alpha))\n\t\t\tinside[i] = (rnorm < tol)","\t\t\tres = alpha @ self._X - xi\n\t\t\tinside[i] = np.sqrt(np.sum(res**2)) < tol")]),
('r-hull2','D01','quiet',[(CH,'inside &= self._isinside_bounds','X=X0; inside &= self._isinside_bounds'),(CH,"\t\tinside = np.zeros(X.shape[0], dtype = np.bool)\n","\t\tinside = np.array([np.linalg.norm(self._X.T @ self.coefficients(x) - x) < tol for x in X], dtype = bool)\n\t\tX0=X; X=[]\n")]),
]
