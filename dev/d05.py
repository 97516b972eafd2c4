E='psdr/domains/euclidean.py'; LI='psdr/domains/linineq.py'; LQ='psdr/domains/linquad.py'; B='psdr/domains/box.py'; CH='psdr/domains/convexhull.py'; TP='psdr/domains/tensor.py'; N='psdr/domains/normal.py'; LN='psdr/domains/lognormal.py'; PT='psdr/domains/point.py'
CASES=[
('ys','D05','bad',[(E,"return [self.normalize(y) for y in self.ys]","c = self._center()\n\t\treturn [y - c for y in self.ys]")]),
('Ls','D05','bad',[(E,"return [ L.dot(D) for L in self.Ls]","return [ D.dot(L) for L in self.Ls]")]),
('b','D05','bad',[(E,"return self.b - self.A.dot(c)","return self.b")]),
('b-sign','D05','bad',[(E,"return self.b - self.A.dot(c)","return self.b + self.A.dot(self._center())")]),
('beq','D05','bad',[(E,"return self.b_eq - self.A_eq.dot(c)","return self.b_eq - self.A_eq_norm.dot(self._center())")]),
('Aeq','D05','bad',[(E,"return self.A_eq.dot(D)","return self.A_eq")]),
('unslope','D05','bad',[(E,"slope[I] = (self.norm_ub[I] - self.norm_lb[I])/2.0","slope[I] = (self.norm_ub[I] - self.norm_lb[I])")]),
('unmask','D05','bad',[(E,"slope[I] = (self.norm_ub[I] - self.norm_lb[I])/2.0","slope = np.where(self.norm_ub > 1, (self.norm_ub - self.norm_lb)/2.0, slope)")]),
('center','D05','bad',[(E,"c[I] = (self.norm_lb[I] + self.norm_ub[I])/2.0","c[I] = self.norm_lb[I]")]),
('center-mask','D05','bad',[(E,"I = np.isfinite(self.norm_lb) & np.isfinite(self.norm_ub)\n\t\tc[I]","I = np.isfinite(self.norm_ub)\n\t\tc[I]")]),
('nd-swap','D05','bad',[(B,"BoxDomain(lb = self.lb_norm, ub = self.ub_norm","BoxDomain(lb = self.lb_norm, ub = self.ub")]),
('nd-noeq','D05','bad',[(LI,"A_eq = self.A_eq_norm, b_eq = self.b_eq_norm","A_eq = self.A_eq_norm, b_eq = self.b_eq")]),
('nd-rho','D05','bad',[(LQ,"rhos = self.rhos_norm","rhos = self.rhos_norm[::-1]")]),
('hull','D05','bad',[(CH,"return ConvexHullDomain(self._X_norm,","return ConvexHullDomain(self._X,")]),
('normal-cov','D05','bad',[(N,"D.dot(self.cov).dot(D.T)","D.dot(self.cov)")]),
('normal-trunc','D05','bad',[(N,"truncate = self.truncate, names = names_norm","names = names_norm")]),
('ln-off','D05','bad',[(LN,"offset = D*(self.offset - c)","offset = D*self.offset - c")]),
('tp-slice','D05','bad',[(TP,"dom.unnormalize(X_norm[:,I])","dom.normalize(X_norm[:,I])")]),
('tp-nd','D05','bad',[(TP,"domains_norm = [dom.normalized_domain(**kwargs) for dom in self.domains]","domains_norm = [dom.normalized_domain(**kwargs) for dom in self.domains[:-1]] + [self.domains[-1]]")]),
('tp-der','D05','bad',[(TP,"np.diag(dom._normalize_der()) for","np.diag(dom._unnormalize_der()) for")]),
('nlb-corner','D05','bad',[(E,"x_corner = self.corner(-ei)","x_corner = self.corner(ei)")]),
('nub-corner','D05','bad',[(E,"self._norm_ub[i] = x_corner[i]","self._norm_ub[i] = x_corner[0]")]),
('nub-inf','D05','bad',[(E,"self._norm_ub[i] = np.inf","self._norm_ub[i] = -np.inf")]),
('nub-max','D05','bad',[(E,"self._norm_ub[i] = max(self._norm_ub[i]","self._norm_ub[i] = min(self._norm_ub[i]")]),
('hull-lb','D05','bad',[(CH,"self._norm_lb = np.min(self._X, axis = 0)","self._norm_lb = np.min(self._X, axis = 1)")]),
('transpose','D05','bad',[(E,"X = Dinv.dot(X_norm.T).T + c.reshape(1,-1)","X = Dinv.dot(X_norm.T).T - c.reshape(1,-1)")]),
('q-matmul','D05','quiet',[(E,"X_norm = D.dot( (X - c.reshape(1,-1)).T ).T","X_norm = (X - c)@D")]),
('q-inv','D05','quiet',[(E,"X = Dinv.dot(X_norm.T).T + c.reshape(1,-1)","shift = c.reshape(1,-1)\n\t\tX = shift + X_norm.dot(Dinv)")]),
('q-center','D05','quiet',[(E,"c[I] = (self.norm_lb[I] + self.norm_ub[I])/2.0","c[I] = self.norm_lb[I] + 0.5*(self.norm_ub[I] - self.norm_lb[I])")]),
('q-where','D05','quiet',[(E,"c[I] = (self.norm_lb[I] + self.norm_ub[I])/2.0","c = np.where(I, (self.norm_lb + self.norm_ub)/2.0, c)")]),
('q-ys','D05','quiet',[(E,"return [self.normalize(y) for y in self.ys]","out = []\n\t\tfor y in self.ys:\n\t\t\tout.append(self.normalize(y))\n\t\treturn out")]),
('q-ei','D05','quiet',[(E,"x_corner = self.corner(-ei)","ei[i] = -1\n\t\t\t\t\t\tx_corner = self.corner(ei)")]),
]
