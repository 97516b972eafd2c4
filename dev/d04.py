E='psdr/domains/euclidean.py'; LI='psdr/domains/linineq.py'; LQ='psdr/domains/linquad.py'; B='psdr/domains/box.py'; CH='psdr/domains/convexhull.py'; TP='psdr/domains/tensor.py'; DM='psdr/domains/domain.py'
CASES=[
('max-min','D04','bad',[(LQ,"lb = np.maximum(lb, self.lb)","lb = np.minimum(lb, self.lb)")]),
('max-min-h','D04','bad',[(CH,"ub = np.minimum(ub, self.ub)","ub = np.maximum(ub, self.ub)")]),
('drop-ub','D04','bad',[(LQ,"ub = np.minimum(ub, self.ub)","ub = np.minimum(ub, ub)")]),
('drop-rhos','D04','bad',[(LQ,"Ls = self.Ls + Ls\n\t\tys = self.ys + ys\n\t\trhos = self.rhos + rhos","Ls = self.Ls + Ls\n\t\tys = self.ys + ys\n\t\trhos = rhos + self.rhos")]),
('rev-ys-h','D04','bad',[(CH,"ys = self.ys + ys","ys = ys + self.ys")]),
('b-order','D04','bad',[(LQ,"b = np.hstack([self.b, b])\n","b = np.hstack([b, self.b])\n")]),
('drop-eq','D04','bad',[(LQ,"A_eq = np.vstack([self.A_eq, A_eq])\n\t\tb_eq = np.hstack([self.b_eq, b_eq])","A_eq = np.vstack([A_eq])\n\t\tb_eq = np.hstack([b_eq])")]),
('box-early','D04','bad',[(LQ,"		A = np.vstack([self.A, A])	\n","		if len(A) == 0 and len(Ls) == 0:\n\t\t\tfrom .box import BoxDomain\n\t\t\treturn BoxDomain(lb, ub, names = self.names)\n\t\tA = np.vstack([self.A, A])	\n")]),
('and-selfub','D04','bad',[(LQ,"return self.add_constraints(lb = other.lb, ub = other.ub,","return self.add_constraints(lb = other.lb, ub = self.ub,")]),
('and-noquad','D04','bad',[(LQ,"				Ls = other.Ls, ys = other.ys, rhos = other.rhos)\n\t\telse","				)\n\t\telse")]),
('and-hullcorner','D04','bad',[(LQ,"return other & self","return other")]),
('tp-A','D04','bad',[(TP,"A_tmp[:,I] = dom.A\n","A_tmp[:,:len(dom)] = dom.A\n")]),
('tp-ys','D04','bad',[(TP,"y_tmp[I] = y","y_tmp[-len(y):] = y")]),
('tp-slices','D04','bad',[(TP,"start += len(dom)","start = stop - len(dom)")]),
('tp-beq','D04','bad',[(TP,"return np.concatenate([dom.b_eq for dom in self.domains])","return np.concatenate([dom.b_eq for dom in self.domains[::-1]])")]),
('tp-flat','D04','bad',[(TP,"self._domains.extend(domain.domains)","self._domains.extend(domain.domains[1:])")]),
('mul','D04','bad',[(E,"		from .tensor import TensorProductDomain\n		return TensorProductDomain([self, other])","		from .tensor import TensorProductDomain\n		return TensorProductDomain([other, self])")]),
('lin-lb','D04','bad',[(CH,"dom = dom_hull.add_constraints(lb = self.lb, ub = self.ub, A = self.A","dom = dom_hull.add_constraints(lb = self.lb, A = self.A")]),
('lin-b','D04','bad',[(CH,"b = -hull.equations[:,-1]","b = hull.equations[:,-1]")]),
('lin-1d','D04','bad',[(CH,"b = np.array([np.max(Y), -np.min(Y)])","b = np.array([np.max(Y), np.min(Y)])")]),
('lin-beq','D04','bad',[(CH,"b_eq = np.mean( X @ Qperp, axis = 0)","b_eq = np.zeros(Qperp.shape[1])")]),
('hull-Xnorm','D04','bad',[(CH,"		return ConvexHullDomain(self.X, A = A, b = b, lb = lb","		return ConvexHullDomain(self.X, A = A, b = b, lb = self.lb")]),
('stored','D04','bad',[(LQ,"self._ub = self._init_ub(ub)","self._ub = self._init_ub(ub + 1e-3 if ub is not None else ub)")]),
('init-b','D04','bad',[(LQ,"b = np.array(b)","b = np.abs(np.array(b))"),]),
('lin-mean','D04','bad',[(CH,"b_eq = np.mean( X @ Qperp, axis = 0)","b_eq = np.mean( X @ Qperp)*np.ones(Qperp.shape[1])")]),
('lin-Qperp','D04','bad',[(CH,"Qperp = Q[:, dim:]","Qperp = Q[:, dim+1:]")]),
('lin-Y','D04','bad',[(CH,"hull = ConvexHull(Y)","hull = ConvexHull(X)")]),
('q-b','D04','quiet',[(CH,"b = -hull.equations[:,-1]","eq = hull.equations\n\t\tb = -1*eq[:,-1]")]),
('q-row','D04','quiet',[(CH,"b_eq = np.mean( X @ Qperp, axis = 0)","b_eq = (X @ Qperp)[0]")]),
('q-ys','D04','quiet',[(LQ,"Ls = self.Ls + Ls\n\t\tys = self.ys + ys\n\t\trhos = self.rhos + rhos","Ls = Ls + self.Ls\n\t\tys = ys + self.ys\n\t\trhos = rhos + self.rhos")]),
('q-A','D04','quiet',[(LQ,"A = np.vstack([self.A, A])	\n\t\tb = np.hstack([self.b, b])","A = np.concatenate([A, self.A], axis = 0)	\n\t\tb = np.concatenate([b, self.b])")]),
('q-max','D04','quiet',[(LQ,"lb = np.maximum(lb, self.lb)","lb = np.maximum(self.lb, lb)")]),
('q-where','D04','quiet',[(LQ,"lb = np.maximum(lb, self.lb)","mine = self.lb\n\t\tlb = np.where(lb > mine, lb, mine)")]),
('q-super','D04','quiet',[(LQ,"return self.add_constraints(lb = other.lb, ub = other.ub,","kw = dict(lb = other.lb, ub = other.ub,"),(LQ,"Ls = other.Ls, ys = other.ys, rhos = other.rhos)\n\t\telse","Ls = other.Ls, ys = other.ys, rhos = other.rhos)\n\t\t\treturn self.add_constraints(**kw)\n\t\telse")]),
('q-tpA','D04','quiet',[(TP,"			A_tmp = np.zeros((dom.A.shape[0] ,len(self)))\n			A_tmp[:,I] = dom.A\n","			Ad = dom.A\n			A_tmp = np.zeros((Ad.shape[0] ,len(self)))\n			A_tmp[:,I.start:I.stop] = Ad\n")]),
('q-slices','D04','quiet',[(TP,"		start, stop = 0,0\n		for dom in self.domains:\n			stop += len(dom)\n			yield(slice(start, stop))\n			start += len(dom) ","		start = 0\n		for dom in self.domains:\n			stop = start + len(dom)\n			yield slice(start, stop)\n			start = stop")]),
('q-flat','D04','quiet',[(TP,"				self._domains.extend(domain.domains)","				self._domains += domain.domains")]),
('q-lin','D04','quiet',[(CH,"b = np.array([np.max(Y), -np.min(Y)])","b = np.array([Y.max(), np.max(-Y)])")]),
('q-helper','D04','quiet',[(CH,"		A = np.vstack([self.A, A])\n		b = np.hstack([self.b, b])","		A, b = self._cat(A, b)"),(CH,"	def add_constraints(self","	def _cat(self, A, b):\n		return np.vstack([self.A, A]), np.hstack([self.b, b])\n\n	def add_constraints(self")]),
]
