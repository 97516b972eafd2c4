# mutations for P01: (prop, name, file, old, new, expected)
M = [
('P01','noname','psdr/pgf.py',"		self.column_names.append(name)","		self.column_names.insert(0, name)",1),
('P01','nocopy','psdr/pgf.py',"deepcopy(column)","column",1),
('P01','row-off','psdr/pgf.py',"		for j in range(len(self.columns[0])):","		for j in range(1, len(self.columns[0])):",1),
('P01','round','psdr/pgf.py','"{}\\t".format(float(col[j]))','"{:.4f}\\t".format(float(col[j]))',1),
('P01','percent','psdr/pgf.py','"{}\\t".format(float(col[j]))','"%.17g\\t" % float(col[j])',0),
('P01','percent-short','psdr/pgf.py','"{}\\t".format(float(col[j]))','"%g\\t" % float(col[j])',1),
('P01','getitem','psdr/pgf.py',"		i = self.column_names.index(key)\n		return self.columns[i]","		return dict(zip(self.column_names, self.columns))[key]",0),
('P01','read-spaces','psdr/pgf.py',"				if i == 0:\n					self.column_names = line.split('\\t')","				if i == 0:\n					self.column_names = line.split()",1),
('P01','read-shared','psdr/pgf.py',"[ [] for name in self.column_names]","[ [] ]*len(self.column_names)",1),
('P01','read-notab','psdr/pgf.py',"line = line.replace('\\t\\n','').replace('\\n','')","line = line.rstrip('\\t\\n')",0),
('P01','write-join','psdr/pgf.py','			for col in self.columns:\n				f.write("{}\\t".format(float(col[j])))\n			f.write("\\n")','			f.write("\\t".join(repr(float(col[j])) for col in self.columns) + "\\t\\n")',0),
('P01','len','psdr/pgf.py',"if len(self.columns) > 0","if len(self.columns) > 1",1),
('P01','level','psdr/pgf.py',"				write_path(fout, x_vec, y_vec, z)\n","				write_path(fout, x_vec, y_vec, cs.levels[0])\n",1),
('P01','close','psdr/pgf.py',"						x_vec.append(x_vec[0])\n						y_vec.append(y_vec[0])","						x_vec.append(x)\n						y_vec.append(y)",1),
('P01','lastseg','psdr/pgf.py',"						if len(x_vec) !=0:","						if len(x_vec) > 2:",1),
('P01','clear','psdr/pgf.py',"							x_vec = []\n							y_vec = []\n						x_vec.append(x)","						x_vec.append(x)",1),
('P01','u1','psdr/subspace.py',"				pgf.add('y', X.dot(U[:,0]))","				pgf.add('y', X.dot(self.U[:,0]))",1),
('P01','swap12','psdr/subspace.py',"				pgf.add('y1', Y[:,0])\n				pgf.add('y2', Y[:,1])","				pgf.add('y1', Y[:,1])\n				pgf.add('y2', Y[:,0])",1),
('P01','scatter','psdr/subspace.py',"ax.scatter(Y[:,0], Y[:,1], c","ax.scatter(Y[:,1], Y[:,0], c",1),
('P01','matmul','psdr/subspace.py',"			Y = U[:,0:2].T.dot(X.T).T\n","			Y = X @ U[:,:2]\n",0),
('P01','fxsorted','psdr/subspace.py',"				pgf.add('fX', fX)\n","				pgf.add('fX', np.sort(fX))\n",1),
('P01','resp-range','psdr/ridge.py',"			ub = np.max(Y)\n","			ub = np.max(np.abs(Y))\n",1),
('P01','resp-u','psdr/ridge.py',"np.hstack([self.U*xxi for xxi in xx]).T","np.outer(xx, self.U[:,0])",0),
('P01','resp-sq','psdr/ridge.py',"np.hstack([self.U*xxi for xxi in xx]).T","np.outer(xx, self.U[:,0]**2)",1),
('P01','mesh','psdr/ridge.py',"np.meshgrid(xx0, xx1)","np.meshgrid(xx0, xx1, indexing = 'ij')",1),
('P01','ub1','psdr/ridge.py',"ub1 = np.max(Y[:,1])","ub1 = np.max(Y[:,0])",1),
('P01','order-F','psdr/ridge.py',".reshape(XX0.shape)",".reshape(XX0.shape, order = 'F')",1),
('P01','band-f','psdr/lipschitz_approx.py',"			lb, ub = self.uncertainty(self._X, self._y, X)\n			c","			lb, ub = self.uncertainty(self._X, self._fX, X)\n			c",1),
('P01','band-c','psdr/lipschitz_approx.py',"			c = 0.5*(lb+ub)","			c = 0.5*(ub-lb)",1),
('P01','band-pts','psdr/lipschitz_approx.py',"pgf.add('y', self._fX)","pgf.add('y', self._y)",1),
('P01','band-col','psdr/lipschitz_approx.py',"pgf.add('ub', ub)","pgf.add('ub', lb)",1),
('P01','unc-draw','psdr/lipschitz.py',"ax.fill_between(ys, lbs, ubs, **plot_kwargs)","ax.fill_between(ys, ubs, ubs, **plot_kwargs)",1),
('P01','score','psdr/coord.py',"ax.bar(x, self.score, align","ax.bar(x, -np.sort(-self.score), align",1),
('P01','labels','psdr/coord.py',"ax.set_xticklabels(domain.names,","ax.set_xticklabels(domain.names[::-1],",1),
('P01','pdf-log','psdr/duu.py',"	yy = np.exp(kde.score_samples(xx.reshape(-1,1)))\n	return xx, yy\n\ndef","	yy = kde.score_samples(xx.reshape(-1,1))\n	return xx, yy\n\ndef",1),
('P01','pdf-raw','psdr/duu.py',"pra_rand_norm.predict(Xrand_norm)","pra_rand_norm.predict(Xrand)",1),
('P01','pdf-range','psdr/duu.py',"	xx = np.linspace(p0, p100, npoints)\n	yy = np.exp(kde.score_samples(xx.reshape(-1,1)))\n	return xx, yy\n\ndef","	xx = np.linspace(p25, p100, npoints)\n	yy = np.exp(kde.score_samples(xx.reshape(-1,1)))\n	return xx, yy\n\ndef",1),
('P01','cc-rows','psdr/duu.py',"self.pra_norm.U[-len(self.random_domain):]","self.pra_norm.U[:len(self.random_domain)]",1),
('P01','cc-rows2','psdr/duu.py',"self.pra_norm.U[-len(self.random_domain):]","self.pra_norm.U[len(self.design_domain):]",0),
('P01','cc-mode','psdr/duu.py',"100*(1. - self.prob)","100*self.prob",1),
('P01','cc-raw','psdr/duu.py',"np.dot(U.T, Xrand_norm.T)","np.dot(U.T, Xrand.T)",1),
('P01','band-L','psdr/lipschitz_approx.py',"L = U.T)","L = self.L)",1),
('P01','band-L2','psdr/lipschitz_approx.py',"L = U.T)","L = self.U[:,:1].T)",1),
]
CASES = [(n, p, 'bad' if b else 'quiet', [(f, o, w)]) for p, n, f, o, w, b in M]
