CASES=[]
N='psdr/domains/normal.py'; L='psdr/domains/lognormal.py'; U='psdr/domains/uniform.py'; T='psdr/domains/tensor.py'; B='psdr/domains/box.py'
def bad(n,*e): CASES.append((n,'Q01','bad',list(e)))
def quiet(n,*e): CASES.append((n,'Q01','quiet',list(e)))
bad('n-LT',(N,"self.L.dot(X.T) ).T","self.L.T.dot(X.T) ).T"))
bad('n-Linv',(N,"self.L.dot(X.T) ).T","self.cov.dot(X.T)).T"))
bad('n-clip-all',(N,"np.sum(X**2, axis = 1) > self.clip","np.sum(X**2, axis = 1) > self.clip**2"))
bad('n-clip-once',(N,"				X[I,:] = np.random.randn(np.sum(I), self.mean.shape[0])","				X[I,:] = np.random.randn(np.sum(I), self.mean.shape[0])\n				break"))
bad('n-rho',(N,"np.sqrt(self.clip)","self.clip"))
bad('n-isf',(N,"chi2.isf(truncate, len(self))","chi2.isf(truncate, 1)"))
bad('n-isf2',(N,"chi2.isf(truncate,","chi2.ppf(truncate,"))
bad('n-y',(N,"np.copy(self.mean)]","np.zeros(self.mean.shape)]"))
bad('n-Ls',(N,"np.copy(self.Linv) ]","np.copy(self.L)]"))
bad('n-pdf-det',(N,"(2*np.pi)**len(self) * np.abs(scipy.linalg.det(self.cov))","(2*np.pi)**len(self) * np.abs(scipy.linalg.det(self.L))"))
bad('n-pdf-dim',(N,"(2*np.pi)**len(self) *","(2*np.pi) *"))
bad('n-pdf-trunc',(N,"p /= (1-self.truncate)","p /= self.truncate") )
bad('n-pdf-mask',(N,"			p *= self.isinside(X)","			pass"))
bad('n-norm-cov',(N,"D.dot(self.cov).dot(D.T)","D.dot(self.cov)"))
bad('n-norm-tr',(N,"truncate = self.truncate, names","names"))
bad('l-noexp',(L,"return np.array(self.offset).reshape(-1,1) + self.scaling*np.exp(X)","return np.array(self.offset).reshape(-1,1) + np.exp(self.scaling*X)"))
bad('l-off',(L,"			self._lb = self.offset*np.ones(1)","			self._lb = np.zeros(1)"))
bad('l-lb',(L,"			self._lb = self.offset + self.scaling*np.exp(self.normal_domain.norm_lb)","			self._lb = self.scaling*np.exp(self.normal_domain.norm_lb)"))
bad('l-neg',(L,"		if self.scaling < 0:","		if False:"))
bad('l-normoff',(L,"offset = D*(self.offset - c)","offset = D*self.offset - c"))
bad('l-normsc',(L,"scaling = D*self.scaling","scaling = self.scaling"))
bad('l-pdf',(L,"- self.mean)**2","- self.mean)"))
bad('u-area',(U,"(ub - lb) for","(ub + lb) for"))
bad('u-prod',(U,"np.prod([","np.sum(["))
bad('n-clip-less',(N,"np.sum(X**2, axis = 1) > self.clip","np.sum(X**2, axis = 1) > np.sqrt(self.clip)"))
bad('u-in',(U,"self.isinside(X).astype(np.float)/area","np.ones(len(X))/area"))
bad('t-same',(T,"X.append(dom.sample(draw = draw))","X.append(self.domains[0].sample(draw = draw))"))
bad('t-order',(T,"		for dom in self.domains:\n			X.append","		for dom in self.domains[::-1]:\n			X.append"))
bad('b-samp',(B,"np.random.uniform(self.lb, self.ub,","np.random.uniform(self.lb, 2*self.ub,"))
quiet('n-rows',(N,"X = (self.mean.reshape(-1,1) + self.L.dot(X.T) ).T","X = X.dot(self.L.T) + self.mean"))
quiet('n-any',(N,"if np.sum(I) == 0:","if not np.any(I):"))
quiet('n-ppf',(N,"chi2.isf(truncate,","chi2.ppf(1 - truncate,"))
quiet('l-log',(L,"self.scaling*np.exp(X)","np.exp(X)*self.scaling"))
quiet('u-area2',(U,"np.prod([ (ub - lb) for lb, ub in zip(self.lb, self.ub)])","np.prod(self.ub - self.lb)"))
quiet('t-comp',(T,"		X = []\n		for dom in self.domains:\n			X.append(dom.sample(draw = draw))\n		return np.hstack(X)","		return np.hstack([dom.sample(draw = draw) for dom in self.domains])"))
