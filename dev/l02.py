CASES=[]
L='psdr/lipschitz.py'; S='psdr/subspace.py'; A='psdr/lipschitz_approx.py'
def bad(n,*e): CASES.append((n,'L02','bad',list(e)))
def quiet(n,*e): CASES.append((n,'L02','quiet',list(e)))
bad('swap',(L,"lb = np.maximum(lb, fx - dist)","lb = np.maximum(lb, fx + dist)"))
bad('minmax',(L,"ub = np.minimum(ub, fx + dist)","ub = np.maximum(ub, fx + dist)"))
bad('LT',(L,"		LX = self.L.dot(X.T).T","		LX = self.L.T.dot(X.T).T"))
bad('LT2',(L,"		LX = self.L.dot(X.T).T","		LX = X.dot(self.L)"),(L,"		LXtest = self.L.dot(Xtest.T).T","		LXtest = Xtest.dot(self.L)"))
bad('sq',(L,"dist = cdist(Lx.reshape(1,-1), LXtest).flatten()","dist = cdist(Lx.reshape(1,-1), LXtest, 'sqeuclidean').flatten()"))
bad('eps',(L,"return lb - self.epsilon, ub + self.epsilon","return lb + self.epsilon, ub - self.epsilon"))
bad('skiplast',(L,"for Lx, fx in zip(LX, fX):","for Lx, fx in zip(LX[1:], fX):"))
bad('ub-sense',(L,"			ubs.append(np.min(-upper_bound(x)))","			ubs.append(np.max(-upper_bound(x)))"))
bad('lb-min',(L,"return float(np.min(lbs)) - epsilon","return float(np.max(lbs)) - epsilon"))
bad('dom-eps',(L,"epsilon = 0. if self.epsilon is None else self.epsilon","epsilon = 0."))
bad('searchsame',(L,"x = minimax(upper_bound, x0","x = minimax(lower_bound, x0"))
bad('nodomain',(L,"x = minimax(upper_bound, x0, domain = domain","x = minimax(upper_bound, x0, domain = None"))
bad('grad',(L,"G = self.L.T.dot(G.T).T","G = self.L.dot(G.T).T"))
bad('shadow-flip',(L,"			c1, c2 = c2, c1","			pass"))
bad('shadow-ends',(L,"lbs[-1], ubs[-1] = self.uncertainty(X, fX, c2)","lbs[-1], ubs[-1] = self.uncertainty(X, fX, c1)"))
bad('shadow-swap',(L,"lbs[i], ubs[i] = self.unc","ubs[i], lbs[i] = self.unc"))
bad('env-swap',(S,"[A*lb <= fX.flatten()]","[A*lb >= fX.flatten()]"))
bad('env-obj',(S,"cp.Maximize(cp.sum(lb))","cp.Minimize(cp.sum(lb))"))
bad('env-h',(S,"val += ( (y[I] - (yy[0] + j[I]*h)  )/h).tolist()","val += ( (y[I] - (yy[0] + j[I]*h))).tolist()"))
bad('env-last',(S,"I = (j != len(yy) - 1)","I = (j < len(yy)-2)"))
bad('env-pgf',(S,"pgf.add('lb', lb)","pgf.add('lb', ub)"))
bad('mid',(A,"return 0.5*(lb + ub)","return 0.5*(lb - ub)"))
bad('mid-data',(A,"lb, ub = self.uncertainty(self._X, self._y, X)\n		return","lb, ub = self.uncertainty(self._X, self._fX, X)\n		return"))
quiet('vector',(L,"		for Lx, fx in zip(LX, fX):\n			dist = cdist(Lx.reshape(1,-1), LXtest).flatten()\n			lb = np.maximum(lb, fx - dist)\n			ub = np.minimum(ub, fx + dist)\n","		D = cdist(LX, LXtest)\n		lb = np.max(fX.reshape(-1,1) - D, axis = 0)\n		ub = np.min(fX.reshape(-1,1) + D, axis = 0)\n"))
quiet('xl',(L,"		LX = self.L.dot(X.T).T","		LX = X @ self.L.T"))
quiet('norm',(L,"dist = cdist(Lx.reshape(1,-1), LXtest).flatten()","dist = np.sqrt(np.sum((LXtest - Lx)**2, axis = 1))"))
quiet('env',(S,"[A*lb <= fX.flatten()]","[fX >= A*lb]"))
quiet('env2',(S,"cp.Maximize(cp.sum(lb))","cp.Minimize(-cp.sum(lb))"))
