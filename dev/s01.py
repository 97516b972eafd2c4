CASES=[]
S='psdr/subspace.py'; R='psdr/polyridge.py'; L='psdr/lipschitz.py'; P='psdr/lipschitz_partial.py'; O='psdr/opg.py'; C='psdr/coord.py'; A='psdr/lipschitz_approx.py'; I='psdr/initialization.py'
def bad(n,*e): CASES.append((n,'S01','bad',list(e)))
def quiet(n,*e): CASES.append((n,'S01','quiet',list(e)))
bad('sgn-grads',(S,"		sgn = np.sign(np.mean(grads.dot(U), axis = 0))\n		# If the sign is zero, keep the current orientation\n		sgn[sgn == 0] = 1\n","		sgn = np.sign(np.mean(grads.dot(U), axis = 0))\n"))
bad('sgn-samps',(S,"		sgn[sgn == 0] = 1\n		return U.dot(np.diag(np.sign(sgn)))","		return U.dot(np.diag(np.sign(sgn)))"))
bad('sgn-nosign',(S,"		return U.dot(np.diag(np.sign(sgn)))","		return U.dot(np.diag(sgn))"))
bad('sgn-neg',(S,"		sgn = np.sign(np.mean(grads.dot(U), axis = 0))","		sgn = -np.sign(np.mean(grads.dot(U), axis = 0))"))
bad('sgn-rows',(S,"		sgn[sgn == 0] = 1\n		return U.dot(np.diag(sgn))","		sgn[sgn == 0] = 1\n		return np.diag(sgn).dot(U)"))
bad('eigh-order',(L,"		U = U[:,::-1]\n","		pass\n"))
bad('eigh-rows',(L,"		U = U[:,::-1]\n","		U = U[::-1]\n"))
bad('part-order',(P,"		ev = ev[:,::-1]\n","		ev = ev\n"))
bad('part-T',(P,"		U = U.dot(ev)\n","		U = U.dot(ev.T)\n"))
bad('coord',(C,"np.argsort(-self.score)","np.argsort(self.score)"))
bad('coord-rows',(C,"np.eye(len(self.score))[:,np.argsort(-self.score)]","np.eye(len(self.score))[np.argsort(-self.score)]"))
bad('weights',(S,"scipy.linalg.svd(np.sqrt(self._weights)*self._grads.T)","scipy.linalg.svd(self._weights*self._grads.T)"))
bad('approx',(A,"self._U = VT.T","self._U = VT"))
bad('opg-noqr',(O,"			self._U = Q\n","			self._U = U\n"))
bad('opg-std',(O,"Dinv = np.diag(1./std)","Dinv = np.diag(std)"))
bad('orth',(R,"	sgn[sgn == 0] = 1\n	U = np.dot(U, np.diag(sgn)) ","	U = np.dot(U, np.diag(sgn)) "))
bad('orth2',(R,"	sgn = np.sign(np.diag(R))\n	sgn[sgn == 0] = 1\n","	sgn = np.diag(R)\n"))
bad('fin-sgn',(R,"			sgn[sgn == 0] = 1\n			self._U = U","			self._U = U"))
bad('fin-grads',(R,"scipy.linalg.svd(grads.T, full_matrices = False)[0]","scipy.linalg.svd(grads.T, full_matrices = False)[0].T"))
bad('traj',(R,"		UZ = np.dot(U, ZT.T)\n		U_new = np.dot(UZ, np.diag(np.cos(s*t))) + np.dot(Y, np.diag(np.sin(s*t)))\n		U_new = orth(U_new).flatten()","		UZ = np.dot(U, ZT.T)\n		U_new = np.dot(UZ, np.diag(np.cos(s*t))) + np.dot(Y, np.diag(s*t))\n		U_new = U_new.flatten()"))
bad('traj2',(R,"U_new = np.dot(np.dot(U,ZT.T), np.diag(np.cos(s*alpha))) + np.dot(Y, np.diag(np.sin(s*alpha)))","U_new = np.dot(np.dot(U,ZT.T), np.diag(np.cos(s*alpha))) + np.dot(Y, np.diag(np.sin(alpha)*s))"))
bad('init',(I,"	return U	","	return VH	"))
quiet('sgn-where',(S,"		sgn = np.sign(np.mean(grads.dot(U), axis = 0))\n		# If the sign is zero, keep the current orientation\n		sgn[sgn == 0] = 1\n		return U.dot(np.diag(sgn))","		slope = np.mean(grads @ U, axis = 0)\n		return U * np.where(slope < 0, -1., 1.)"))
quiet('flip',(L,"		U = U[:,::-1]\n		ew = ew[::-1]\n","		order = np.argsort(-ew)\n		U, ew = U[:,order], ew[order]\n"))
quiet('flip2',(L,"		U = U[:,::-1]\n","		U = np.fliplr(U)\n"))
quiet('coord',(C,"[:,np.argsort(-self.score)]","[:,np.argsort(self.score)[::-1]]"))
quiet('orth',(R,"	U = np.dot(U, np.diag(sgn)) ","	U = U*sgn"))
quiet('geo',(R,"U_new = np.dot(np.dot(U,ZT.T), np.diag(np.cos(s*alpha))) + np.dot(Y, np.diag(np.sin(s*alpha)))","U_new = (U @ ZT.T)*np.cos(alpha*s) + Y*np.sin(alpha*s)"))
quiet('w',(S,"scipy.linalg.svd(np.sqrt(self._weights)*self._grads.T)","scipy.linalg.svd((np.sqrt(self._weights).reshape(-1,1)*self._grads).T)"))
