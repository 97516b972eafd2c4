CASES=[]
B='psdr/basis.py'; PO='psdr/poly.py'; R='psdr/polyridge.py'; F='psdr/function.py'
def bad(n,*e): CASES.append((n,'F02','bad',list(e)))
def quiet(n,*e): CASES.append((n,'F02','quiet',list(e)))
bad('dscale',(B,"return (2./(self._ub - self._lb))","return (1./(self._ub - self._lb))"))
bad('herm-dscale',(B,"return 1./self._std/np.sqrt(2)","return 1./self._std"))
bad('ddv-scale',(B,"dscale[k]*dscale[ell]","dscale[k]*dscale[k]"))
bad('ddv-mixed',(B,"elif q == k or q == ell:","elif q == k:"))
bad('ddv-sym',(B,"DDV[:,:,ell, k] = DDV[:,:,k, ell]","pass"))
bad('dmat',(B,"self.polyder(I[:,j])","self.polyder(I[:,j])*(1. if j < 3 else 0.5)"))
bad('cheb-der',(B,"self.polyder = chebder","self.polyder = legder"))
bad('dv-scale-last',(B,"			DV[:,:,k] *= dscale[k]","			DV[:,:,k] *= dscale[0]"))
bad('arn-dv',(B,"DV[:,k,ell] = V[:,j] + X[:,i] * DV[:,j,ell]","DV[:,k,ell] = V[:,j-1] + X[:,i] * DV[:,j,ell]"))
bad('arn-own',(B,"			X = self.X\n			V = self.Q","			X = self.X\n			V = self.Q*np.sqrt(len(self.X))"))
bad('arn-r',(B,"w -= self.R[j,k]*W[:,j]","w -= self.R[k,j]*W[:,j]"))
bad('vc',(B,"out[:,k] += c[j,k]*col","out[:,k] += c[j,0]*col"))
bad('pgrad',(PO,"Df = np.tensordot(DV, self.coef, axes = (1,0))","Df = np.tensordot(DV, self.coef, axes = (1,0))*2"))
bad('ridge-lift',(R,"Df = Df.dot(self.U.T)","Df = Df.dot(self.U.T[::-1])"))
bad('ridge-hess',(R,"DDf = np.tensordot(np.tensordot(DDf, self.U, axes = (2,1)) , self.U, axes = (1,1))","DDf = np.tensordot(np.tensordot(DDf, self.U, axes = (2,1)) , self.U[:,::-1], axes = (1,1))"))
bad('varpro-sign',(R,"J = -( J1 + np","J = -( J1 - np"))
bad('varpro-proj',(R,"J1 -= np.tensordot(Y","J1 -= 0.5*np.tensordot(Y"))
bad('jac',(R,"jac = np.hstack([DVDUc.reshape(M,-1), V])","jac = np.hstack([DVDUc.transpose(0,2,1).reshape(M,-1), V])"))
bad('affine-dir',(R,"U = dom._normalize_der().dot(U)","U = dom._unnormalize_der().dot(U)"))
bad('affine-skip',(R,"U = dom._normalize_der().dot(U)","pass"))
bad('norm',(F,"			grads = grads.dot(D.T)\n\n			if len","			if len"))
quiet('einsum',(R,"Df = Df.dot(self.U.T)","Df = np.einsum('ij,kj->ik', Df, self.U)"))
quiet('vander-loop',(B,"		V_coordinate = [self.vander(X[:,k], self.degree) for k in range(self.dim)]\n		\n		V = np.ones","		V_coordinate = []\n		for kk in range(self.dim):\n			V_coordinate.append(self.vander(X[:,kk], self.degree))\n		\n		V = np.ones") )
quiet('dscale2',(B,"return (2./(self._ub - self._lb))","width = self._ub - self._lb\n			return 1./(0.5*width)"))
quiet('tens',(PO,"Df = np.tensordot(DV, self.coef, axes = (1,0))","Df = np.einsum('ijk,j->ik', DV, self.coef)"))
quiet('jac-es',(R,"				DVDUc[:,k,ell] = X[:,k]*np.dot(DV[:,:,ell], c)","				DVDUc[:,k,ell] = (DV[:,:,ell] @ c)*X[:,k]"))
