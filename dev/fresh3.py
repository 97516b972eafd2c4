CASES=[]
LI='psdr/lipschitz.py'; SQ='psdr/seqlp.py'
def bad(p,n,*e): CASES.append((n,p,'bad',list(e)))
bad('L01','scale-min',(LI,"scale1 = np.max(fX) - np.min(fX)","scale1 = np.max(fX)"))
bad('L01','half',(LI,"Es.append(0.5*np.outer(ei+ej,ei+ej))","Es.append(np.outer(ei+ej,ei-ej))"))
bad('L01','pairs',(LI,"hs.append(cvxopt.matrix( [[ -max(np.abs(fX[i] - fX[j])-epsilon,0)**2/p_norm**2]]))","hs.append(cvxopt.matrix( [[ -max(np.abs(fX[i] - fX[j])-epsilon,0)**2/p_norm]]))"))
bad('L01','eps2',(LI,"if np.abs(fX[i] - fX[j]) > epsilon:","if np.abs(fX[i] - fX[j]) > 2*epsilon:"))
bad('L01','const-max',(LI,"L = max(L, L_grad)","L = L_grad"))
bad('L01','H-scale',(LI,"self._H = scale**2 * H","self._H = scale * H"))
bad('L01','trace',(LI,"cp.Minimize(cp.sum(alpha))","cp.Minimize(cp.norm(alpha))"))
bad('L01','A-b0',(LI,"A = A[b!=0]","A = A[b>1e-3]"),(LI,"b = b[b!=0]","b = b[b>1e-3]"))
bad('L02','unc-eps',(LI,"return lb - self.epsilon, ub + self.epsilon","return lb, ub + self.epsilon"))
bad('L02','ub-c2',(LI,"lbs[-1], ubs[-1] = self.uncertainty(X, fX, c2)","lbs[-1], ubs[-1] = self.uncertainty(X, fX, c1)"))
bad('L02','dom-max',(LI,"np.max(lower_bound(x))","np.min(lower_bound(x))"))
bad('L02','grad-L',(LI,"		G = self.L.T.dot(G.T).T\n		return G\n\nclass Upper","		return G\n\nclass Upper"))
bad('L02','I',(LI,"I = norms > 0","I = norms > 1e-3"))
bad('O01','sq-lb',(SQ,"nonlinear_constraints.append(obj_lb <= f_lin)","nonlinear_constraints.append(obj_lb <= fx)"))
bad('O01','sq-viol',(SQ,"constraint_violation += np.linalg.norm((fx_new - obj_ub)[I], 1)","constraint_violation = np.sum((fx_new - obj_ub)[I])*0."))
bad('O01','sq-accept',(SQ,"if objval_new < objval and","if objval_new < objval + tol_obj and"))
bad('O01','sq-tr',(SQ,"active_constraints += trust_region_constraints","active_constraints = nonlinear_constraints + trust_region_constraints"))
bad('O01','sq-break',(SQ,"domain_constraints = domain._build_constraints(x + p)","domain_constraints = domain._build_constraints(p)"))
bad('O01','sq-dx',(SQ,"trajectory(x, px, 1.)","trajectory(x, px, 2.)"))
bad('O01','sq-jac',(SQ,"			jacx = jac(x)\n		except TypeError:\n			jacx = np.array([jaci(x) for jaci in jac]).reshape(len(fx), len(x))\n\n		if verbose:","			jacx = jac(x_new)\n		except TypeError:\n			jacx = np.array([jaci(x) for jaci in jac]).reshape(len(fx), len(x))\n\n		if verbose:"))
bad('O01','sq-con',(SQ,"nonlinear_constraints.append( conx + p.__rmatmul__(congradx) <= con_ub)","nonlinear_constraints.append( conx + p.__rmatmul__(congradx) <= con_ub - conx)"))
bad('R01','norm1',(SQ,"obj = cp.norm1(f_lin)","obj = cp.norm(f_lin)"))
bad('O01','hinge',(SQ,"np.sum(np.maximum(fx,0))","np.max(np.maximum(fx,0))"))
