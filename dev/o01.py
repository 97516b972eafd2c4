CASES=[]
G='psdr/gn.py'; S='psdr/seqlp.py'; M='psdr/minimax.py'; P='psdr/lipschitz_partial.py'
def bad(n,*e): CASES.append((n,'O01','bad',list(e)))
def quiet(n,*e): CASES.append((n,'O01','quiet',list(e)))
bad('gn-accept',(G,"		if np.linalg.norm(f_eval_new) >= np.linalg.norm(f_eval):\n			residual_increased = True","		if np.linalg.norm(f_eval_new) > 2*np.linalg.norm(f_eval):\n			residual_increased = True"))
bad('gn-grad',(G,"remains the residual at x\n		grad = F_eval.T @ f_eval\n","remains the residual at x\n		grad = F_eval.T @ f_eval_new\n"))
bad('gn-iter',(G,"	for it in range(maxiter):\n		residual_increased","	for it in range(maxiter + 1):\n		residual_increased"))
bad('gn-tol',(G,"	tol = max(tol*normgrad, 1e-14)","	tol = max(tol + normgrad, 1e-14)"))
bad('gn-sign',(G,"sp.linalg.lstsq(F_eval, -f_eval,","sp.linalg.lstsq(F_eval, f_eval,"))
bad('gn-info',(G,"	if normgrad <= tol:\n		info = 0","	if normgrad <= tol or it < maxiter - 1:\n		info = 0"))
bad('gn-fx-only',(G,"			f_eval = f_eval_new\n			x = x_new","			f_eval = f_eval_new\n		x = x_new"),(G,"np.linalg.norm(f_eval_new) >= np.linalg.norm(f_eval):\n			res","np.linalg.norm(f_eval_new) >= np.linalg.norm(f_eval):\n			f_eval_new = f_eval\n			res"))
bad('ls-fail',(G,"		alpha = 0\n		x = x0\n		fx = fx0","		alpha = 0\n		fx = fx0"))
bad('ls-fail2',(G,"		x = x0\n		fx = fx0\n","		x = x0\n"))
bad('ls-armijo',(G,"if fx_norm < fx0_norm + alpha * ftol * dg:","if fx_norm < fx0_norm - alpha * ftol * dg + 2:"))
bad('ls-iter',(G,"	for it in range(maxiter):\n		try:","	for it in range(10*maxiter):\n		try:"))
bad('ls-alpha',(G,"				success = True\n				break\n","				success = True\n				alpha *= bt_factor\n				break\n"))
bad('ls-never',(G,"if fx_norm < fx0_norm + alpha","if fx_norm < 0*fx0_norm + alpha"))
bad('slp-obj',(S,"if objval_new < objval and np.isclose","if np.isclose"))
bad('slp-lb',(S,"				if obj_lb is not None:\n					I = ~(obj_lb <= fx_new)\n					constraint_violation += np","				if obj_lb is not None and obj_ub is not None:\n					I = ~(obj_lb <= fx_new)\n					constraint_violation += np"))
bad('slp-ub',(S,"constraint_violation += np.linalg.norm((fx_new - obj_ub)[I], 1)","constraint_violation = np.linalg.norm((fx_new - obj_lb)[~(obj_lb <= fx_new)], 1) if obj_lb is not None else 0"))
bad('slp-or',(S,"if objval_new < objval and np.isclose","if objval_new < objval or np.isclose"))
bad('slp-stale',(S,"					objval = objval_new\n","					pass\n"))
bad('slp-iter',(S,"	for it in range(maxiter):","	for it in range(maxiter+1):"))
bad('slp-bt',(S,"		for it2 in range(bt_maxiter):","		for it2 in range(2*bt_maxiter):"))
bad('slp-bt-stop',(S,"		for it2 in range(bt_maxiter):","		for it2 in range(50):"))
bad('slp-dom',(S,"domain_constraints = domain._build_constraints(x + p)","domain_constraints = domain._build_constraints(p)"))
bad('slp-search',(S,"nonlinear_constraints + domain_constraints + search_step_constraints","nonlinear_constraints + domain_constraints"))
bad('slp-con',(S,"nonlinear_constraints.append(con_lb <= conx + p.__rmatmul__(congradx) )","nonlinear_constraints.append(con_lb <= p.__rmatmul__(congradx) )"))
bad('slp-objlb',(S,"			nonlinear_constraints.append(obj_lb <= f_lin)","			nonlinear_constraints.append(obj_lb <= f_lin - fx)"))
bad('slp-norm',(S,"obj = cp.norm_inf(f_lin)","obj = cp.norm1(f_lin)"))
bad('slp-fail',(S,"				px = np.zeros(x.shape)\n","				px = np.zeros(x.shape)\n				x = trajectory(x, np.ones(x.shape), 1.0)\n"))
bad('mm-armijo',(M,"if t_new <= t + c_armijo*alpha*pt:","if t_new <= t - c_armijo*alpha*pt + 1:"))
bad('mm-t',(M,"				t = t_new\n","				t = max(t, t_new) + 1\n"))
bad('mm-iter',(M,"	for it in range(maxiter):","	for it in range(maxiter*2):"))
bad('mm-bt',(M,"for it2 in range(bt_maxiter):","for it2 in range(30):"))
bad('mm-dom',(M,"domain._build_constraints(x + px)","domain._build_constraints(px)"))
bad('mm-sign',(M,">= fx + px.__rmatmul__(gradx) ]",">= fx - px.__rmatmul__(gradx) ]"))
bad('mm-max',(M,"			t_new = np.max(fx_new)","			t_new = np.min(fx_new)"))
bad('mm-search',(M,"		constraints += search_constraints(x, px)","		search_constraints(x, px)"))
bad('mm-tr',(M,"		if trust_region:\n			constraints.append","		if not trust_region:\n			constraints.append"))
bad('pl-accept',(P,"			if obj_new > obj:\n				if self.verbose:","			if obj_new > 2*obj:\n				if self.verbose:"))
bad('pl-iter',(P,"		for it in range(self.maxiter):","		for it in range(self.maxiter + 2):"))
bad('pl-J',(P,"			U = U_new\n			J = J_new\n","			U = U_new\n"))
bad('pl-stale',(P,"			obj = obj_new\n","			pass\n"))
quiet('gn-le',(G,"		if np.linalg.norm(f_eval_new) >= np.linalg.norm(f_eval):","		if not np.linalg.norm(f_eval_new) < np.linalg.norm(f_eval):"))
quiet('gn-local',(G,"	normdx = 1\n","	normdx = 1\n	best = np.linalg.norm(f_eval)\n"),(G,"normf >= np.linalg.norm(f_eval)","normf >= best") if False else (G,"	n = len(x0)\n","	n = len(x0)\n	pass\n"))
quiet('ls-while',(G,"	for it in range(maxiter):\n		try:","	it = 0\n	while it < maxiter:\n		it += 1\n		try:"))
quiet('ls-ret',(G,"	# If we haven't found a good step, stop\n	if not success:\n		alpha = 0\n		x = x0\n		fx = fx0\n","	if not success:\n		return x0, 0, fx0\n"))
quiet('slp-rename',(S,"nonlinear_constraints","imposed"))
quiet('slp-violation',(S,"if objval_new < objval and np.isclose","improved = objval_new < objval\n				if improved and np.isclose"))
quiet('mm-else',(M,"		if pt > 0:","		if not pt <= 0:"))
quiet('mm-norm',(M,"np.max(np.abs(x_new - x)) < tol_dx","np.linalg.norm(x_new - x, np.inf) < tol_dx"))
quiet('mm-rows',(M,"constraints = [ (t + pt)*np.ones(fx.shape[0]) >= fx + px.__rmatmul__(gradx) ]","constraints = [ fx + px.__rmatmul__(gradx) <= (t + pt)*np.ones(fx.shape[0])]"))
