CASES=[]
def bad(n,*e): CASES.append((n,'G03','bad',list(e)))
def quiet(n,*e): CASES.append((n,'G03','quiet',list(e)))
G='psdr/gn.py'; LP='psdr/lipschitz_partial.py'; MM='psdr/minimax.py'; S='psdr/sample/'
bad('gn-grad',(G,"		normgrad = np.linalg.norm(grad)\n		if verbose >= 1:\n","		if verbose >= 1:\n			normgrad = np.linalg.norm(grad)\n"))
bad('gn-break',(G,"			if verbose: print ('norm dx","			if verbose: x = x_new\n			if verbose: print ('norm dx"),) if False else None
bad('lp-lam',(LP,"				print(\"stopped due to small change in objective function\")\n				break","				print(\"stopped due to small change in objective function\")\n					break")) if False else None
bad('lp-tol',(LP,"			if np.linalg.norm(dU) < self.tol_dx:\n				if self.verbose:\n					print(\"stopped due to small norm dU\")\n				break","			if np.linalg.norm(dU) < self.tol_dx:\n				if self.verbose:\n					print(\"stopped due to small norm dU\")\n					break"))
bad('lp-store',(LP,"			if self.verbose:\n				lam = np.linalg.eigvalsh(J_new)\n","			if self.verbose:\n				lam = np.linalg.eigvalsh(J_new)\n				J_new = 0.5*(J_new + J_new.T)\n"))
quiet('lp-loc',(LP,"			if self.verbose:\n				lam = np.linalg.eigvalsh(J_new)\n","			if self.verbose:\n				Js = 0.5*(J_new + J_new.T)\n				lam = np.linalg.eigvalsh(Js)\n"))
bad('mm-alpha',(MM,"		if verbose:\n			print('%4d | %+14","		if verbose:\n			alpha = alpha*np.linalg.norm(px)\n			Delta = min(Delta, alpha)\n			print('%4d | %+14"))
bad('mm-iter',(MM,"		if stop:\n			break","		if stop and not verbose:\n			break"))
bad('scale-draw',(S+'minimax_scale.py',"	if verbose:\n		printer = ","	if verbose:\n		X0 = domain.sample(10)\n		printer = "))
bad('scale-draw2',(S+'minimax_scale.py',"	if verbose:\n		printer.print_iter()\n","	if verbose:\n		printer.print_iter(score = score_design_full(0.5), scale = len(domain.sample(5)))\n"))
quiet('scale-q',(S+'minimax_scale.py',"	if verbose:\n		printer.print_iter()\n","	if verbose:\n		print(score_design(alpha_vec[k]))\n"))
bad('cluster',(S+'minimax.py',"	best_Xhat = np.copy(Xhat)\n	best_dist","	if verbose:\n		maxiter += 1\n	best_Xhat = np.copy(Xhat)\n	best_dist"))
bad('sampler-draw',(S+'sample.py',"	return self._sample(draw = draw, verbose = verbose)","	return self._sample(draw = draw + bool(verbose), verbose = verbose)")) if False else None
bad('sampler',(S+'sample.py',"self._sample(draw = draw, verbose = verbose)","self._sample(draw = draw if not verbose else 1, verbose = verbose)"))
bad('lloyd',(S+'minimax_lloyd.py',"L = L, maxiter = 50, verbose =verbose","L = L, maxiter = 50 if verbose else 20, verbose =verbose"))
bad('lloyd2',(S+'minimax_lloyd.py',"			if verbose:\n				print('small change in design')\n			break","			if verbose:\n				print('small change in design')\n				continue\n			break"))
bad('proj',(S+'projection.py',"			if verbose:\n				mess = \"it %4d:\" % (it,) ","			if verbose:\n				score_best = np.sort(score_best)\n				mess = \"it %4d:\" % (it,) "))
bad('proj-key',(S+'stretch.py',"			print(f'iter","			Ls.sort(key = lambda L: len(L))\n			print(f'iter")) 
quiet('hand-helper',(G,"		if verbose >= 1:\n			print ('No progress made during line search')","		_say(verbose, 'No progress made during line search')"),(G,"def trajectory_linear(","def _say(level, message):\n	if level < 1:\n		return\n	print(message)\n\n\ndef trajectory_linear("))
quiet('both',(S+'stretch.py',"	domain_stretch = stretch_sample_domain(domain, Xf, Ls, verbose = verbose)","	if verbose:\n		domain_stretch = stretch_sample_domain(domain, Xf, Ls, verbose = True)\n	else:\n		domain_stretch = stretch_sample_domain(domain, Xf, Ls)"))
quiet('printer',(MM,"	if verbose:\n		print(","	show = bool(verbose)\n	if show:\n		print(") )
quiet('early',(MM,"		if stop:\n			break\n","		if stop:\n			if verbose:\n				print('stop')\n				break\n			break\n"))
