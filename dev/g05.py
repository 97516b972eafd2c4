CASES=[]
def bad(n,*e): CASES.append((n,'G05','bad',list(e)))
def quiet(n,*e): CASES.append((n,'G05','quiet',list(e)))
E='psdr/domains/euclidean.py'
CH="""		if prob.status not in ['optimal', 'optimal_inaccurate']:
			raise SolverError("CVXPY exited with status '%s'" % prob.status)
"""
CH0=CH.replace('\t\t\t','\x00').replace('\t\t','\t').replace('\x00','\t\t')
CP="""		if problem.status not in ['optimal', 'optimal_inaccurate']:
			raise SolverError("CVXPY exited with status '%s'" % problem.status)
"""
bad('miniball',('psdr/geometry/miniball.py',CH0,''))
bad('poly',('psdr/poly.py',CP,''))
bad('poly-acc',('psdr/poly.py',"['optimal', 'optimal_inaccurate']:","['optimal', 'optimal_inaccurate', 'infeasible_inaccurate']:"))
bad('nonlin-only',('psdr/nonlin.py',"	if prob.status not in ['optimal', 'optimal_inaccurate']:","	if prob.status == 'infeasible':"))
bad('lip-unk',('psdr/lipschitz.py',"if sol['status'] not in ['optimal', 'unknown']:","if sol['status'] in ['primal infeasible']:"))
bad('vertex',('psdr/geometry/vertex.py',"if sol['status'] not in ['optimal', 'unknown']:","if sol['status'] == 'dual infeasible':"))
bad('swap',(E,"""			#self._point = False
			raise EmptyDomainException	
""","""			#self._point = False
			raise UnboundedDomainException	
"""))
bad('cp-optimal',(E,"""			self._empty = True
			raise EmptyDomainException
		elif problem.status in ['optimal', 'optimal_inaccurate']:
			return""","""			self._empty = True
			raise EmptyDomainException
		elif problem.status not in ['unbounded']:
			return"""))
bad('cp-warn',(E,"""			return self.unnormalize(np.array(x_norm.value).reshape(len(self)))
		else:
			raise SolverError("CVXPY exited with status '%s'" % problem.status)

	
	def corner""","""			return self.unnormalize(np.array(x_norm.value).reshape(len(self)))
		else:
			warnings.warn("CVXPY exited with status '%s'" % problem.status)
			return np.copy(x0)

	
	def corner"""))
bad('empty-flag',(E,"			#self._empty = True\n			#self._unbounded = False\n","			self._empty = False\n"))
bad('cheb',('psdr/domains/linineq.py',"""		elif problem.status in ['unbounded']:
			raise UnboundedDomainException
		elif problem.status not""","""		elif problem.status not"""))
bad('cheb2',('psdr/domains/linineq.py',"		elif problem.status not in ['optimal', 'optimal_inaccurate']:\n			raise SolverError(\"CVXPY exited with status '%s'\" % problem.status)\n",""))
bad('isempty',(E,"		except UnboundedDomainException:\n			return False\n\n		\n	@cached_property\n	def is_point","		except UnboundedDomainException:\n			return True\n\n		\n	@cached_property\n	def is_point"))
bad('isunb',(E,"		except UnboundedDomainException:\n			return True\n		except EmptyDomainException:\n			return False","		except UnboundedDomainException:\n			return False\n		except EmptyDomainException:\n			return False"))
bad('isempty-all',(E,"		except EmptyDomainException:\n			return True\n		except UnboundedDomainException:\n			return False\n\n		\n","		except Exception:\n			return True\n\n		\n"))
bad('oneway',(E,"				x2 = self.corner(-u)\n			#	if","			#	if"))
bad('invert',('psdr/lipschitz_approx.py',"if prob.status not in","if prob.status in"))
bad('early-read',('psdr/subspace.py',CH.replace('\n','\n',1),"")) 
bad('polyr',('psdr/polyridge.py',"		if problem.status not in ['optimal', 'optimal_inaccurate']:\n			raise SolverError","		if problem.status in ['unbounded']:\n			raise SolverError"))
bad('partial',('psdr/lipschitz_partial.py',"		if problem.status not in ['optimal']:\n","		if problem.status in ['unbounded']:\n"))
bad('seqlp',('psdr/seqlp.py',"			elif status in ['optimal', 'optimal_inaccurate']:\n","			elif status != 'infeasible':\n"))
bad('minimax',('psdr/minimax.py',"		if problem.status not in ['optimal', 'optimal_inaccurate']:\n			raise Exception(problem.status)\n",""))
bad('lloyd',('psdr/sample/minimax_lloyd.py',"			if prob.status not in ['optimal', 'optimal_inaccurate']:\n				raise SolverError(\"CVXPY exited with status '%s'\" % prob.status)\n",""))
bad('unbinacc',('psdr/domains/euclidean.py',"		elif problem.status not in ['optimal', 'optimal_inaccurate']:\n			raise SolverError(\"CVXPY exited with status '%s'\" % problem.status)\n\n		# If we","		elif 'optimal' not in problem.status and 'unbounded' not in problem.status:\n			raise SolverError(\"CVXPY exited with status '%s'\" % problem.status)\n\n		# If we"))
quiet('helper',('psdr/poly.py',CP,"		_ok(problem)\n"),('psdr/poly.py','def linear_fit' if False else 'import cvxpy as cp\n',"import cvxpy as cp\ndef _ok(q):\n	good = ('optimal', 'optimal_inaccurate')\n	if q.status in good:\n		return\n	raise SolverError(\"CVXPY exited with status '%s'\" % q.status)\n"))
quiet('alias',('psdr/geometry/miniball.py',CH0,"""	st = prob.status
	if not (st == 'optimal' or st == 'optimal_inaccurate'):
		raise SolverError("CVXPY exited with status '%s'" % st)
"""))
quiet('const',('psdr/nonlin.py',"	if prob.status not in ['optimal', 'optimal_inaccurate']:","	if prob.status not in OKS:"),('psdr/nonlin.py',"import cvxpy as cp\n","import cvxpy as cp\nOKS = (cp.OPTIMAL, cp.OPTIMAL_INACCURATE)\n"))
quiet('startswith',('psdr/lipschitz_approx.py',"	if prob.status not in ['optimal', 'optimal_inaccurate']:","	if not prob.status.startswith('optimal'):"))
quiet('setlit',('psdr/lipschitz.py',"if sol['status'] not in ['optimal', 'unknown']:","state = sol['status']\n		accepted = {'optimal', 'unknown'}\n		if state not in accepted:"))
quiet('cornerhelper',(E,"""		problem.solve(**kwargs)
		if problem.status in ['infeasible']:
			#self._empty = True
			#self._unbounded = False
			#self._point = False
			raise EmptyDomainException	
""","""		problem.solve(**kwargs)
		self._raise_empty(problem)
		if False:
			pass
"""),(E,"	def corner(self, p, **kwargs):","	def _raise_empty(self, problem):\n		if problem.status == 'infeasible':\n			raise EmptyDomainException\n\n	def corner(self, p, **kwargs):"))
quiet('solvehelper',(E,"""		problem.solve(**kwargs)
		
		if problem.status in ['infeasible']:
			self._empty = True
			raise EmptyDomainException
		elif problem.status in ['optimal', 'optimal_inaccurate']:
			return self.unnormalize(np.array(x_norm.value).reshape(len(self)))
		else:
			raise SolverError("CVXPY exited with status '%s'" % problem.status)
""","""		return self._finish(problem, x_norm, kwargs)

	def _finish(self, prob, var, kw):
		prob.solve(**kw)
		if prob.status in ('optimal', 'optimal_inaccurate'):
			return self.unnormalize(np.array(var.value).reshape(len(self)))
		if prob.status == 'infeasible':
			self._empty = True
			raise EmptyDomainException
		raise SolverError("CVXPY exited with status '%s'" % prob.status)
"""))
quiet('bothways',(E,"			for u in U:\n				x1 = self.corner(u)\n				x2 = self.corner(-u)\n			#	if","			for u in np.vstack([U, -U]):\n				x1 = self.corner(u)\n			#	if"))
bad('onedim',(E,"""			if len(self) > 1:
				U = ortho_group.rvs(len(self))
			else:
				U = np.ones((1,1))
			for u in U:
				x1 = self.corner(u)
				x2 = self.corner(-u)
			#	if""","""			U = ortho_group.rvs(len(self))
			for u in U:
				x1 = self.corner(u)
				x2 = self.corner(-u)
			#	if"""))
bad('onedim2',(E,"""			if len(self) > 1:
				U = ortho_group.rvs(len(self))
			else:
				U = np.ones((1,1))
			for u in U:
				x1 = self.corner(u)
				x2 = self.corner(-u)
			#	if""","""			if len(self) >= 1:
				U = ortho_group.rvs(len(self))
			else:
				U = np.ones((1,1))
			for u in U:
				x1 = self.corner(u)
				x2 = self.corner(-u)
			#	if"""))
quiet('onedim3',(E,"""			if len(self) > 1:
				U = ortho_group.rvs(len(self))
			else:
				U = np.ones((1,1))
			for u in U:
				x1 = self.corner(u)
				x2 = self.corner(-u)
			#	if""","""			U = np.ones((1,1)) if len(self) == 1 else ortho_group.rvs(len(self))
			for u in U:
				x1 = self.corner(u)
				x2 = self.corner(-u)
			#	if"""))
def _last(o,n):
	s=open('/repo/psdr/subspace.py').read(); i=s.rindex(o); return ('psdr/subspace.py', s[i-60:i+len(o)], s[i-60:i]+n)
bad('second-of-two',_last("['optimal', 'optimal_inaccurate']","['optimal', 'optimal_inaccurate', 'infeasible']"))
quiet('aside',('psdr/subspace.py',CH+"		ub = ub.value","		ub = ub.value\n"+CH))
