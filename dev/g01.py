CASES=[]
def bad(n,*e): CASES.append((n,'G01','bad',list(e)))
def quiet(n,*e): CASES.append((n,'G01','quiet',list(e)))
E='psdr/domains/euclidean.py'
bad('sweep',(E,'			p = p - Qeq','			p -= Qeq'))
bad('opts',('psdr/sample/minimax.py','	solver_opts = dict(solver_opts)\n',''))
bad('lloyd',('psdr/sample/minimax_lloyd.py','Xhat = np.array(Xhat, dtype = float)','Xhat = np.asarray(Xhat, dtype = float)'))
bad('merge',('psdr/misc.py','z = x.copy()','z = x'))
bad('seqlp',('psdr/seqlp.py','x = np.copy(x0)','x = np.asarray(x0)'),('psdr/seqlp.py','x = px','x[:] = px')) if False else None
bad('tensor-copy',('psdr/sample/stretch.py','	Ls = Ls.copy()\n',''),('psdr/sample/stretch.py','	Ls = Ls.copy()','')) if False else None
bad('sampler',('psdr/sample/sample.py','X = np.copy(np.array(X))','X = np.asarray(X)\n			X.sort()'))
bad('varpro',('psdr/polyridge.py','			Y = np.copy(V)\n','			Y = V\n			Y[0] += 0\n')) if False else None
bad('unnorm',(E,'D = 1.*self._unnormalize_der()','D = self._unnormalize_der()')) if False else None
quiet('comment',(E,'			p = p - Qeq','			# direction\n			p = p - Qeq'))
quiet('copyfirst',(E,'			p = p - Qeq.dot(Qeq.T.dot(p))','			p = np.array(p, dtype = float)\n			p -= Qeq.dot(Qeq.T.dot(p))'))
quiet('copyfirst2',(E,'			p = p - Qeq.dot(Qeq.T.dot(p))','			q = p.copy()\n			q[:] = q - Qeq.dot(Qeq.T.dot(p))\n			p = q'))
quiet('optmerge',('psdr/sample/minimax.py','	solver_opts = dict(solver_opts)\n','	solver_opts = {**solver_opts}\n'))
bad('stretch',('psdr/sample/stretch.py','	Ls = Ls.copy()','	Ls = Ls if isinstance(Ls, list) else list(Ls)'))
bad('vertex',('psdr/geometry/vertex.py','X0 = np.atleast_2d(np.array(X0)).copy()','X0 = np.atleast_2d(np.asarray(X0))'))
quiet('vertex-q',('psdr/geometry/vertex.py','X0 = np.atleast_2d(np.array(X0)).copy()','X0 = np.atleast_2d(np.array(X0))'))
bad('sobol-like',('psdr/seqlp.py',"	if 'solver' not in kwargs:","	search_kw = kwargs\n	x0 = np.atleast_1d(x0)\n	x0[np.isnan(x0)] = 0\n	if 'solver' not in kwargs:"))
bad('constraints-list',('psdr/seqlp.py',"	if constraint_grads is None:","	constraints.append(lambda x: 0.)\n	if constraint_grads is None:")) if False else None
bad('fill',('psdr/geometry/vertex.py','	Lrank = np.linalg.matrix_rank(L)','	np.fill_diagonal(Xhat, 1.)\n	Lrank = np.linalg.matrix_rank(L)')) if False else None
bad('fit-center',('psdr/subspace.py','		self._grads','		grads -= grads.mean(axis = 0)\n		self._grads')) if False else None
bad('gn',('psdr/gn.py','	x = np.copy(x0)\n	f_eval','	x = np.array(x0, copy = False)\n	f_eval'),('psdr/gn.py','			x = x_new','			x[:] = x_new'))
quiet('gn-copy',('psdr/gn.py','			x = x_new','			x[:] = x_new'))
quiet('gn-q',('psdr/gn.py','			x = x_new','			x = np.array(x_new)'))
bad('sort',('psdr/pgf.py','self.columns.append(deepcopy(column))','column.sort()\n		self.columns.append(deepcopy(column))'))
bad('drift-box',('psdr/domains/normal.py','	@property\n	def center','	def shift(self, d):\n		self.mean += d\n		return self.mean\n\n	@property\n	def center')) if False else None
bad('keep',('psdr/sample/sample.py','X = np.copy(np.array(X))','X = np.asarray(X)'),('psdr/sample/sample.py','	def sample(self','	def recenter(self):\n		self._X[:] -= self._X.mean(axis = 0)\n\n	def sample(self'))
quiet('keep-q',('psdr/sample/sample.py','X = np.copy(np.array(X))','X = np.array(X, copy = True)'))
