CASES=[]
F='psdr/function.py'
def bad(n,*e): CASES.append((n,'F01','bad',[(F,)+x for x in e]))
def quiet(n,*e): CASES.append((n,'F01','quiet',[(F,)+x for x in e]))
bad('merge-order',("kwargs = merge(self.kwargs, kwargs)\n\t\t\n\t\tX_norm = np.atleast_1d(X_norm)\n\n\t\t# If","kwargs = merge(kwargs, self.kwargs)\n\t\t\n\t\tX_norm = np.atleast_1d(X_norm)\n\n\t\t# If"))
bad('call-merge',("	def __call__(self, X_norm, return_grad = False, **kwargs):\n\t\tkwargs = merge(self.kwargs, kwargs)","	def __call__(self, X_norm, return_grad = False, **kwargs):\n\t\tkwargs = merge(kwargs, self.kwargs)"))
bad('fd-base',("fx = self.eval(x, **kwargs)","fx = self.eval(x)"))
bad('fd-step',("(self.eval(x + h*ei, **kwargs) - fx)/h","(self.eval(x + h*ei, **kwargs) - self.eval(x - h*ei, **kwargs))/h"))
bad('no-D',("\t\t\tgrads = grads.dot(D.T)\n\t\t\treturn self._shape_grad(X_norm, grads)\n\n\t\t# Try","\t\t\treturn self._shape_grad(X_norm, grads)\n\n\t\t# Try"))
bad('call-D',("\t\t\tgrads = grads.dot(D.T)\n\n\t\t\tif len","\t\t\tif len"))
bad('axis',("r in ret], axis = 1)","r in ret], axis = 0).reshape(len(X), -1, len(self.domain))"))
bad('last-fun',("[fun(x, **kwargs_) for fun in funs]","[funs[0](x, **kwargs_) for fun in funs]"))
bad('async-unnorm',("submit(subcall, self._funs_pickle, x, D, **kwargs) for x in X]","submit(subcall, self._funs_pickle, x, D, **kwargs) for x in np.atleast_2d(X_norm)]"))
bad('squeeze-pts',("elif grads.shape[1] == 1:","elif grads.shape[1] == 1 or len(X) == 1:"))
bad('flat-all',("if len(X_norm.shape) == 1:\n\t\t\t\tfX = fX.flatten()","if len(fX) == 1:\n\t\t\t\tfX = fX.flatten()"))
bad('base-kw',("return self.eval(X, **kwargs), self.grad(X, **kwargs)","return self.eval(X, **kwargs), self.grad(X)"))
bad('col',("fX[i] = fXi.reshape(len(X),1)","fX[i] = fXi.reshape(1,len(X))"))
bad('vec-kw',("fX = [fun(X, **kwargs) for fun in self._funs]","fX = [fun(X, **self.kwargs) for fun in self._funs]"))
bad('grads-wrong-order',("for grad in self._grads]) for x in X])","for grad in reversed(self._grads)]) for x in X])"))
bad('kw-shadow',("			self._funs = funs\n\n\t\tif grads","			self._funs = funs\n\t\tself.kwargs = {}\n\n\t\tif grads"))
quiet('central',("(self.eval(x + h*ei, **kwargs) - fx)/h","(self.eval(x + h*ei, **kwargs) - self.eval(x - h*ei, **kwargs))/(2*h)"))
quiet('helper',("			grads = grads.dot(D.T)\n\t\t\treturn self._shape_grad(X_norm, grads)\n\n\t\t# Try","			return self._finish(X_norm, grads, D)\n\n\t\t# Try"),("	def _shape_grad","	def _finish(self, X, grads, D):\n\t\tout = np.einsum('ijk,lk->ijl', grads, D)\n\t\treturn self._shape_grad(X, out)\n\n	def _shape_grad"))
quiet('loop',("return np.vstack([ np.hstack([fun(x, **kwargs) for fun in self._funs]) for x in X])","rows = []\n\t\t\t\tfor j in range(len(X)):\n\t\t\t\t\trow = []\n\t\t\t\t\tfor k in range(len(self._funs)):\n\t\t\t\t\t\trow.append(self._funs[k](X[j], **kwargs))\n\t\t\t\t\trows.append(np.hstack(row))\n\t\t\t\treturn np.array(rows)"))
quiet('separate',("		if self.return_grad:\n\t\t\t# If","		if self.return_grad and self.vectorized:\n\t\t\t# If"))
quiet('dict',("kwargs = merge(self.kwargs, kwargs)\n\t\t\n\t\tX_norm = np.atleast_1d(X_norm)\n\n\t\t# If","kwargs = dict(self.kwargs, **kwargs)\n\t\t\n\t\tX_norm = np.atleast_1d(X_norm)\n\n\t\t# If"))
quiet('diag',("\t\t\tgrads = grads.dot(D.T)\n\n\t\t\tif len","\t\t\tgrads = grads*np.diag(D)\n\n\t\t\tif len"))
