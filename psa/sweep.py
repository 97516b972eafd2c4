"""Analyse every function of the package once, on symbolic arguments (callees not inlined
except nested functions), and collect the events of the abstract interpreter."""
from __future__ import annotations
import ast
from .interp import Interp, AbsRaise, AbsDead, Budget
from .terms import *


class Sweep:
	def __init__(self, P, inline=None):
		self.P = P
		self.events = []       # (Func, event)
		self.results = {}      # qualname -> (Func, value, state, interp)
		self.failed = []
		self.n = 0
		for f in P.all_functions():
			if f.parent is not None:
				continue
			self.one(f, inline)

	def one(self, f, inline):
		I = Interp(self.P)
		top = f.node

		def filt(g):
			return g.node is top or inside(g.node, top) or (inline is not None and inline(g))
		I.inline_filter = filt
		st = I.new_state()
		args = []
		a = f.node.args
		names = [x.arg for x in a.posonlyargs + a.args]
		if f.cls is not None and not f.is_static and names:
			if f.is_classmethod:
				args.append(mk('class', f.cls.qualname))
			else:
				args.append(I.opaque_obj(f.cls, 'self'))
			names = names[1:]
		for n in names:
			args.append(param(n, 'any'))
		kw = {x.arg: param(x.arg, 'any') for x in a.kwonlyargs}
		if a.kwarg is not None:
			kw['**'] = param('**' + a.kwarg.arg, 'any')
		if a.vararg is not None:
			args.append(mk('stararg', param('*' + a.vararg.arg, 'list')))
		v = None
		try:
			v = I.call_func(I.func_value(f, None), args, kw, st, None)
			self.results[f.qualname] = (f, v, st, I)
		except AbsDead:
			self.results[f.qualname] = (f, None, st, I)
		except AbsRaise:
			self.results[f.qualname] = (f, None, st, I)
		except (Budget, RecursionError) as e:
			self.failed.append((f.qualname, repr(e)))
		# nested functions that were never called: run them too
		for ft, (g, cfid, d, kd) in list(I.funcs.items()):
			if isinstance(getattr(g, 'node', None), (ast.FunctionDef, ast.Lambda)) and g.node is not top and inside(g.node, top) and g.qualname not in I.analysed:
				try:
					ps = [param(x.arg, 'any') for x in g.node.args.args]
					I.call_func(ft, ps, {}, st.copy(), None)
				except (AbsDead, AbsRaise, Budget, RecursionError, KeyError):
					pass
		self.n += 1
		for e in I.events:
			self.events.append((f, e))


_ins = {}


def inside(n, top):
	k = id(top)
	if k not in _ins:
		_ins[k] = (top, {id(x) for x in ast.walk(top)})
	return id(n) in _ins[k][1]
