"""python3 dev/cover.py [IDS]: statements of each library function read by the concrete-shape interpreter (and functions entered by the value-term interpreter)"""
import ast, importlib, json, os, sys, threading, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
IDS = sys.argv[1:] or 'G01 G02 G03 G04 G05 D01 D02 D03 D04 D05 M01 M02 F01 F02 L01 L02 S01 R01 O01 Q01 A01'.split()


def one(pid):
	out = []

	def go():
		from psa import arr, interp
		from psa.loader import Project
		from psa.report import Check
		seen, ent = set(), set()
		st = arr.Interp.stmt

		def stmt(self, s, env):
			f = env.get('@f')
			if f is not None:
				seen.add((f.short, s.lineno))
			return st(self, s, env)
		arr.Interp.stmt = stmt
		cf = [c for c in vars(interp).values() if isinstance(c, type) and 'call_func' in vars(c)][0]
		orig = cf.call_func

		def call_func(self, ft, *a, **k):
			try:
				ent.add(getattr(ft.args[0], 'short', None) or str(ft.args[0]))
			except Exception:
				pass
			return orig(self, ft, *a, **k)
		cf.call_func = call_func
		P = Project('/repo')
		importlib.import_module('psa.checks.' + pid.lower()).run(Check(pid, P), P, 'quick')
		out.append((seen, ent))
	t = threading.Thread(target=go)
	t.start()
	t.join()
	return pid, out[0] if out else (set(), set())


if __name__ == '__main__':
	from psa.loader import Project
	P = Project('/repo')
	seen, ent = {}, {}
	with mp.Pool(7) as pool:
		for pid, (s, e) in pool.imap_unordered(one, IDS, chunksize=1):
			for x in s:
				seen.setdefault(x, set()).add(pid)
			for x in e:
				ent.setdefault(x, set()).add(pid)
	rows = []
	for f in P.all_functions():
		lines = sorted({n.lineno for n in ast.walk(f.node) if isinstance(n, ast.stmt) and n is not f.node and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))})
		got = [l for l in lines if (f.short, l) in seen]
		ids = sorted(set().union(*[seen[(f.short, l)] for l in got])) if got else []
		rows.append((f.short, len(got), len(lines), ids, sorted({i for k in ent if k.endswith(f.short) for i in ent[k]}), [l for l in lines if l not in got]))
	for short, a, b, ids, e, miss in sorted(rows):
		print('%-70s %3d/%3d %s | %s | %s' % (short, a, b, ','.join(ids), ','.join(e), ' '.join(map(str, miss[:12])) if a else ''))
