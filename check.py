#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: decide one property from the source under /repo (or $PSA_REPO)."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

from psa.loader import Project
from psa.loader import AnalysisBroken as LB
from psa.report import Check, AnalysisBroken


def main(pid):
	tier = os.environ.get('VERIF_TIER', 'quick')
	seed = int(os.environ.get('VERIF_SEED', '0') or 0)
	mod = importlib.import_module('psa.checks.' + pid.lower())
	ck = None
	try:
		P = Project(os.environ.get('PSA_REPO', '/repo'))
		ck = Check(pid, P)
		mod.run(ck, P, tier)
		return ck.finish(tier, seed)
	except (LB, AnalysisBroken) as e:
		print('ANALYSIS-BROKEN: %s' % e)
		if ck is not None and any(o[0] == 'violated' for o in ck.obs):
			return ck.finish(tier, seed)
		return 3
	except (KeyboardInterrupt, SystemExit):
		raise
	except BaseException as e:
		# a construct the analyser has no rule for: what was decided before it stands, the rest is undecided
		traceback.print_exc()
		if ck is None:
			return 4
		print('ANALYSIS-CRASH: %s: %s' % (type(e).__name__, e))
		ck.crashed = '%s: %s' % (type(e).__name__, e)
		return ck.finish(tier, seed)


if __name__ == '__main__':
	out = []

	def go():
		try:
			out.append(main(sys.argv[1]))
		except BaseException:
			traceback.print_exc()
			out.append(4)
	t = threading.Thread(target=go)
	t.start()
	t.join()
	sys.stdout.flush()
	os._exit(out[0] if out else 4)
