"""Obligations, known findings, evidence files and exit status."""
from __future__ import annotations
import json, os, sys, time
from .loader import AnalysisBroken as LoaderBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('PSA_EVIDENCE') or os.path.join(HERE, 'evidence')


class AnalysisBroken(Exception):
	"""an anchor of the analysis is gone, or the analyser itself failed: no verdict"""


def load_known():
	"""known_findings.txt lines:
	finding: property=<id> rule=<rule> construct=<construct> :: <what fails>
	fixed: property=<id> <commit> <what failed>          (suppresses nothing)"""
	out = {}
	p = os.path.join(HERE, 'known_findings.txt')
	if os.path.exists(p):
		for line in open(p):
			line = line.strip()
			if not line.startswith('finding:'):
				continue
			head, _, what = line[len('finding:'):].partition('::')
			d = {}
			for part in head.split():
				k, _, v = part.partition('=')
				d[k] = v
			out[(d['property'], d['rule'], d['construct'])] = what.strip()
	return out


class Check:
	def __init__(self, pid, project):
		self.pid = pid
		self.P = project
		self.obs = []       # (verdict, rule, construct, detail)
		self._seen = {}
		self.stats = {}
		self.rules = {}
		self.assumptions = []
		self.floors = {}
		self.selftests = []
		self.t0 = time.time()

	def rule(self, name, text, floor=1):
		"""declare a rule; floor: about how many instances there are; far fewer means the rule lost its subject"""
		self.rules[name] = text
		self.floors[name] = floor

	def _add(self, verdict, rule, construct, detail):
		construct = construct.replace(' ', '_')
		k = (rule, construct)
		if k in self._seen:
			i = self._seen[k]
			old = self.obs[i]
			rank = {'ok': 0, 'unknown': 1, 'violated': 2}
			if rank[verdict] > rank[old[0]]:
				self.obs[i] = (verdict, rule, construct, detail)
			return
		self._seen[k] = len(self.obs)
		self.obs.append((verdict, rule, construct, detail))

	def ok(self, rule, construct, detail=''):
		self._add('ok', rule, construct, detail)

	def bad(self, rule, construct, detail):
		self._add('violated', rule, construct, detail)

	def unknown(self, rule, construct, detail=''):
		self._add('unknown', rule, construct, detail)

	def verdict(self, rule, construct, v, detail=''):
		{True: self.ok, False: self.bad, None: self.unknown}[v](rule, construct, detail)

	def guard(self, rule, construct, fn):
		"""run one part of the analysis; if the analyser cannot handle the construct the part is undecided"""
		try:
			return fn()
		except (AnalysisBroken, LoaderBroken):
			raise
		except Exception as e:
			self.unknown(rule, construct, 'analyser failed: %s: %s' % (type(e).__name__, e))

	def selftest(self, name, passed):
		"""positive example: a rule must fire on this fragment"""
		self.selftests.append((name, bool(passed)))
		if not passed:
			raise AnalysisBroken('self-test failed: %s' % name)

	def finish(self, tier, seed, interps=()):
		if getattr(self, 'crashed', None):
			first = next(iter(self.rules), 'analysis')
			self.rules.setdefault(first, '')
			self.unknown(first, 'rest-of-the-analysis', 'the analyser stopped: %s' % self.crashed)
		known = load_known()
		viol, listed = [], []
		for v, r, c, d in self.obs:
			if v != 'violated':
				continue
			what = known.get((self.pid, r, c))
			if what is not None:
				listed.append((r, c, what))
			else:
				viol.append((r, c, d))
		counts = {v: sum(1 for o in self.obs if o[0] == v) for v in ('ok', 'violated', 'unknown')}
		per_rule = {r: {v: sum(1 for o in self.obs if o[1] == r and o[0] == v) for v in ('ok', 'violated', 'unknown')} for r in self.rules}
		report = os.path.join(EVID, self.pid + '.report.txt')
		os.makedirs(os.path.dirname(report), exist_ok=True)
		with open(report, 'w') as fh:
			fh.write('property %s, root %s\n' % (self.pid, self.P.root if self.P else '-'))
			for r, t in self.rules.items():
				fh.write('rule %s: %s\n' % (r, t))
			for v, r, c, d in sorted(self.obs, key=lambda o: {'violated': 0, 'unknown': 1, 'ok': 2}[o[0]]):
				fh.write('%-9s %s  %s  %s\n' % (v, r, c, d))
		ev = {
			'property': self.pid, 'tier': tier, 'seed': seed, 'level': 'other',
			'coverage': {
				'explanation': 'Static analysis of the source tree; each obligation is one rule applied to one construct. '
					+ ' | '.join('%s: %s' % kv for kv in self.rules.items()),
				'obligations': len(self.obs), 'discharged': counts['ok'],
				'undecided': counts['unknown'], 'undecided_list': ['%s %s %s' % (r, c, d[:160]) for v, r, c, d in self.obs if v == 'unknown'][:60],
				'per_rule': per_rule,
				'samples': ['%s %s: %s' % (r, c, d[:200]) for v, r, c, d in self.obs if v == 'ok'][:12],
				'known_findings': ['%s %s' % (r, c) for r, c, _ in listed],
				'modules': len(self.P.modules) if self.P else 0,
				'selftests': [n for n, _ in self.selftests],
				**self.stats,
			},
			'assumptions': self.assumptions,
			'wall_s': round(time.time() - self.t0, 3),
			'violations': len(viol),
		}
		with open(os.path.join(EVID, self.pid + '.json'), 'w') as fh:
			json.dump(ev, fh, indent=1, default=str)
		print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d listed); %s' % (
			self.pid, len(self.obs), counts['ok'], counts['unknown'], counts['violated'], len(listed),
			', '.join('%s=%s' % kv for kv in self.stats.items() if isinstance(kv[1], int))))
		for r, d in per_rule.items():
			print('  rule %s: ok %d, undecided %d, violated %d' % (r, d['ok'], d['unknown'], d['violated']))
		for r, c, w in listed:
			print('KNOWN-FINDING: property=%s rule=%s construct=%s %s' % (self.pid, r, c, w))
		for r, c, d in viol:
			print('VIOLATION property=%s replay=%s rule=%s construct=%s %s' % (self.pid, report, r, c, d))
		if viol:
			return 1
		# a rule whose constructs have gone is undecided, an analysis that finds next to nothing is broken
		for r, n in self.floors.items():
			posed = sum(per_rule[r].values())
			if posed < min(n, max(1, n // 4)):
				print('UNDECIDED: rule %s found %d instances, expected at least %d' % (r, posed, n))
		if len(self.obs) * 4 < sum(self.floors.values()):
			print('ANALYSIS-BROKEN: %d obligations, expected at least %d' % (len(self.obs), sum(self.floors.values()) // 4))
			return 3
		return 0
