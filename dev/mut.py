#!/usr/bin/env python3
"""Development aid: apply a text edit to a scratch copy of /repo and run one check on it.
usage: dev/mut.py TABLE.py [name-prefix]; a table is a list CASES of (name, property, expect, [(file, old, new), ...])
expect: 'bad' (must report) or 'quiet' (must stay silent)."""
import concurrent.futures, importlib.util, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def one(case):
	name, pid, expect, edits = case
	d = tempfile.mkdtemp(prefix='psamut')
	try:
		shutil.copytree(os.environ.get('MUT_BASE', '/repo') + '/psdr', d + '/psdr')
		for f, old, new in edits:
			p = os.path.join(d, f)
			s = open(p).read()
			if s.count(old) < 1:
				# the same tokens with other blanks
				m = re.search(r'[ ]*'.join(re.escape(t) for t in re.findall(r'\w+|[ ]|[^\w ]', old) if t != ' '), s)
				if m is None:
					return name, pid, 'NOAPPLY', '%s: %r' % (f, old)
				s = s[:m.start()] + new + s[m.end():]
			else:
				s = s.replace(old, new, 1)
			open(p, 'w').write(s)
			compile(s, p, 'exec')
		ev = d + '/ev'
		try:
			r = subprocess.run(['python3', HERE + '/check.py', pid], env=dict(os.environ, PSA_REPO=d, PSA_EVIDENCE=ev), capture_output=True, text=True, timeout=500)
		except subprocess.TimeoutExpired:
			return name, pid, 'TIMEOUT', ''
		viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
		if r.returncode not in (0, 1):
			return name, pid, 'BROKEN', (r.stdout + r.stderr)[-600:]
		got = 'bad' if r.returncode == 1 else 'quiet'
		return name, pid, 'ok' if got == expect else 'WRONG(%s)' % got, '; '.join(v.split('replay=')[1].split(' ', 1)[1][:230] for v in viol[:2])
	finally:
		shutil.rmtree(d)

if __name__ == '__main__':
	spec = importlib.util.spec_from_file_location('t', sys.argv[1])
	m = importlib.util.module_from_spec(spec)
	spec.loader.exec_module(m)
	cases = [c for c in m.CASES if len(sys.argv) < 3 or c[0].startswith(sys.argv[2])]
	with concurrent.futures.ThreadPoolExecutor(6) as ex:
		res = list(ex.map(one, cases))
	for n, p, s, d in res:
		print('%-8s %-4s %-34s %s' % (s[:14], p, n, d if s != 'ok' or '-v' in sys.argv else d[:150]))
	print(sum(1 for r in res if r[2] == 'ok'), 'of', len(res), 'as expected')
