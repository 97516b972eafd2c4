"""python3 dev/seed.py SPEC.py [ids...]: make and confirm planted bugs (patch, demo, meta) in scratch copies"""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - {'tests.test_coord::test_U'}
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
ORIG = '22e01e8'


def original_lines(path):
	out = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-s', 'HEAD', '--', path], capture_output=True, text=True).stdout.splitlines()
	base = subprocess.run(['git', '-C', '/repo', 'rev-list', ORIG], capture_output=True, text=True).stdout.split()
	return [l.split()[0].lstrip('^')[:39] in {b[:39] for b in base} for l in out]


def demo_ok(root, d):
	r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=root, capture_output=True, text=True, timeout=300, env=dict(ENV))
	return r.returncode, (r.stdout + r.stderr)[-300:]


for sid, prop, edits, demo, needs, breaks in ns['SEEDS']:
	if want and sid not in want:
		continue
	d = os.path.join(HERE, 'seeded', sid)
	wt = '/tmp/seedwt_' + sid
	shutil.rmtree(wt, ignore_errors=True)
	subprocess.check_call(['cp', '-a', '/repo', wt])
	try:
		os.makedirs(d, exist_ok=True)
		bad = None
		for path, old, new in edits:
			s = open(os.path.join(wt, path)).read()
			if s.count(old) != 1:
				bad = '%s: %d matches of %r' % (path, s.count(old), old[:60])
				break
			line = s[:s.index(old)].count('\n')
			orig = original_lines(path)
			span = range(line, line + max(1, old.count('\n') + (0 if old.endswith('\n') else 1)))
			if not any(orig[i] for i in span):
				bad = 'not an original line: ' + path
				break
			s = s.replace(old, new)
			compile(s, path, 'exec')
			open(os.path.join(wt, path), 'w').write(s)
		if bad:
			print(sid, 'BAD', bad)
			shutil.rmtree(d)
			continue
		open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout)
		open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
		open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$(realpath "$0")")/demo.py"\n')
		os.chmod(os.path.join(d, 'demo.sh'), 0o755)
		json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
		a, ta = demo_ok('/repo', d)
		b, tb = demo_ok(wt, d)
		if a != 0 or b == 0:
			print(sid, 'DEMO clean=%d patched=%d' % (a, b), ta if a else tb)
			shutil.rmtree(d)
			continue
		junit = '/tmp/junit_%s.xml' % sid
		subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:warnings', '--tb=line', '-n', '8', '--randomly-seed=1', '--randomly-dont-reorganize', '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + junit, 'tests'], cwd=wt, capture_output=True, env=ENV)
		subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', '/tmp/o_%s.json' % sid, 'junit:' + junit], capture_output=True)
		passed = set(json.load(open('/tmp/o_%s.json' % sid))['passed'])
		lost = sorted(STABLE - passed)
		if lost:
			print(sid, 'TESTS', len(lost), lost[:4])
			shutil.rmtree(d)
			continue
		r = subprocess.run(['python3', os.path.join(HERE, 'check.py'), prop], capture_output=True, text=True, env=dict(os.environ, PSA_REPO=wt, PSA_EVIDENCE='/tmp/ev_%s.json' % sid))
		v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
		print(sid, prop, 'OK caught' if r.returncode == 1 and v else 'OK MISSED (%d)' % r.returncode, v[:1])
	except Exception as e:
		print(sid, 'ERROR', repr(e)[:200])
		shutil.rmtree(d, ignore_errors=True)
	finally:
		shutil.rmtree(wt, ignore_errors=True)
	sys.stdout.flush()
