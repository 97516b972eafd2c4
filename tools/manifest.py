#!/usr/bin/env python3
"""Writes MANIFEST.json from CLAIMS and the property list."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
for i in ids:
	if i in CLAIMS:
		tech, note = CLAIMS[i]
		checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i, technique=tech, level='other', level_note=note))
na = [dict(property=i, reason=NA.get(i, 'check not built yet')) for i in ids if i not in CLAIMS]
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q psa check.py || true', checks=checks, not_applicable=na,
	notes='Static analysis only: the checks parse /repo with the standard ast module and never import or run it.'), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na], 'not claimed')
