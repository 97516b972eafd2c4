#!/bin/bash
# every claimed check on PSA_REPO (default /repo), 6 at a time
cd "$(dirname "$0")/.."
ids=$(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']])")
export O=$(mktemp -d)
echo $ids | tr ' ' '\n' | xargs -P 6 -I{} bash -c 's=$(date +%s); PSA_EVIDENCE=$O/{}.json python3 check.py {} > $O/{}.log 2>&1; echo {} rc=$? $(( $(date +%s)-s ))s $(grep -c VIOLATION $O/{}.log)'
