#!/bin/bash
# all.sh [tier]: every claimed check on /repo, one after another, with peak memory
cd "$(dirname "$0")/.."
for p in ${P:-$(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  /usr/bin/time -f "   %MkB %es" python3 run.py $p ${1:-quick} 2>&1 | grep -v KNOWN | cut -c1-300 | head -${N:-8}
done
