#!/bin/bash
# run every claimed check (quick tier unless given), print the verdicts
cd "$(dirname "$0")/.." || exit 2
for p in ${PROPS:-$(python3 -c "import json; print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  bash check.sh $p "$@" > /tmp/all.$p.log 2>&1; echo "$p rc=$? $(tail -1 /tmp/all.$p.log)"
done
