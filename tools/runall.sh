#!/bin/bash
# Runs every claimed check (quick tier) and prints one line each.
cd "$(dirname "$0")/.."
for id in ${@:-$(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 -m pqsa $id > /tmp/w/run_$id.log 2>&1; rc=$?
  echo "$id rc=$rc $(( $(date +%s) - s ))s $(grep -m1 obligations /tmp/w/run_$id.log | cut -c1-150)"
done
