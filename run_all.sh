#!/bin/bash
# runs all checks: run_all.sh [quick|thorough]
cd "$(dirname "$0")"
tier=${1:-quick}
for p in $(python3 -c "import json; print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  timeout 900 python3 check.py $p --tier $tier > /tmp/run_$p.$tier.log 2>&1; rc=$?
  echo "$p rc=$rc $(grep -E "^$p $tier" /tmp/run_$p.$tier.log) $(grep -cE '^(UNDECIDED|NOT-ENC|PROBLEM|VACUOUS)' /tmp/run_$p.$tier.log)"
done
