#!/bin/bash
# run all (or the given) checks, one after another; prints a summary line for each
cd "$(dirname "$0")/.."
tier=${TIER:-quick}
ids="$@"
[ -z "$ids" ] && ids=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")
for i in $ids; do
  s=$(date +%s.%N)
  timeout 900 ./check $i $tier > /tmp/runall.$i.log 2>&1; rc=$?
  e=$(date +%s.%N)
  echo "$i rc=$rc $(echo "$e-$s"|bc) $(grep -cE '^INCONCLUSIVE' /tmp/runall.$i.log) inconclusive; $(grep -E '^(VIOLATION|KNOWN)' /tmp/runall.$i.log | head -3 | tr '\n' ' ')"
done
