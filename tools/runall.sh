#!/bin/bash
# tools/runall.sh [TIER] [IDS...]: every registered check, one line each
cd "$(dirname "$0")/.."
tier=${1:-quick}; shift
ids=${*:-$(ls harness | grep -E '^[a-z][0-9]+\.py$' | sed 's/\.py//')}
out=${OUT:-/tmp/runall}; mkdir -p $out
for m in $ids; do
  s=$(date +%s)
  timeout ${T:-900} python3-vt -B -m symx.run $m --tier $tier ${XARGS:-} > $out/$m.log 2>&1
  echo "$m rc=$? $(( $(date +%s)-s ))s $(grep -E 'VIOLATION|^ERROR' $out/$m.log | head -1 | cut -c1-220)"
done
