#!/bin/bash
# Runs every claimed check (or those given) at a tier; prints one line each.
cd "$(dirname "$0")/.."
tier=${TIER:-quick}
ids=${*:-$(python3-vt -c "from checks import PROPS; print(*PROPS)")}
for i in $ids; do
  s=$(date +%s)
  out=$(python3-vt -m vx.run $i --tier $tier 2>&1); rc=$?
  echo "$i rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | tail -1)"
  [ $rc -ne 0 ] && echo "$out" | grep -E 'VIOL|UNDEC|Error' | head -5
  [ $rc -eq 0 ] && echo "$out" | grep -E 'UNDEC|mismatch=[1-9]' | head -5
done
true
