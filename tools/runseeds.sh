#!/bin/bash
# runseeds.sh [ID...]: which planted changes the quick checks catch (works on /repo's tree, restores it).
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply --check /verif/seeded/$id/patch.diff 2>/dev/null || { echo "$id $p STALE"; continue; }
  git -C /repo apply /verif/seeded/$id/patch.diff
  s=$(date +%s); out=$(timeout 900 bash check.sh $p quick 2>/tmp/seed/err); rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((e-s))s $(echo "$out" | grep -A1 -m1 VIOLATION | tail -1 | cut -c1-200)"
done
