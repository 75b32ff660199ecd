#!/bin/bash
# Runs the checks on the planted bugs: bugs.sh [id...]
cd /verif
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply --check /verif/seeded/$b/patch.diff 2>/dev/null || { echo "$b does not apply"; continue; }
  git -C /repo apply /verif/seeded/$b/patch.diff
  t=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p quick > /tmp/bug.$b.log 2>&1; r=$?
  git -C /repo checkout -- .
  echo "$b $p exit $r $(($(date +%s)-t))s $(grep -m1 VIOLATION /tmp/bug.$b.log)"
done
