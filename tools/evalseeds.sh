#!/bin/bash
# Runs every check against its planted bugs (dev helper): tools/evalseeds.sh [seed...]
cd /verif
for s in ${@:-$(ls seeded)}; do
  id=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s NOAPPLY"; continue; }
  t0=$(date +%s); out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $id 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $id rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -E '^VIOLATION' | head -1)"
done
