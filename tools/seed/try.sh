#!/bin/bash
# try.sh ID...: applies each planted bug to /repo, runs its property's check, undoes it
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} /verif/run.sh check ${CHECK:-$p} >/tmp/try.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id ${CHECK:-$p} rc=$rc $(( $(date +%s)-s ))s $(grep -c VIOLATION /tmp/try.$id.log) $(grep -m1 VIOLATION /tmp/try.$id.log | cut -c1-200)"
done
