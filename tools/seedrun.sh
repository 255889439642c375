#!/bin/bash
# seedrun.sh ID...: apply a seeded change to /repo, run its property's quick
# check, undo the change, and say whether the check caught it.
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash /verif/check.sh $p quick > /tmp/seedrun.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -a ^VIOLATION /tmp/seedrun.$id.log | head -3)"
done
