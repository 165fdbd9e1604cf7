#!/bin/bash
# tryseeds.sh ID...: apply each planted bug to /repo, run its property's check, undo it
for s in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
 VERIF_SEED=1 VERIF_TIER=quick timeout 900 /verif/check.sh $p > /tmp/try.$s.log 2>&1; rc=$?
 git -C /repo checkout -- .
 echo "$s rc=$rc $(grep VIOLATION /tmp/try.$s.log)"
done
