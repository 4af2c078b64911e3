#!/bin/bash
# runbugs.sh [ids]: runs each bug's own check with it applied
cd /verif
for i in ${@:-$(ls seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i APPLY"; continue; }
 s=$(date +%s)
 VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 ./check ${CHECK:-$p} -tier quick > /tmp/pl/run.out 2>&1; rc=$?
 git -C /repo checkout -q -- .
 echo "$i rc=$rc $(($(date +%s)-s))s $(grep -c "^VIOLATION property=$p" /tmp/pl/run.out) :: $(grep -a -m1 -v '^VIOLATION' /tmp/pl/run.out | cut -c1-150)"
done
