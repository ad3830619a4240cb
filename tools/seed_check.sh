#!/bin/bash
# seed_check.sh ID...: applies each planted change to /repo, runs its property's quick check, undoes it
cd /verif; for s in "$@"; do t0=$(date +%s); P=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$s/patch.diff || continue; VERIF_DEV_CACHE=1 VERIF_SEED=1 timeout 900 python3 check.py $P --tier quick > /tmp/sw/$s.chk 2>&1; rc=$?; git -C /repo checkout -- .
echo "$s $P rc=$rc $(($(date +%s)-t0))s violations=$(grep -c '^VIOLATION' /tmp/sw/$s.chk)"; done
