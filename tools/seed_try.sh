#!/bin/bash
# seed_try.sh ID [--nocheck]: confirms a planted change in a scratch copy (builds, tests pass, demo 0/nonzero), then runs its property's check on it.
set -u
id=$1; S=/verif/seeded/$id; W=/tmp/sw/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; git -C /repo worktree prune; cp -a /repo "$W"; cd "$W" || exit 3
bash $S/demo.sh >/tmp/sw/$id.demo0 2>&1; d0=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 3; }
sed "s#cd /repo#cd $W#" /opt/vp/build.sh > /tmp/sw/$id.build.sh
rm -rf "$W/_build/CMakeCache.txt" "$W/_build"; bash /tmp/sw/$id.build.sh >/tmp/sw/$id.blog 2>&1 || { echo "$id: BUILD FAILS"; rm -rf "$W"; exit 3; }
t=$(find _build -type f -perm -u+x -name 'tests*' | head -1); (cd $(dirname $t); timeout 120 ./$(basename $t) >/tmp/sw/$id.tests 2>&1); tr=$?
bash $S/demo.sh >/tmp/sw/$id.demo1 2>&1; d1=$?
cd /; rm -rf "$W"
echo "$id: property=$P tests_rc=$tr demo_clean=$d0 demo_patched=$d1"
[ "${2:-}" = --nocheck ] && exit 0
git -C /repo apply $S/patch.diff && (cd /verif && VERIF_DEV_CACHE=1 VERIF_SEED=1 timeout 900 python3 check.py $P --tier quick | grep -E "VIOLATION|KNOWN" | head -3; echo "$id: check rc=${PIPESTATUS[0]}"); git -C /repo checkout -- .
