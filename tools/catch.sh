#!/bin/bash
# catch.sh ID... : (developer tool) apply each planted change to /repo, run the quick check of its property, undo it.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 3; }
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
for id in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
    git -C /repo apply $V/seeded/$id/patch.diff || { echo "$id APPLY"; continue; }
    s=$(date +%s)
    timeout 900 bash $V/check.sh $p quick >/tmp/catch.$id.log 2>&1; rc=$?
    e=$(date +%s)
    git -C /repo checkout -q -- .
    v=$(grep "^VIOLATION property=$p " /tmp/catch.$id.log | head -1)
    if [ $rc = 1 ] && [ -n "$v" ]; then echo "$id CAUGHT $((e-s))s"; else echo "$id MISSED rc=$rc $((e-s))s"; fi
done
