#!/bin/bash
# trial.sh ID... : (developer tool) like catch.sh, but with a scratch copy of /repo and of the harness (/tmp/tr), so
# that it can run while something else uses /repo.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
T=/tmp/tr; mkdir -p $T/out/evidence $T/out/replays
[ -d $T/repo ] || git clone -q /repo $T/repo
(cd $T/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD)
rsync -a --delete --exclude target $V/sim $V/vendor $T/ 2>/dev/null || { mkdir -p $T/sim $T/vendor; cp -a $V/sim/. $T/sim/; cp -a $V/vendor/. $T/vendor/; }
sed -i "s#/repo#$T/repo#" $T/sim/Cargo.toml; cp -n /repo/Cargo.lock $T/repo/ 2>/dev/null
export CARGO_NET_OFFLINE=true DST_SCRATCH=/tmp VERIF_DIR=$T/out
for id in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
    git -C $T/repo apply $V/seeded/$id/patch.diff || { echo "$id APPLY"; continue; }
    s=$(date +%s); tgt=$T/t; f="--bins"
    [ $p = C22 ] && { tgt=$T/tw; f="--bin dst --no-default-features --features web"; }
    (cd $T/sim && CARGO_TARGET_DIR=$tgt nice cargo build --release --offline $f >$T/b.log 2>&1) || { echo "$id BUILD"; grep -E '^error' -A6 $T/b.log | head -20; git -C $T/repo checkout -q -- .; continue; }
    DST_APP=$tgt/release/app DST_PROBE=$tgt/release/probe nice timeout 900 $tgt/release/dst check $p >$T/$id.log 2>&1; rc=$?
    git -C $T/repo checkout -q -- .
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " $T/$id.log; then echo "$id CAUGHT $(($(date +%s)-s))s $(grep -m1 '^key' $T/$id.log)"; else echo "$id MISSED rc=$rc"; fi
done
