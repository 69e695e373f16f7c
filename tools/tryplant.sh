#!/bin/bash
# tryplant.sh ID... : (developer tool) confirm planted changes in a scratch copy of /repo: the demonstration
# passes without and fails with the change, the stable tests pass with it.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
C=/tmp/plant/repo
[ -d $C ] || { mkdir -p /tmp/plant; cp -a /repo $C; }
git -C $C checkout -q -- . ; (cd $C && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD)
T=/tmp/plant/demo; mkdir -p $T/src
demo() { # id -> rc, with one shared target directory
    local d=$V/seeded/$1; rm -f $T/src/main.rs $T/src/common.rs; cp $d/main.rs $d/common.rs $T/src/; cp $d/Cargo.lock $T/
    sed -n '/^cat >/,/^T$/p' $d/demo.sh | sed '1d;$d' | sed "s#\$R#$C#;s#\$D#$d#" > $T/Cargo.toml
    mkdir -p /tmp/plant/run; (cd $T && CARGO_TARGET_DIR=/tmp/plant/dt cargo build --offline -q 2>/tmp/plant/b.log) || { grep -E '^error' -A8 /tmp/plant/b.log | head -40; return 99; }
    (cd /tmp/plant/run && /usr/bin/time -f '%es' timeout 200 env RUST_LOG=off /tmp/plant/dt/debug/demo $C 2>&1 | tail -4; exit ${PIPESTATUS[0]})
}
for id in "$@"; do
    echo "== $id"
    demo $id; a=$?
    git -C $C apply --check $V/seeded/$id/patch.diff || { echo "$id PATCH DOES NOT APPLY"; continue; }
    git -C $C apply $V/seeded/$id/patch.diff
    demo $id; b=$?
    t=skipped
    if [ -z "$NOTEST" ]; then
        (cd $C && CARGO_PROFILE_DEV_DEBUG=line-tables-only timeout 400 cargo test --workspace --offline -- --test-threads 8 >/tmp/plant/t.log 2>&1
         timeout 400 cargo test --bench performance --offline >>/tmp/plant/t.log 2>&1; cargo check --features dimacs --offline >>/tmp/plant/t.log 2>&1 || echo DIMACSFAIL >>/tmp/plant/t.log)
        n=$(grep -c 'utils::comparison::tests::.*ok$\|tests::iteration_schedule .* ok$' /tmp/plant/t.log); s=$(grep -c '^Success' /tmp/plant/t.log)
        t="unit $n/6 bench $s"; grep -q DIMACSFAIL /tmp/plant/t.log && t="$t DIMACSFAIL"
    fi
    git -C $C checkout -q -- .
    echo "$id unchanged=$a patched=$b tests: $t"
done
