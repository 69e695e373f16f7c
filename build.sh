#!/bin/bash
# build.sh [dimacs] [web] [GROUP | none]: build the simulator and the program under test from /repo's working tree.
# GROUP names the part of the harness the calling check needs; if the whole harness does not compile
# against the tree, that part alone is tried. web: the simulator with the browser interface (native stand-ins
# for what binds it to a browser).
cd "$(dirname "${BASH_SOURCE[0]}")/sim" || exit 2
V=$(cd .. && pwd)
want_dimacs=0; want_web=0; group=core
for a in "$@"; do case $a in dimacs) want_dimacs=1 ;; web) want_web=1 ;; *) group=$a ;; esac; done
export CARGO_NET_OFFLINE=true
one() { # target-dir args...
    local T=$1; shift
    mkdir -p "$T"
    # cargo compares times; compare contents, so that no copy or checkout with odd times is missed
    local h; h=$( (find /repo/src "$V/sim/src" "$V/vendor" -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml "$V/sim/Cargo.toml" "$V/sim/Cargo.lock"; echo "$@") | sha256sum)
    if [ "$(cat "$T/.stamp" 2>/dev/null)" != "$h" ]; then
        rm -f "$T/.stamp"
        [ -d "$T/release" ] && CARGO_TARGET_DIR="$T" cargo clean --release --offline -p hybridcvrp -p dst -p simhook >/dev/null 2>&1
        CARGO_TARGET_DIR="$T" cargo build --release --offline "$@" >"$T/build.log" 2>&1 || return 1
        echo "$h" >"$T/.stamp"
    fi
    return 0
}
rm -f "$V/target/FALLBACK"
if [ $group != none ] && ! one "$V/target" --bins; then
    cp "$V/target/build.log" "$V/target/build-full.log"
    if ! one "$V/target" --bins --no-default-features --features "$group"; then
        # the program on its own, and only what is generic
        grep -E '^error' -A6 "$V/target/build.log" | head -40
        echo "ERROR: the harness does not build against this tree"
        exit 2
    fi
    echo "note: built with the parts needed for this check only"
fi
if [ $want_dimacs = 1 ]; then
    one "$V/target/dimacs" --bin app_dimacs --no-default-features --features dimacs || { grep -E '^error' -A6 "$V/target/dimacs/build.log" | head -40; echo "ERROR: contest build failed"; exit 2; }
fi
if [ $want_web = 1 ]; then
    one "$V/target/web" --bin dst --no-default-features --features web || { grep -E '^error' -A6 "$V/target/web/build.log" | head -40; echo "ERROR: the browser interface does not build against this tree"; exit 2; }
fi
exit 0
