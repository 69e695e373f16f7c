#!/bin/bash
# Demonstration: builds a small program against the library in the current directory and runs it in a
# scratch directory. Exit 0: behaves as it should; anything else: broken.
D=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/run"
cp "$D/main.rs" "$D/common.rs" "$W/src/"
cp "$D/Cargo.lock" "$W/Cargo.lock"
cat >"$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hybridcvrp = { path = "$R" }
serde_yaml = "0.8.15"
[profile.dev]
opt-level = 1
debug = 0
debug-assertions = false
overflow-checks = false
incremental = false
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" RUST_LOG=off
unset RUSTFLAGS RUSTC_WRAPPER
(cd "$W" && cargo build --offline -q 2>"$W/build.log") || { tail -30 "$W/build.log"; exit 4; }
cd "$W/run" || exit 3
timeout -k 5 "${DEMO_LIMIT:-150}" "$W/target/debug/demo" "$R"
