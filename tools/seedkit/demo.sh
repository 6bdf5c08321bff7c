#!/bin/bash
# Builds the program beside this file against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 PATH="/root/.cargo/bin:$PATH"
unset RUSTFLAGS RUSTC_WRAPPER
tmp=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" "$tmp/data"
cp "$here/main.rs" "$here/kit.rs" "$tmp/src/"
cp "$here/Cargo.lock" "$tmp/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cd "$tmp" || exit 2
export CARGO_TARGET_DIR=${DEMO_TARGET:-$tmp/target}
cargo build --offline --quiet 2> "$tmp/log" || { cat "$tmp/log"; echo "demo does not build"; exit 3; }
DEMO_DIR="$tmp/data" timeout 120 "$CARGO_TARGET_DIR/debug/demo"
