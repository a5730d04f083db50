#!/bin/bash
# Run in the repository: builds main.rs against it in a scratch directory and runs it. Exit 0 = behaviour is right.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d "${TMPDIR:-/tmp}/dd-demo.XXXXXX"); trap 'find "$d" -delete' EXIT
mkdir -p "$d/src"; cp "$here"/*.rs "$d/src/"; sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$d/Cargo.toml"
cp "$here/Cargo.lock.in" "$d/Cargo.lock"
cd "$d"; export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
cargo build -q --offline || exit 90
timeout 120 ./target/debug/demo
