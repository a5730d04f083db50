#!/bin/bash
# Builds every simulator from /repo's working tree.
set -eu
cd "$(dirname "$0")"
. ./env.sh
export CARGO_TARGET_DIR="$(pwd)/.build/target"
for crate in $(cut -d' ' -f3 sim/bins | sort -u); do ( cd sim/$crate && cargo build --offline --locked --bins ); done
