#!/bin/sh
# build_native.sh TARGET_DIR : builds the replay binary (the same harness on the unmodified crates)
set -e
cd "$(dirname "$0")/native"
export CARGO_TARGET_DIR=$1 CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=
unset RUSTC_BOOTSTRAP
cargo build --offline >"$1.log" 2>&1 || { grep -E "^error" -A12 "$1.log" >&2; tail -5 "$1.log" >&2; exit 2; }
