#!/bin/sh
# build_sym.sh TARGET_DIR OUT.ll : compiles the harness with the contracts of /repo and extracts its IR
set -e
T=$1; OUT=$2
cd "$(dirname "$0")/sym"
export RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=$T CARGO_NET_OFFLINE=true
rm -f "$T"/release/deps/hsym.*
cargo rustc --release --offline -- -C save-temps >"$T.log" 2>&1 || { grep -E "^error" -A12 "$T.log" >&2; tail -5 "$T.log" >&2; exit 2; }
B=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
API=$(grep -oE '\bh_[a-z0-9_]+' ../src/lib.rs | sort -u | paste -sd,)
"$B/opt" -passes='internalize,globaldce' -internalize-public-api-list="$API" "$T"/release/deps/hsym.*.rcgu.lto.input.bc -S -o "$OUT"
