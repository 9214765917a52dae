#!/bin/bash
# check.sh <binary> <property> <quick|thorough>: builds the explorer against /repo's current tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
export CARGO_TARGET_DIR="$here/target" MC_ROOT="$here" RUSTFLAGS= RUST_BACKTRACE=0
feat=(); [ "$1" = slow ] && feat=(--features slow)
cd "$here/mc" || exit 2
log=$(cargo build --release --offline --bin "$1" "${feat[@]}" 2>&1) || { echo "$log" | tail -40; echo "the explorer does not build against /repo"; exit 2; }
exec "$CARGO_TARGET_DIR/release/$1" check "$2" "$3"
