#!/bin/bash
# Builds every explorer once (each check rebuilds what it needs by itself).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
export CARGO_TARGET_DIR="$here/target" RUSTFLAGS=
cd "$here/mc" && cargo build --release --offline --bins
