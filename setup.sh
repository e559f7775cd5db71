#!/bin/bash
# Builds the harness once (checks rebuild incrementally from /repo's tree when needed).
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
(cd harness && cargo build --release --offline --quiet) 2>/dev/null
cargo build --release --offline --quiet --manifest-path /repo/Cargo.toml --target-dir "$CARGO_TARGET_DIR/repo" 2>/dev/null
exit 0
