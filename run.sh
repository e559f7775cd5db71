#!/bin/bash
# usage: run.sh <property> [quick|thorough] [law]   -- rebuilds the harness from /repo's working tree, then runs one check
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. /opt/vp/env.sh 2>/dev/null
export CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_NET_OFFLINE=true
mkdir -p target evidence
log=$(mktemp)
if ! (cd harness && cargo build --release --offline --quiet) >"$log" 2>&1; then
  grep -E "^error" -A8 "$log" | head -60; rm -f "$log"; echo "harness does not build against the current tree"; exit 2
fi
case "$1" in
  C04|C05|C25)
    if ! cargo build --release --offline --quiet --manifest-path /repo/Cargo.toml --target-dir "$VERIF_DIR/target/repo" >"$log" 2>&1; then
      grep -E "^error" -A8 "$log" | head -40; rm -f "$log"; echo "posidonius does not build"; exit 2
    fi
    if ! gcc -shared -fPIC -O1 -o target/shim.so harness/shim.c -ldl >"$log" 2>&1; then cat "$log"; rm -f "$log"; echo "fault injection library does not build"; exit 2; fi ;;
esac
rm -f "$log"
exec target/release/harness check "$1" "${2:-quick}" $3
