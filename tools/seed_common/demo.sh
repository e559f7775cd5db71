#!/bin/bash
# Runs the small program beside this script against the crate in the current directory; everything it writes stays in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
. /opt/vp/env.sh 2>/dev/null
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/run/input"
cp "$here/main.rs" "$here/util.rs" "$d/src/"; : > "$d/run/input/empty.dat"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
posidonius = { path = "$repo" }
[profile.release]
opt-level = 1
debug = false
T
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/t" cargo build --release --offline --quiet >build.log 2>&1 || { tail -20 build.log; exit 3; }
cd run && RUST_MIN_STACK=268435456 timeout 200 "$d/t/release/demo"
