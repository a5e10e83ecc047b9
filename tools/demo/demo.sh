#!/bin/bash
# Builds the program beside it against the tree in the current directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo="$PWD"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$here/h.rs" "$d/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
htp = { path = "$repo", default-features = false }
flate2 = "1.0"
T
cd "$d"
CARGO_TARGET_DIR="$d/target" cargo build --offline -q 2>"$d/err" || { tail -20 "$d/err"; echo "demo does not build"; exit 99; }
timeout 120 "$d/target/debug/demo"
