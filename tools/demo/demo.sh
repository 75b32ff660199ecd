#!/bin/bash
# Runs the cases of cases.json on the crate in the current directory and compares the results.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/manifest.txt" > "$tmp/Cargo.toml"
CARGO_TARGET_DIR="$tmp/target" cargo build --offline --quiet --manifest-path "$tmp/Cargo.toml" || { echo "demo does not build"; exit 3; }
python3 "$here/compare.py" "$tmp/target/debug/demo" "$here/cases.json"
