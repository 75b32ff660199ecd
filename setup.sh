#!/bin/bash
# Builds the engine; every check also builds what it needs itself.
set -e
cd "$(dirname "$0")/engine"
CARGO_TARGET_DIR=../.target/engine RUSTUP_TOOLCHAIN=stable cargo build --release --offline -q
