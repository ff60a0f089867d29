#!/bin/bash
# Build the framework from the committed files (run once, offline).
set -u
cd "$(dirname "$0")/harness" || exit 3
export CARGO_TARGET_DIR="$(cd .. && pwd)/target" CARGO_TERM_COLOR=never
mkdir -p "$CARGO_TARGET_DIR"
cargo build --offline -q -p dunesh_bin -p dune-model-check
