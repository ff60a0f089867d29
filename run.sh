#!/bin/bash
# Build the harness against /repo's current tree, then run one check.
#   ./run.sh ID [--tier quick|thorough] [--replay FILE]
set -u
cd "$(dirname "$0")/harness" || exit 3
export VERIF_DIR="$(cd .. && pwd)"
export CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_TERM_COLOR=never
# Never trust modification times of /repo: its crates are always compiled again.
if [ -d "$CARGO_TARGET_DIR/debug/.fingerprint" ] && [ -z "${VERIF_NO_REBUILD:-}" ]; then
  find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 \( -name 'dune-*' -o -name 'dunesh_*' \) -print0 | xargs -0 -r rm -rf
fi
log="$CARGO_TARGET_DIR/build.log"; mkdir -p "$CARGO_TARGET_DIR"
if ! cargo build --offline -q -p dunesh_bin -p dune-model-check >"$log" 2>&1; then
  cat "$log" >&2; echo "run.sh: build failed" >&2; exit 3
fi
ulimit -c 0
exec "$CARGO_TARGET_DIR/debug/check" "$@"
