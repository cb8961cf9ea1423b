#!/bin/bash
# Usage: run.sh PROPERTY quick|thorough     builds the harness from /repo's working tree and runs one check
#        run.sh replay FILE                 re-runs one saved case
cd "$(dirname "$0")" || exit 2
. ./env.sh
export VF_ROOT="$PWD"
id=$1
[ "$id" = replay ] && id=$(sed -n 's/.*"property": *"\(P[0-9]*\)".*/\1/p' "$2" | head -1)
hooks_for "$id"
crate_for "$id"
log=$(mktemp)
if ! cargo build --offline --manifest-path $crate/Cargo.toml --bin $bin >"$log" 2>&1; then
  grep -A15 "^error" "$log"; rm -f "$log"; echo "error: the harness does not build"; exit 2
fi
rm -f "$log"
if [ "$1" = replay ]; then exec "$CARGO_TARGET_DIR/debug/$bin" replay "$2"; fi
exec "$CARGO_TARGET_DIR/debug/$bin" check "$1" "$2"
