#!/bin/bash
# ./check.sh P06 [quick|thorough] [--replay FILE]: builds the harness against /repo's working tree, then runs one check.
cd "$(dirname "$0")" || exit 2
. tools/env.sh
log=$(mktemp)
crates=harness
# P38 also asks builds of the library without its optional features
case "$1" in P38) crates="harness plain/facade plain/bundle";; esac
for c in $crates; do
  if ! (cd "$c" && flock "$CARGO_TARGET_DIR.lock" cargo build --offline --quiet) >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"; exit 2
  fi
done
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/ocacheck" "$@"
