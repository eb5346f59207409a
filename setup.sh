#!/bin/bash
# Builds the checks once (they rebuild themselves from /repo's tree on every run).
cd "$(dirname "$0")" || exit 2
. tools/env.sh
for c in plain/facade plain/bundle; do (cd "$c" && cargo build --offline); done
cd harness && cargo build --offline
