#!/bin/bash
# Usage: check.sh <ID> <quick|thorough>  Builds the harness from /repo's working tree and explores one property.
. /verif/env.sh
cd /verif/mc || exit 2
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then
  tail -40 "$log"; echo "build failed"; rm -f "$log"; exit 2
fi
rm -f "$log"
ulimit -v 24000000
exec /verif/target/release/rxmc "$@" 2>/dev/null
