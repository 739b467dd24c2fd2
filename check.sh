#!/bin/bash
# check.sh <PROPERTY>: rebuilds the simulator from /repo's working tree and runs the property's check.
cd "$(dirname "$0")/sim" || exit 2
export VERIF_ROOT="$(cd .. && pwd)"
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "the simulator does not build against this tree" >&2
  exit 2
fi
rm -f "$log"
exec ./target/release/simcheck run "$@"
