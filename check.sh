#!/bin/bash
# check.sh <property> <quick|thorough>   build the harness from /repo's working tree, run one property
# check.sh --replay <file>               replay one recorded failure
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
[ -d /root/.cargo ] && export HOME=/root
export PATH="$PATH:/root/.cargo/bin" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export VH_VERIF="$here"
export CARGO_TARGET_DIR="$here/harness/target"
log="$here/.work/build.$$.log"
mkdir -p "$here/.work"
if ! (cd "$here/harness" && cargo build --offline -q) >"$log" 2>&1; then
  grep -E "^error" -A12 "$log" | head -60
  echo "INCONCLUSIVE: the harness does not build against /repo"
  rm -f "$log"
  exit 2
fi
rm -f "$log"
bin="$CARGO_TARGET_DIR/debug/vharness"
if [ "${1:-}" = "--build" ]; then exit 0; fi
if [ "${1:-}" = "--replay" ]; then exec "$bin" replay "$2"; fi
exec timeout -k 5 880 "$bin" run "$1" "${2:-quick}"
