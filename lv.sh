#!/bin/bash
# Builds the harness against /repo's working tree and runs one check: lv.sh <property>
set -o pipefail
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
log=$(mktemp /tmp/lvbuild.XXXXXX)
if ! cargo build --release --offline >"$log" 2>&1; then
  tail -60 "$log"; rm -f "$log"; echo "BUILD FAILED"; exit 2
fi
rm -f "$log"
[ "$1" = "--build" ] && exit 0
exec /verif/target/release/lv "$@"
