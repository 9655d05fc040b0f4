#!/bin/bash
# Builds the harness against /repo's current tree; prints nothing when it works.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock-ncasv"
flock 9
# a change made within the time stamp granularity must not be missed
find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 \( -name 'ncas-*' -o -name 'ncasv-*' \) -exec rm -rf {} + 2>/dev/null
out="$(cd "$here/harness" && cargo build --release --offline 2>&1)" || { echo "$out" >&2; exit 2; }
exit 0
