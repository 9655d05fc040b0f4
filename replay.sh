#!/bin/bash
# replay.sh FILE: run the recorded case again against /repo's current tree
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" || exit 2
NCASV_DIR="$here" exec "$here/target/release/ncasv" replay "$1"
