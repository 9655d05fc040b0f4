#!/bin/bash
# check.sh ID: build, then decide one property
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" || exit 2
NCASV_DIR="$here" exec "$here/target/release/ncasv" check "$1"
