#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh"
