#!/bin/bash
# Offline: builds the simulator once, which fills the compiler's cache.
set -e
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
bash "$(dirname "$0")/build.sh" "$d"
"$d/sim" run C01 1 "$d/o"
