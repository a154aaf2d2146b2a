#!/bin/bash
# Builds and runs demo.go (beside this file) against the code in the current
# directory, as a command laid over the module; nothing is written there.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh >/dev/null 2>&1
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<J
{"Replace": {"$repo/cmd/zzdemo/lib.go": "$here/lib.go", "$repo/cmd/zzdemo/demo.go": "$here/demo.go"}}
J
cd "$repo" || exit 3
GOFLAGS=-mod=readonly go build ${DEMO_FLAGS:-} -overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/zzdemo || exit 2
cd "$tmp" && timeout 200 ./demo
