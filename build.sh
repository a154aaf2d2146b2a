#!/bin/bash
# usage: build.sh OUTDIR   builds OUTDIR/sim from /repo's working tree
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
export VERIF_REPO=${VERIF_REPO:-/repo}   # another tree only during development
repo=$VERIF_REPO
export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
export CGO_ENABLED=1
mkdir -p "$out/ov"
python3 "$here/rt/patch.py" "$out/ov"
cp "$repo"/go.mod "$out/sim.mod"
cp "$repo"/go.sum "$out/sim.sum"
cd "$repo"
# the code under test gets a preemption point at each memory access: the calls
# of the race detector's instrumentation, which end in the simulator (rt/zsim.go)
fave=github.com/fairDataSociety/FaVe
instr='-race -d=checkptr=0'
build() {
	python3 "$here/rt/overlay.py" "$out/ov" "$here/sim"
	go build -gcflags="$fave/pkg/...=$instr" -gcflags="$fave/adapters/...=$instr" -overlay "$out/ov/all.json" -modfile "$out/sim.mod" -tags faketime,netgo,osusergo -ldflags=-checklinkname=0 -o "$out/sim" ./cmd/zzsim
}
# the constants of the index that overlay.py makes smaller are left alone if
# the code does not compile with them changed
if ! build 2> "$out/err"; then
	export SIM_PLAIN=1
	build
fi
