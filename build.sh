#!/bin/bash
# build.sh OUT: rewrites the working tree of /repo (or $REPO), links it with the simulator, makes OUT/sim.
set -e
OUT=$1
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=0 GOSUMDB=off
export GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build} GOMODCACHE=${VERIF_GOMODCACHE:-/root/go/pkg/mod}
for d in genshim harness rt shim xform cmd; do cp -r "$HERE/dst/$d" "$OUT/"; done
cd "$OUT"
sed 's/^module .*/module sim/; /^toolchain/d' "$REPO/src/go.mod" >go.mod
cp "$REPO/src/go.sum" go.sum
mkdir -p .mf
cp "$REPO/src/go.mod" .mf/go.mod
cp "$REPO/src/go.sum" .mf/go.sum
go build -o xf ./xform
./xf -repo "$REPO/src" -out "$OUT" -pkg appa,appb -modfile "$OUT/.mf/go.mod"
go build -o sim ./cmd/sim
