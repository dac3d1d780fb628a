#!/bin/bash
# Builds the simulator from /repo's working tree into /verif/.build.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
OUT=${VERIF_OUT:-$HERE/.build}
mkdir -p "$OUT"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=0
GOBIN_=$(command -v go || echo /opt/veriftools/go1.27.3/bin/go)
GOROOT_=$("$GOBIN_" env GOROOT)
(cd "$HERE/builder" && "$GOBIN_" build -o "$OUT/builder" main.go)
"$OUT/builder" -repo "$REPO" -out "$OUT" -goroot "$GOROOT_" -sim "$HERE/sim" -frostkey "$HERE/sim/frostkey.txt"
(cd "$HERE/sim" && "$GOBIN_" build -modfile "$OUT/sim.mod" -overlay "$OUT/overlay.json" -o "$OUT/sim" .)
if [ -n "$VERIF_RACE" ]; then
	# the same simulator with Go's race detector in the library and the standard library
	export CGO_ENABLED=1
	(cd "$HERE/sim" && "$GOBIN_" build -race -gcflags=verifsim=-race=false -modfile "$OUT/sim.mod" -overlay "$OUT/overlay.json" -o "$OUT/simrace" .)
fi
