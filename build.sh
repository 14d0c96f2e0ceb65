#!/bin/bash
# build.sh WORKDIR [race]: instruments /repo's working tree and builds the
# simulator into WORKDIR/simrun (and WORKDIR/simrun.race).
set -e
W=$1
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
	[ -x $d/go ] && { export PATH=$d:$PATH; break; }
done
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off CGO_ENABLED=0 GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE=$W/gocache
unset GOOS GOARCH GOEXPERIMENT
mkdir -p "$W"
cp "$REPO/go.mod" "$W/repo.mod"
cp "$HERE/tool/helium.sum" "$W/repo.sum"
(cd "$HERE/tool" && go build -o "$W/instr" ./instr)
"$W/instr" -src "$REPO" -out "$W/helium" -zzsim "$HERE/rt/zzsim" -modfile "$W/repo.mod" \
	-dep "github.com/lestrrat-go/strcursor=$W/strcursor" \
	-dep "github.com/jessevdk/go-flags:os=$W/go-flags"
mkdir -p "$W/sim"
cp "$HERE"/sim/*.go "$HERE/sim/go.mod" "$HERE/sim/go.sum" "$W/sim/"
cd "$W/sim"
go build -trimpath -o "$W/simrun" .
if [ "$2" = race ]; then
	CGO_ENABLED=1 go build -trimpath -race -o "$W/simrun.race" .
fi
