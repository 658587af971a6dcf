#!/bin/bash
# Builds the simulator and runs it: run.sh setup | check PROPERTY TIER | replay FILE
set -u
V=/verif
export HOME=${HOME:-/root}
GO=/opt/veriftools/go1.27.3/bin/go
mkdir -p $V/.build
(
  flock 9
  cd $V/sim && GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-buildvcs=false \
    GOCACHE=$V/.build/gocache $GO build -o $V/.build/vsim.new . && mv $V/.build/vsim.new $V/.build/vsim
) 9>$V/.build/.simlock || { echo "run.sh: the simulator does not build" >&2; exit 2; }
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off
exec $V/.build/vsim "$@"
