#!/bin/bash
# run.sh build | run.sh <property> [quick|thorough]
# Builds the analyser from /verif/tool (vendored, offline) and decides one property on /repo.
cd "$(dirname "$0")" || exit 2
V=$PWD
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0
export HOME=${HOME:-/root}
export GOCACHE=${GOCACHE:-$HOME/.cache/go-build}
mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || { export GOCACHE=$V/bin/gocache; mkdir -p "$GOCACHE"; }
command -v go >/dev/null || export PATH=$PATH:/usr/local/go/bin:/usr/lib/go/bin
mkdir -p "$V/bin" "$V/evidence"
(cd tool && go build -o "$V/bin/vtool.$$" . && mv -f "$V/bin/vtool.$$" "$V/bin/vtool") || { echo "analyser does not build" >&2; exit 2; }
[ "$1" = build ] && exit 0
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
unset GOFLAGS
exec "$V/bin/vtool" check "$1" "$V/evidence"
