#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra flags]: builds the engine and decides one property on /repo.
V="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:/opt/veriftools/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=readonly GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
P="$1"; T="${2:-quick}"; shift 2 2>/dev/null || shift $#
mkdir -p "$V/bin" "$V/evidence" "$V/replays"
BIN="$V/bin/vz.$$"
trap 'rm -f "$BIN"' EXIT
(cd "$V/engine" && go build -o "$BIN" .) || { echo "ERROR: engine build failed"; exit 2; }
"$BIN" check -property "$P" -tier "$T" -repo "${VZ_REPO:-/repo}" -verif "$V" "$@"
