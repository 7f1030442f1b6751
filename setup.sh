#!/bin/bash
# Warms the build caches; every check builds the engine itself.
V="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=readonly GOSUMDB=off
mkdir -p "$V/bin" "$V/evidence" "$V/replays"
cd "$V/engine" && go build -o "$V/bin/vz" . && echo ok
