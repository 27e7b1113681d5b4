#!/bin/bash
# Builds the verifier (govc) from the committed sources into /verif/.build (git-ignored). Offline.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off
export GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/.build" || exit 1
cd "$here/govc" && go build -buildvcs=false -o "$here/.build/govc" .
