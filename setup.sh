#!/bin/bash
# Builds the explorer once, to warm the build cache (every check builds it again from the current tree).
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOENV=off GOWORK=off
cd "$here/mc" && go build -o /dev/null ./... && { go build -race -o /dev/null ./cmd/conc || true; }
