#!/bin/bash
# ./check.sh PROPERTY [-only 'sub#index']
# Builds the explorer against /repo's working tree and decides one property.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOENV=off GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset GOOS GOARCH GODEBUG GORACE
prop=$1; shift
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
cd "$here/mc" || exit 2
if ! go build -o "$scratch/mc" ./cmd/mc 2>"$scratch/build.log"; then
	cat "$scratch/build.log" >&2
	echo "building the explorer failed" >&2
	exit 2
fi
export MC_SCRATCH=$scratch
"$scratch/mc" -prop "$prop" -out "$here" "$@"
