#!/bin/bash
# Warms the build cache and makes sure the harness builds offline.
set -e
cd "$(dirname "$0")/harness"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GO111MODULE=on
out=$(mktemp -d)
trap 'rm -rf -- "$out"' EXIT
go build -tags verif -o "$out/h" .
"$out/h" ids >/dev/null
go build -race -tags verif -o "$out/h" .
