#!/bin/bash
# Warms Go's build cache, so that the checks build fast. Writes nothing else.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
root=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf -- "$t"' EXIT
(cd "$root/harness" && go build -o "$t/h" . && go build -race -o "$t/hr" .) || exit 1
(cd /repo && go build -o "$t/b" ./cmd/btrfscue && go build -race -o "$t/br" ./cmd/btrfscue) || exit 1
