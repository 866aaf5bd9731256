#!/bin/bash
# build the harness from /repo's working tree into directory $1, with the
# programs $2 of the repository
set -e
out=$1
src=$(cd "$(dirname "$0")/../harness" && pwd)
mkdir -p "$out/src"
cp "$src"/*.go "$out/src/"
sed -e 's#^module .*#module verifharness#' /repo/go.mod > "$out/src/go.mod"
cp /repo/go.sum "$out/src/go.sum"
cat >> "$out/src/go.mod" <<M

require github.com/qri-io/dataset v0.0.0

replace github.com/qri-io/dataset => /repo
M
cd "$out/src"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
export GOCACHE=${GOCACHE:-$(go env GOCACHE)}
# programs a property is about
for p in $2; do
	go build -o "$out/$(basename "$p")" "github.com/qri-io/dataset/$p" &
done
go build -o "$out/harness" .
wait
