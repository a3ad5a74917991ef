#!/bin/bash
# exit 0: the behaviour is right; 1: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
tmp=$(mktemp -d /tmp/demo-XXXXXX) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
cp "$here"/*.go "$tmp"/ && cp "$repo"/go.sum "$tmp"/ || exit 3
cat > "$tmp"/go.mod <<M
module demo

go 1.16

require github.com/akm/tparser v0.0.0

replace github.com/akm/tparser => $repo
M
cd "$tmp" && go build -o demo . || exit 3
mkdir work && cd work && timeout 120 ../demo
