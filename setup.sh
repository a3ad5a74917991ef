#!/bin/bash
# Builds the harness once (fills the build cache); every check builds again from /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
tmp=$(mktemp -d /tmp/vp-setup-XXXXXX) || exit 1
trap 'rm -rf -- "$tmp"' EXIT
cp -r "$here/harness" "$tmp/src" && cd "$tmp/src" || exit 1
go build -o "$tmp/vp" . && go build -race -o "$tmp/vpr" .
