#!/bin/bash
# check.sh <property> <quick|thorough|replay> [replay file]
# Rebuilds the harness against /repo's working tree and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=$1 tier=$2
bin=$(mktemp -d /tmp/vp-build-XXXXXX) || exit 2
trap 'rm -rf -- "$bin"' EXIT
race=
[ "$id" = P21 ] && race=-race
cp -r "$here/harness" "$bin/src" && cd "$bin/src" || exit 2
if ! go build $race -o "$bin/vp" . >"$bin/log" 2>&1; then
  cat "$bin/log" >&2
  echo "the harness does not build against /repo" >&2
  exit 2
fi
cd "$here"
if [ "$tier" = replay ]; then
  "$bin/vp" replay "$3"
else
  "$bin/vp" check "$id" "$tier" "$here"
fi
