#!/bin/bash
# runseed.sh BUG [PROPERTY...]: runs quick checks with a planted bug applied to /repo, and undoes it.
v=$(cd "$(dirname "$0")/.." && pwd)
b=$1; shift
[ $# -eq 0 ] && set -- $(python3 -c "import json;print(json.load(open('$v/seeded/$b/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$v/seeded/$b/patch.diff" || exit 2
for p in "$@"; do
  out=$(bash "$v/check.sh" $p quick 2>&1); rc=$?
  echo "$b $p exit $rc: $(echo "$out" | head -1 | cut -c1-200)"
done
git -C /repo checkout -- .
