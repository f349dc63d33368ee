#!/bin/bash
# tools/try_bug.sh BUG [PROPERTY...]: applies a planted bug to /repo, runs the checks, undoes it.
here=$(cd "$(dirname "$0")/.." && pwd)
bug=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('$here/seeded/$bug/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply "$here/seeded/$bug/patch.diff" || exit 2
for p in $props; do
  t=$(date +%s)
  out=$(cd "$here" && python3 check.py "$p" 2>&1); rc=$?
  echo "$bug $p exit=$rc $(($(date +%s) - t))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -m1 -E 'REJECTED|ERROR' | cut -c1-220)"
done
