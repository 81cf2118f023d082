#!/bin/bash
# catch.sh [ID...]: which planted bugs do the checks catch? Works on a scratch copy of /repo.
cd "$(dirname "$0")/.." || exit 2
W=$(mktemp -d /tmp/catch.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C "$W/repo" apply "$PWD/seeded/$s/patch.diff" || { echo "$s APPLY-FAILED"; continue; }
  t0=$(date +%s)
  ./check.sh "$p" -repo "$W/repo" >$W/out 2>$W/err; rc=$?
  git -C "$W/repo" checkout -q -- .
  echo "$s $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION $W/out >/dev/null && echo CAUGHT || echo MISSED) $(grep -v VIOLATION $W/out | head -1 | cut -c1-150)"
done
