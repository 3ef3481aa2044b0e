#!/bin/bash
# usage: tools/tryseed.sh ID CHECK...   runs checks against a planted change,
# in a scratch copy of /repo (the checks' MC_REPO), leaving /repo alone.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
top=$(mktemp -d /tmp/try-XXXXXX)
trap 'rm -rf "$top"' EXIT
cp -a /repo "$top/repo"
git -C "$top/repo" checkout -q -- .
git -C "$top/repo" apply "$here/seeded/$id/patch.diff" || exit 9
for c in "$@"; do
  out=$(cd "$here" && MC_REPO=$top/repo timeout 900 ./check $c 2>&1); rc=$?
  echo "$id $c rc=$rc $(echo "$out" | grep -c ^VIOLATION) violations $(echo "$out" | grep -A2 ^VIOLATION | tail -1 | cut -c1-150)"
done
