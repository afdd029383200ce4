#!/bin/bash
# tools/runseeds.sh [ids]: apply each planted change to a scratch copy of
# /repo, run the check of its property against that copy, print the verdict.
cd "$(dirname "$(readlink -f "$0")")/.."
one() {
  id=$1; t=$(mktemp -d /tmp/rs_XXXX)
  cp -a /repo "$t/repo"; git -C "$t/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; rm -rf "$t"; return; }
  mkdir "$t/v"; cp -a wtv check "$t/v/"
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  out=$(WTV_REPO="$t/repo" PYTHONPATH="$t/repo" "$t/v/check" "$p" 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 VIOLATION | grep -o 'no-failing.*') :: $(echo "$out" | grep -B1 -m1 VIOLATION | head -1 | cut -c1-150)"
  rm -rf "$t"
}
export -f one
if [ $# = 0 ]; then set -- $(ls seeded); fi
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'one {}'
