#!/bin/bash
# usage: seedrun.sh [ID...]   runs the check of each planted bug's property on a scratch copy of /repo with the bug applied
here=$(cd "$(dirname "$0")/.." && pwd)
one() {
  s=$1; d=$here/seeded/$s; w=$(mktemp -d)
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  cp -a /repo "$w/repo"; git -C "$w/repo" checkout -q -- .
  mkdir "$w/verif"; cp -a "$here"/{gover,contracts,harness,check.sh,harness.sh,tools} "$w/verif/"; cp "$here"/known_findings.txt "$w/verif/" 2>/dev/null
  if git -C "$w/repo" apply "$d/patch.diff"; then
    VERIF_REPO=$w/repo VERIF_SEED=1 "$w/verif/check.sh" "$p" quick > "$w/log" 2>&1; rc=$?
    cp "$w/log" /tmp/seedlog.$s
    echo "$s rc=$rc $(grep -c 'FAILED OBL' "$w/log") failed obl, $(grep -c 'FAILING INPUT' "$w/log") failing inputs, $(grep -c 'OUTSIDE' "$w/log") structural: $(grep VIOLATION "$w/log")"
  else echo "$s PATCH DOES NOT APPLY"; fi
  rm -rf "$w"
}
export -f one; export here
[ $# = 0 ] && set -- $(ls "$here/seeded")
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c 'one {}'
