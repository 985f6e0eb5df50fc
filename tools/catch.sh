#!/bin/bash
# bash tools/catch.sh [id ...]: run each planted bug's property check on a scratch copy; one line per bug
cd "$(dirname "$0")/.."
out=/tmp/catch; mkdir -p $out
one() {
  id=$1; w=$(mktemp -d /tmp/catch/w.XXXX); cp -a /repo $w/r
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  if ! git -C $w/r apply "$PWD/seeded/$id/patch.diff" 2>/dev/null; then echo "$id $p DOES-NOT-APPLY"; rm -rf "$w"; return; fi
  t=$(date +%s); VERIF_REPO=$w/r VERIF_EVIDENCE=$w/ev VERIF_SEED=${VERIF_SEED:-1} bash run.sh $p > $w/log 2>&1; rc=$?
  law=$(grep -m1 "^$p/" $w/log | cut -d: -f1)
  [ $rc = 1 ] && grep -q "VIOLATION property=$p" $w/log && echo "$id $p CAUGHT $law $(( $(date +%s)-t ))s" || { echo "$id $p MISSED rc=$rc $(( $(date +%s)-t ))s"; }
  rm -rf "$w"
}
export -f one
[ $# = 0 ] && set -- $(ls seeded)
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'one {}'
