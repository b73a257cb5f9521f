#!/bin/bash
# seedrun.sh ID...: applies each planted bug to a scratch copy of /repo and runs its property's quick check on it.
# CHECKS="C01 C02" overrides which checks run.
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(jq -r .property $d/meta.json)
  w=$(mktemp -d /tmp/seedrun.XXXXXX)
  cp -a /repo "$w/repo"
  git -C "$w/repo" apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf -- "$w"; continue; }
  for c in ${CHECKS:-$p}; do
    s=$(date +%s)
    out=$(cd "${VERIF_FROM:-/verif}" && VERIF_REPO="$w/repo" VERIF_NOEVIDENCE=1 bash check.sh $c 2>&1); rc=$?
    e=$(date +%s)
    echo "$id $c rc=$rc $((e-s))s $(echo "$out" | grep -a -m1 VIOLATION)"
    [ -n "$VERBOSE" ] && echo "$out"
  done
  rm -rf -- "$w"
done
