#!/bin/bash
# neutralrun.sh NAME...: runs all checks (CHECKS="C01 C02" for some) on a scratch copy of
# /repo with the behaviour-preserving edit applied; every check has to stay quiet.
V=${VERIF_DIR:-/verif}
for id in "$@"; do
  w=$(mktemp -d /tmp/neutralrun.XXXXXX)
  cp -a /repo "$w/repo"
  git -C "$w/repo" apply "$V/neutral/$id.diff" || { echo "$id: patch does not apply"; rm -rf -- "$w"; continue; }
  for c in ${CHECKS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18}; do
    s=$(date +%s)
    out=$(cd "$V" && VERIF_REPO="$w/repo" VERIF_NOEVIDENCE=1 bash check.sh $c 2>&1); rc=$?
    e=$(date +%s)
    [ $rc = 0 ] && [ -z "$VERBOSE" ] || echo "$id $c rc=$rc $((e-s))s $(echo "$out" | tail -3)"
  done
  echo "$id done"
  rm -rf -- "$w"
done
