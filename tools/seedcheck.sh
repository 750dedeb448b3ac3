#!/bin/bash
# seedcheck.sh ID... : run the check of its property (quick) against a scratch copy of /repo with the seeded change; -t also runs the test suite in /repo
for id in "$@"; do
  S=/verif/seeded/$id
  P=$(python3 -c "import json,sys; print(json.load(open('$S/meta.json'))['property'])")
  W=$(mktemp -d /tmp/seedrun.XXXXXX)
  git clone -q /repo "$W/r" && git -C "$W/r" apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W"; continue; }
  t0=$(date +%s)
  out=$(cd /verif && SX_REPO="$W/r" SX_EVIDENCE="$W/ev" VERIF_SEED=1 VERIF_TIER=quick ./run.sh "$P" 2>&1); rc=$?
  echo "$id $P rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-150)"
  [ $rc = 2 ] && echo "$out" | grep -v VIOLATION | cut -c1-200 | tail -5
  rm -rf "$W"
done
