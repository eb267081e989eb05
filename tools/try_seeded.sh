#!/bin/bash
# try_seeded.sh [ID...]: apply each planted bug to a copy, run its property's check. Development aid.
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  d=$(mktemp -d /tmp/seed.XXXX); cp -a /repo/stoqcompiler $d/
  (cd $d && git init -q . && git apply --include='stoqcompiler/*' /verif/seeded/$i/patch.diff) || { echo "$i: does not apply"; continue; }
  t=$SECONDS
  VERIF_REPO=$d VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p >/tmp/try.out 2>/tmp/try.err; rc=$?
  rm -rf $d
  echo "$i $p rc=$rc $((SECONDS-t))s $(grep -c '^VIOLATION' /tmp/try.out) $(grep '^failed obligation' /tmp/try.out | head -1 | cut -c1-160) | $(grep -E '^(failing input|VIOLATION)' /tmp/try.out | head -1 | cut -c1-180)"
  [ $rc -gt 1 ] && tail -3 /tmp/try.err
done
