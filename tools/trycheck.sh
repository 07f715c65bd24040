#!/bin/bash
# usage: trycheck.sh PROP SEED_ID... : run PROP's quick check on a scratch copy with the planted bug applied
V=$(cd "$(dirname "$0")/.." && pwd)
P=$1; shift
for s in "$@"; do
  WT=/tmp/wt_$s
  rm -rf "$WT"; cp -a /repo "$WT"; git -C "$WT" checkout -q -- .
  git -C "$WT" apply "$V/seeded/$s/patch.diff" || echo NOAPPLY
  out=$(cd "$V" && VERIF_REPO=$WT ./check "$P" quick 2>&1); rc=$?
  echo "$s rc=$rc $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep -m2 -i 'violation' | cut -c1-250)"
  rm -rf "$WT"
done
