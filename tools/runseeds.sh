#!/bin/bash
# runseeds.sh [-p PROP] NAME...: apply each planted bug to /repo, run its check, undo.
prop=
[ "$1" = -p ] && { prop=$2; shift 2; }
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "/repo is not clean"; exit 1; }
for n in "$@"; do
  p=${prop:-$(sed -n 's/.*"property": "\(.*\)".*/\1/p' seeded/$n/meta.json)}
  git -C /repo apply /verif/seeded/$n/patch.diff || { echo "$n: does not apply"; continue; }
  s=$(date +%s)
  python3 check.py $p > /tmp/seed.$n.$p.log 2>&1
  rc=$?
  git -C /repo checkout -q -- .
  echo "$n $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 "^$p \[" /tmp/seed.$n.$p.log | cut -c1-220)"
done
