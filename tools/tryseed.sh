#!/bin/bash
# tryseed.sh SEED...: apply each planted bug to /repo, run its property's check, undo.
cd "$(dirname "$0")/.." || exit 2
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  VERIF_SEED=1 bash tools/check.sh "$p" > "/tmp/tryseed.$s.log" 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$s: $p exit $rc: $(grep VIOLATION /tmp/tryseed.$s.log)"
done
