#!/bin/bash
# Runs the repository's own suite and compares with the recorded baseline.
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "build failed"; exit 1; }
out=$(mktemp)
bash /opt/vp/test.sh "$out" >/dev/null 2>&1
python3 - "$out" <<'PY'
import json, sys
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
got = json.load(open(sys.argv[1]))
missing = sorted(set(base) - set(got['passed']))
print('passed', len(got['passed']), 'missing from baseline:', missing[:10])
sys.exit(1 if missing else 0)
PY
r=$?
rm -f "$out"
exit $r
