#!/bin/bash
# tools/harness.sh PROPERTY: runs only the bounded harness of a property
# (development aid). The overlay is as in "govc check".
cd "$(dirname "$0")/.." || exit 2
v="$PWD"; repo="${REPO:-/repo}"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
python3 - "$v" "$repo" > "$t/o.json" <<'PY'
import sys, os, json
v, repo = sys.argv[1:]
d = os.path.join(v, "harness/zz_vh")
print(json.dumps({"Replace": {os.path.join(repo, "zz_vh", f): os.path.join(d, f) for f in os.listdir(d) if f.endswith(".go")}}))
PY
cd "$repo" && export VERIF_SEED="${VERIF_SEED:-1}"; GOFLAGS=-mod=readonly GOPROXY=off go test -c -vet=off -overlay "$t/o.json" -o "$t/h.test" ./zz_vh && cd "$t" && ./h.test -test.run "TestVerif$1\$" 2>&1 | grep -v "VH-SAMPLE\|^$" | cut -c1-700
