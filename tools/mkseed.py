#!/usr/bin/env python3
"""mkseed.py SPEC.py: make a planted bug under seeded/ and confirm it.

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], and DEMO,
the Go source of a main package that exits non-zero when the bug is present.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = os.path.join(V, "seeded", spec["ID"])
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix="mkseed")
repo = os.path.join(tmp, "repo")
subprocess.check_call(["git", "clone", "-q", "/repo", repo])
for f, old, new in spec["EDITS"]:
    p = os.path.join(repo, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.check_output(["git", "-C", repo, "diff"]).decode()
open(os.path.join(d, "patch.diff"), "w").write(diff)
open(os.path.join(d, "demo.go.txt"), "w").write(spec["DEMO"])
open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# Run in the repository root; exits non-zero if the planted bug shows.
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
cp "$here/demo.go.txt" "$t/main.go"
printf '{"Replace": {"%s/zz_demo/main.go": "%s/main.go"}}' "$PWD" "$t" > "$t/overlay.json"
GOFLAGS=-mod=readonly GOPROXY=off timeout 200 go run -overlay "$t/overlay.json" ./zz_demo
''')
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
env = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off")
ok = True
r = subprocess.run(["go", "build", "./..."], cwd=repo, env=env, capture_output=True)
if r.returncode: ok = False; print("BUILD FAILS", r.stderr.decode())
r = subprocess.run(["go", "test", "./..."], cwd=repo, env=env, capture_output=True)
base = subprocess.run(["go", "test", "./..."], cwd="/repo", env=env, capture_output=True)
bad = lambda o: sorted(l.split()[1] for l in o.decode().splitlines() if l.startswith("FAIL\t"))
if bad(r.stdout) != bad(base.stdout): ok = False; print("TESTS FAIL", bad(r.stdout), bad(base.stdout))
r1 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True)
r0 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True)
if r1.returncode == 0: ok = False; print("DEMO PASSES WITH BUG", r1.stdout.decode())
if r0.returncode != 0: ok = False; print("DEMO FAILS WITHOUT BUG", r0.stdout.decode(), r0.stderr.decode())
shutil.rmtree(tmp)
print(spec["ID"], "ok" if ok else "NOT CONFIRMED", r1.stdout.decode()[-200:].strip())
sys.exit(0 if ok else 1)
