#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification: contracts on the real Go functions, verification conditions generated from go/ssa on every run, discharged by Z3/cvc5; plus a bounded harness labelled as such"
c = json.load(open(os.path.join(V, "tools/checks.json")))
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "verif", "enable": "no hooks are needed: contract files are overlaid when the verifier loads the packages and never written to the repository", "source_commits": []},
     "checks": [], "not_applicable": c["not_applicable"], "notes": c["notes"]}
for k in c["checks"]:
    lv = k.get("level", "proof")
    m["checks"].append({"property": k["property"], "quick_cmd": "bash tools/check.sh %s quick %s" % (k["property"], lv),
        "thorough_cmd": "bash tools/check.sh %s thorough %s" % (k["property"], lv), "technique": T, "level": lv, "level_note": k["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
