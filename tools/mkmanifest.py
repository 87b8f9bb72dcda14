#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registered checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the SSA (path-sensitive, symbolic values)"
CHECKS = {}
def check(id, technique, note):
    CHECKS[id] = dict(property=id, quick_cmd="bash check.sh " + id, thorough_cmd="bash check.sh " + id,
                      technique=technique, level="other", level_note=note)
BASE = " Trusts the Go type checker, x/tools SSA construction and the checker's models of the standard library; calls the checker cannot resolve are reported as undecided, not as violations."
exec(open(os.path.join(V, "tools", "checks.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA_DEFAULT = "No check built for this property."
na = [dict(property=i, reason=NA.get(i, NA_DEFAULT)) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd="bash build.sh", checks=[CHECKS[i] for i in ids if i in CHECKS], not_applicable=na,
         notes="All checks are one static analyser (checker/): it loads and type-checks /repo's current source, builds SSA and decides each property by abstract interpretation and dataflow without running the code. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(CHECKS), "checks,", len(na), "not applicable")
