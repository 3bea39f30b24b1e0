#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {}
for f in sorted(os.listdir(os.path.join(V, "harness"))):
    m = re.match(r"(c[0-9]+)_.*\.cpp$", f)
    if m:
        text = open(os.path.join(V, "harness", f)).read()
        have[m.group(1).upper()] = (f, re.findall(r'FACET\((\w+), (\d+), (\d+), "([^"]*)"', text))
checks, na = [], []
for p in props:
    if p["id"] not in have:
        na.append({"property": p["id"], "reason": "the check for this property is still being written"})
        continue
    f, facets = have[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 tools/check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "property-based testing: seeded random generation with shrinking; " + "; ".join("%s (%s)" % (n, w) for n, q, t, w in facets),
        "level": "exploration",
        "level_note": "Random search over generated inputs with an explicit oracle (harness/%s); %d generated cases in the quick tier. Code that needs MFEM runs on the stand-in in shim/, see DESIGN.md." % (f, sum(int(q) for _, q, _, _ in facets)),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are generated-input searches built from /repo's working tree by tools/build.py and run by tools/check.py. known_findings.txt lists what was found on the unchanged tree.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=2)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not yet")
