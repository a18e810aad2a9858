#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plans.py and properties.jsonl (run by hand; committed)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plans import PLANS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
flav = []
for i in ids:
    for p in PLANS.get(i, {}).get("quick", []):
        if p[0] not in flav:
            flav.append(p[0])
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py " + " ".join(flav),
    "checks": [{
        "property": i,
        "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
        "technique": PLANS[i]["technique"],
        "level": "exploration",
        "level_note": PLANS[i]["note"],
    } for i in ids if i in PLANS],
    "not_applicable": [{"property": i, "reason": NA.get(i, "monitor not built yet")} for i in ids if i not in PLANS],
    "hooks": {"guard": "CGL_VERIF_HOOKS", "enable": "tools/build.py compiles the sources of /repo with -DCGL_VERIF_HOOKS",
              "source_commits": ["93aabc267c211ea7686a75b86bf64406dab8733f"]},
    "notes": "One hook in /repo (how often zero-half looks at the clock, used by C23); everything else is observed at the public interface, the heap, the clock and the file descriptors. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks;", m["setup_cmd"], "; not claimed:", [x["property"] for x in m["not_applicable"]])
