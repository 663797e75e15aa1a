#!/opt/veriftools/pyvenv/bin/python3
"""Writes MANIFEST.json from the list of properties and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import profiles
T = "TLA+ specification checked with TLC; traces recorded from the real library validated against it"
NOTE = {
 "": "Every recorded run of the real library is accepted or rejected by TLC against spec/BML.tla (exact arithmetic, framing, refusals). "
     "Covers the generated programs (bounded sizes and values), trusts TLC, the driver's observation through the public API, and gcc.",
}
TECH = {}
for k in profiles.CHECKS:
    m = getattr(profiles, "LEVEL", {}).get(k)
    if m:
        TECH[k], NOTE[k] = m
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
NA = getattr(profiles, "NOT_APPLICABLE", {})
for p in props:
    i = p["id"]
    if i in profiles.CHECKS:
        checks.append(dict(property=i, quick_cmd="python3-vt check.py %s" % i, thorough_cmd="python3-vt check.py %s --thorough" % i,
                           technique=TECH.get(i, T), level="model_checking", level_note=NOTE.get(i, NOTE[""])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3-vt check.py --setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), len(na))
