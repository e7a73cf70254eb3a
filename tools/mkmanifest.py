#!/usr/bin/env python3
"""Development tool: regenerates MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(os.path.join(V, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
variants = {}
for p in props:
    i = p["id"]
    c = conf["checks"].get(i)
    if not c:
        na.append({"property": i, "reason": conf.get("not_applicable", {}).get(i, "no check has been built for this property yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c["level_note"],
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
