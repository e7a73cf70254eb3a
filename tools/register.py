#!/usr/bin/env python3
"""Development tool: register.py ID HARNESS "technique" "level note" [variant] — adds a check and rewrites the manifest."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, h, tech, note = sys.argv[1:5]
variant = sys.argv[5] if len(sys.argv) > 5 else "san"
p = os.path.join(V, "checks.json")
c = json.load(open(p))
c["checks"][i] = {"runs": [{"variant": variant, "harness": h}], "technique": tech, "level_note": note}
json.dump(c, open(p, "w"), indent=1)
for s in ("mkprops.py", "mkmanifest.py"):
    subprocess.check_call([sys.executable, os.path.join(V, "tools", s)])
