#!/usr/bin/env python3
"""Builds the quick checks' harnesses (checks build themselves as well; this only warms the build directory)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import build
need = {}
for c in json.load(open(os.path.join(V, "checks.json")))["checks"].values():
    for r in c["runs"]:
        need.setdefault(r["variant"], set()).add(r["harness"])
sys.exit(max([build.build(v, sorted(h)) for v, h in sorted(need.items())] or [0]))
