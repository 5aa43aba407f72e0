#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "bin"))
from registry import REG, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REG:
        c = REG[i]
        checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i} quick", "thorough_cmd": f"python3 bin/check.py {i} thorough",
            "technique": "TLA+ specification model-checked with TLC; recorded behaviours of the code validated against it by TLC"
                         + (", including behaviours generated from the specification and replayed in the code" if c.get("gen") else ""),
            "level": "model_checking",
            "level_note": c.get("note") or ("The specification is checked exhaustively for small constants; the code is bound to it on every recorded call "
                         "(" + c.get("rule", "") + "). Trusts the driver's projection of the code's state and TLC.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every specification is bound through the public API of the library."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
