#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props.py (kept in step by construction)."""
import json, sys, os
sys.path.insert(0, os.path.dirname(__file__))
from props import P, HOOK_COMMITS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(f"{root}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        mech = [{"name": n, "where": w} for n, w in p["mechanism"]]
        obs = p.get("observe", ["the parts of the saved package, read by an independent reader"])
        st = [{"name": a, "meaning": b} for a, b in p.get("state", [])]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": mech, "state": st, "observe_at": obs, "hook_needed": p.get("hook")}}
        f.write(json.dumps(d) + "\n")
checks = []
for p in P:
    if p.get("na"):
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "--cfg rxw_mc", "enable": "RUSTFLAGS=\"--cfg rxw_mc\" when building /verif/mc, which has a path dependency on /repo (env.sh)", "source_commits": HOOK_COMMITS},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p.get("na")]}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
# DESIGN.md: hand-written head and tail, one section per property, and the planted changes.
costs_file = f"{root}/tools/costs.json"
costs = json.load(open(costs_file)) if os.path.exists(costs_file) else {}
for p in P:
    for tier in ("quick", "thorough"):
        f = f"{root}/evidence/{p['id']}.json"
        if os.path.exists(f):
            e = json.load(open(f))
            if e["tier"] == tier and not e.get("violations"):
                c = e["coverage"]
                costs.setdefault(p["id"], {})[tier] = [c.get("evaluations", c.get("schedules", 0)), c.get("states", 0), c.get("transitions", 0), round(e["wall_s"])]
json.dump(costs, open(costs_file, "w"), indent=1, sort_keys=True)
fixed = {}
for l in open(f"{root}/known_findings.txt"):
    if l.startswith("fixed: property="):
        i, c, w = l[len("fixed: property="):].strip().split(" ", 2)
        fixed.setdefault(i, []).append((c[:8], w))
known = [l.strip() for l in open(f"{root}/known_findings.txt") if l.startswith("known:")]
seeds = {}
sf = f"{root}/tools/seed_results.json"
if os.path.exists(sf):
    seeds = json.load(open(sf))
d = open(f"{root}/tools/design_head.md").read() + "\n## The properties\n\n"
for p in P:
    d += f"### {p['id']}: {p['title']}\n\n{p['statement']}\n\n"
    if p.get("na"):
        d += f"*Not applicable:* {p['na']}\n\n"
        continue
    d += f"* *Decided by* {p['technique']}.\n* *Space:* {p['quant']}.\n* *Oracle and bounds:* {p['note']}\n* *What tests cannot reach:* {p['why']}\n"
    for t, c in sorted(costs.get(p["id"], {}).items()):
        d += f"* *Cost ({t}):* {c[0]} cases, {c[1]} model states, {c[2]} transitions, about {c[3]} s on 8 cores.\n"
    if p.get("design"):
        d += f"* {p['design']}\n"
    if fixed.get(p["id"]):
        d += f"* *Defects found and repaired:* " + "; ".join(f"{w} ({c})" for c, w in fixed[p["id"]]) + ".\n"
    s = [(k, v) for k, v in sorted(seeds.items()) if v["property"] == p["id"]]
    if s:
        d += "* *Planted changes:* " + "; ".join(f"`{k}` {'caught' if v['exit'] == 1 else 'MISSED'}: {v['what']}" for k, v in s) + ".\n"
    d += "\n"
d += "## Known findings not repaired\n\n" + ("\n".join(f"* {k}" for k in known) if known else "None.") + "\n\n"
d += open(f"{root}/tools/design_tail.md").read()
open(f"{root}/DESIGN.md", "w").write(d)
