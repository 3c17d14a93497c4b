#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json of /verif from one table (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, note=note, na=na))


exec(open(os.path.join(V, "tools", "table.py")).read())

TRUST = ("Trace validation: what the code did on every explored history is a behaviour of the TLA+ specification, which TLC "
         "checks exhaustively within small bounds. Exploration of the code is bounded (seeded histories, TLC-generated behaviours, "
         "sweeps), not exhaustive. Trusts TLC, the driver and its abstraction. ")

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": m[0], "where": m[1]} for m in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]

checks = []
for p in P:
    if p["na"]:
        continue
    cmd = "python3 check.py %s --tier " % p["id"]
    checks.append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "TLA+ specification checked with TLC; traces of the real code validated against it" ,
                   "level": "model_checking", "level_note": TRUST + (p["note"] or "")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
           "hooks": {"guard": "UTYMAP_VERIF", "enable": "no hooks were needed: the drivers use public interfaces; nothing is guarded", "source_commits": []},
           "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
           "notes": "Specifications in spec/, drivers in harness/, checks in checks/. tools/props.py writes this file and properties.jsonl from tools/table.py."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties", len(checks), "claimed")

exec(open(os.path.join(V, "tools", "how.py")).read())
head = open(V + "/DESIGN.md").read().split("## Properties\n")[0]
out = ["## Properties\n"]
for p in P:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if p["na"]:
        out.append("Not claimed: " + p["na"] + "\n")
    else:
        out.append(HOW[p["id"]].strip() + "\n")
open(V + "/DESIGN.md", "w").write(head + "\n".join(out))
