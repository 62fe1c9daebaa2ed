#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (the single source of both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/dlaf/"
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, tech=None, note=None,
      na=None, level="model_checking"):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      state=state, observe=observe, hook=hook, tech=tech, note=note, na=na, level=level))


exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        a["hook_needed"] = p["hook"]
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["text"]},
                             "why_tests_cant": p["why"], "anchors": a}) + "\n")

man = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [], "notes": NOTES}
for p in PROPS:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        if not os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
            man["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
            continue
        man["checks"].append({"property": p["id"], "quick_cmd": "bin/check " + p["id"],
                              "thorough_cmd": "VERIF_TIER=thorough bin/check " + p["id"],
                              "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "checks")
