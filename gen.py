#!/usr/bin/env python3
"""Writes checks.json, properties.jsonl and MANIFEST.json from one description."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
MODES = [("plain", 0), ("pool", 1), ("embedded", 2)]
P = []

def prop(id, title, statement, over, quant, why, files, state, mech, runs, quick=240, thorough=800, outside="", assumes=(), note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, state=state,
                  mech=mech, runs=runs, quick=quick, thorough=thorough, outside=outside, assumes=list(assumes), note=note))

def run(name, fn, thorough=None, only=None, share=1.0, reach=("end",), sched=False, bounds="", **params):
    r = dict(name=name, fn=fn, params=params, reach=list(reach), share=share, bounds=bounds)
    if thorough: r["thorough"] = thorough
    if only: r["only"] = only
    if sched: r["sched"] = True
    return r

Q, T = "quick", "thorough"
exec(open(os.path.join(here, "props.py")).read())

checks = {"properties": {}}
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": NOT_APPLICABLE}
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mech"]}}) + "\n")
        if p["runs"] is None: continue
        checks["properties"][p["id"]] = {"title": p["title"], "quick_s": p["quick"], "thorough_s": p["thorough"],
            "outside": p["outside"], "assumptions": p["assumes"], "runs": p["runs"]}
        man["checks"].append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": TECH, "level": "model_checking", "level_note": p["note"] or ("bounded: " + "; ".join(sorted({r["bounds"] for r in p["runs"] if r["bounds"]})) + ". Outside: " + p["outside"])})
json.dump(checks, open(os.path.join(here, "checks.json"), "w"), indent=1)
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
