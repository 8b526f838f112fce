"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]} if p.get("state") else {}),
                        "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    elif os.path.exists(os.path.join(HERE, "harnesses", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "bounded symbolic execution of the real Python code, obligations decided by z3",
            "level": "other", "level_note": p["note"] + " " + props.TRUST})
    else:
        na.append({"property": p["id"], "reason": "no check has been built yet"})
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
    "notes": "The checks symbolically execute the code of /repo (instrumented in memory at import); no hook or change to /repo is needed. See DESIGN.md."},
    open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
