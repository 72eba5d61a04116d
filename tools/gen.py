"""write properties.jsonl and MANIFEST.json from tools/table.py"""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from table import P  # noqa: E402

done = {f[:-3].upper() for f in os.listdir(os.path.join(here, "mc", "props")) if f.startswith("c") and f.endswith(".py")}
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }
        if p["state"]:
            d["anchors"]["state"] = p["state"]
        f.write(json.dumps(d) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "Pure-Python package: every check imports /repo's current sources (bytecode caches bypassed). DESIGN.md explains each check.",
}
for p in P:
    if p["id"] in done:
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "bash check.sh %s quick" % p["id"],
            "thorough_cmd": "bash check.sh %s thorough" % p["id"],
            "technique": "bounded exhaustive explicit-state exploration of the real code against a reference model",
            "level": "model_checking",
            "level_note": p["note"],
        })
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print("claimed", len(m["checks"]), "open", len(m["not_applicable"]))
