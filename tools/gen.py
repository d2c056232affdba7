#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/catalog.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import catalog

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in catalog.PROPS:
        mech = [{"name": n, "where": w} for n, w in p["mech"]]
        o = {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": mech, "observe_at": p.get("observe", []), "hook_needed": None},
        }
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} quick",
            "thorough_cmd": f"python3 check.py {p['id']} thorough",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        }
        for p in catalog.PROPS
    ],
    "not_applicable": catalog.NOT_APPLICABLE,
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
