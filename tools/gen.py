"""Write properties.jsonl and MANIFEST.json from tools/spec.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from spec import PROPS  # noqa

with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        fd.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                "observe_at": p["observe"], "hook_needed": None,
            },
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 -c \"import sa.core, sa.interp, sa.model\"",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 -m sa {p['id']}",
        "thorough_cmd": f"python3 -m sa {p['id']} --tier thorough",
        "technique": p["technique"], "level": p["level"], "level_note": p["note"],
    } for p in PROPS if "na" not in p],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if "na" in p],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
    json.dump(man, fd, indent=1)
    fd.write("\n")
