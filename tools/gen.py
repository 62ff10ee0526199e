#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/properties.py."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from properties import PROPS, NOT_APPLICABLE
TECH = "symbolic execution of the compiled C++ (LLVM IR), Z3 decides every branch and assertion"
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert os.path.exists(os.path.join(root, "harness", p["id"] + ".cpp")) or p["id"] in NOT_APPLICABLE, p["id"]
        files = p["files"]
        for x in files:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "technique": TECH,
        "level": "model_checking",
        "level_note": p["note"],
    } for p in PROPS if p["id"] not in NOT_APPLICABLE],
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "checks")
