"""Writes properties.jsonl and MANIFEST.json from mc/properties.py."""

import json
import os
import sys

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HOME)
from mc.properties import PROPERTIES, NOT_APPLICABLE  # noqa: E402

with open(os.path.join(HOME, "properties.jsonl"), "w") as f:
    for p in PROPERTIES:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p["observe"],
                "hook_needed": None,
            },
        }) + "\n")

na = {n["property"] for n in NOT_APPLICABLE}
with open(os.path.join(HOME, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./run_check.sh {p['id']} quick",
            "thorough_cmd": f"./run_check.sh {p['id']} thorough",
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["note"],
        } for p in PROPERTIES if p["id"] not in na],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks in /repo: the solver calls are intercepted from outside (mc/explore.py, mc/stepping.py). "
        "The checks import FESTIM from /repo's working tree; nothing has to be built.",
    }, f, indent=1)
    f.write("\n")

# the section of DESIGN.md about the properties
import importlib  # noqa: E402

out = []
for p in PROPERTIES:
    m = importlib.import_module("mc.checks." + p["id"].lower())
    out += [f"### {p['id']} {p['title']}", "", p["statement"], "", f"* Decided by: {p['technique']}.",
            f"* Enumerated (quick): {m.BOUNDS['quick']}.", f"* Enumerated (thorough): {m.BOUNDS['thorough']}.",
            f"* Assumes: {'; '.join(m.ASSUMPTIONS)}.", f"* Reaches what tests cannot: {p['why']}", ""]
d = os.path.join(HOME, "DESIGN.md")
text = open(d).read()
a, b = text.index("## Properties\n"), text.index("## Planted changes\n")
open(d, "w").write(text[:a] + "## Properties\n\n" + "\n".join(out) + "\n" + text[b:])
