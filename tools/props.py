#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def p(id, title, statement, over, q, why, files, mech, technique, note, level="other"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                      technique=technique, note=note, level=level, na=None))


def na(id, title, statement, over, q, why, files, mech, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, na=reason))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in sorted(PROPS, key=lambda x: x["id"]):
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["q"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]], "hook_needed": None},
        }) + "\n")

claimed = [x for x in sorted(PROPS, key=lambda x: x["id"]) if x["na"] is None]
m = {
    "version": 1,
    "setup_cmd": "python3 engine/extract.py",
    "checks": [{
        "property": x["id"],
        "quick_cmd": "python3 check.py " + x["id"],
        "thorough_cmd": "python3 check.py --thorough " + x["id"],
        "technique": x["technique"],
        "level": x["level"],
        "level_note": x["note"],
    } for x in claimed],
    "not_applicable": [{"property": x["id"], "reason": x["na"]} for x in sorted(PROPS, key=lambda x: x["id"]) if x["na"]],
    "notes": "All checks analyse the MIR that rustc produces for /repo's current tree (engine/driver); nothing of /repo is executed.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
