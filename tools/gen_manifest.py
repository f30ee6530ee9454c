#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE  # noqa: E402

out = []
checks = []
na = []
for p in PROPS:
    rec = dict(
        id=p["id"],
        title=p["title"],
        statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["forall"]),
        why_tests_cant=p["why"],
        anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]),
    )
    assert len(rec["title"]) <= 80, rec["title"]
    out.append(rec)
    if os.path.exists(f"{HERE}/checks/{p['id']}.py"):
        checks.append(
            dict(
                property=p["id"],
                quick_cmd=f"./run.sh {p['id']}",
                thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['id']}",
                technique=p["technique"],
                level=p["level"],
                level_note=p["note"],
            )
        )
    else:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE[p["id"]]))
with open(f"{HERE}/properties.jsonl", "w") as f:
    for r in out:
        f.write(json.dumps(r) + "\n")
man = dict(
    version=1,
    setup_cmd="./setup.sh",
    hooks=dict(guard="none", enable="no hooks: the checks read /repo's working tree as it is", source_commits=[]),
    checks=checks,
    not_applicable=na,
)
json.dump(man, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(out), "properties", len(checks), "claimed", len(na), "n/a")
