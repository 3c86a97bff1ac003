"""Regenerates properties.jsonl and MANIFEST.json from the tables in tools/ptable.py."""
import json
import os
import runpy
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
T = runpy.run_path(os.path.join(HERE, "tools", "ptable.py"))
from sa.props import load  # noqa

REG = load()
with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
    for p in T["P"]:
        d = {k: p[k] for k in ("id", "title", "statement")}
        d["quantifier"] = {"over": p["over"], "text": p["for"]}
        d["why_tests_cant"] = p["why"]
        d["anchors"] = {
            "files": p["files"],
            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
            "observe_at": p.get("observe", []),
            "hook_needed": None,
        }
        assert len(d["title"]) <= 80, d["title"]
        fp.write(json.dumps(d) + "\n")
checks, na = [], []
for p in T["P"]:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert p["id"] in REG, p["id"]
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": "python3 check.py %s" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p.get("tech", T["TECH"]),
            "level": "other",
            "level_note": p.get("note", "") + T["NOTE"],
        }
    )
for r in REG:
    assert any(c["property"] == r for c in checks), "unlisted " + r
json.dump(
    {
        "version": 1,
        "setup_cmd": "python3 -c 'import ast,sys; assert sys.version_info[:2] >= (3, 8)'",
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks are static: they parse /repo/src on every run and never import or execute it.",
    },
    open(os.path.join(HERE, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "checks", len(na), "n/a")
