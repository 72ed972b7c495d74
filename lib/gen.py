#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from lib/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
from props import PROPS
out = []
for p in PROPS:
    out.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["qtext"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "state": p["state"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": p["hook"]}}))
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(out) + "\n")
checks, na = [], []
for p in PROPS:
    if p["claimed"] and os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                       "thorough_cmd": f"python3 check.py {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["reason"] or "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "none", "enable": "no hooks are added to /repo; checks compile /repo/src with sanitizers and preload shims", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks read VERIF_SEED and VERIF_TIER. Known findings: known_findings.json."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
