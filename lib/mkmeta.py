#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py: a property is claimed when it has a check."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNCLAIMED = {}
lines, checks, na = [], [], []
for p in PROPS:
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None}}))
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.py"):
        checks.append({"property": i, "quick_cmd": f"python3 checks/{i}.py", "thorough_cmd": f"VERIF_TIER=thorough python3 checks/{i}.py",
                       "evidence_file": f"evidence/{i}.json", "technique": "TLA+ specification, TLC model checking and trace validation of the real code",
                       "level": p["level"], "level_note": p["note"] + " Bounded: it covers the behaviours enumerated and the traces recorded, on a native clang build of the library (Windows layer replaced by a POSIX shim)."})
    else:
        na.append({"property": i, "reason": UNCLAIMED.get(i, "check not built yet")})
    assert len(p["title"]) <= 80, p["title"]
open(f"{V}/properties.jsonl", "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "hooks": {"guard": "(none)", "enable": "no hooks: the drivers use the library's API and read its public structures", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Specifications in spec/ (TLA+, TLC); checks/ drive harness/*.cpp built from /repo and have TLC validate the recorded traces."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
