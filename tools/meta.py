#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description of every property."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
sys.path.insert(0, V)
from budget import BUDGET

with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["forall"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("observe", []), "hook_needed": None}}, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    assert p["id"] in BUDGET, p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": "deterministic simulation with fault injection: " + p["tech"], "level": "exploration",
                   "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 check.py T01 --build-only", "checks": checks,
     "hooks": {"guard": "none", "enable": "no hook was added to brille: teams, loops, locks, critical sections, the heap, clocks, the terminal, process ids and storage are replaced at link time or through the include path; the only commits in /repo are fixes", "source_commits": []},
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
     "notes": "See DESIGN.md. check.py PROPERTY --replay FILE reproduces a reported violation; check.py PROPERTY --determinism N compares the event hashes of N seeds across 1, 3, 5 and 8 worker processes."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
