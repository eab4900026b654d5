#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V), str(V / "tools")]
from props import P
from checks import CHECKS
lines, checks = [], []
assert len({p["id"] for p in P}) == len(P)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                             "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                                                     "observe_at": p["observe"], "hook_needed": None}}))
    if p["id"] in CHECKS:
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"], "evidence_file": "evidence/%s.json" % p["id"]})
na = [{"property": p["id"], "reason": "the check is not built yet"} for p in P if p["id"] not in CHECKS]
(V / "properties.jsonl").write_text("\n".join(lines) + "\n")
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
    "notes": "Every check builds its harness and the ink sources it needs from /repo's current tree (INK_REPO overrides the path) with address and undefined-behaviour sanitizers, against stand-in headers for the absent third-party libraries (/verif/shim). No hooks in /repo are needed. A saved failing case is re-run with: python3 run.py ID replay FILE."}, indent=1) + "\n")
for p in P:
    for f in p["files"]:
        assert Path("/repo", f).exists(), f
print(len(P), "properties,", len(checks), "checks")
