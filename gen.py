#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE, NOTES


def line(pid, p):
    return {"id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}


lines = [line(pid, PROPS[pid]) for pid in sorted(PROPS)] + [line(p["id"], p) for p in NOT_APPLICABLE]
for l in lines:
    assert len(l["title"]) <= 80, l["title"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for l in lines:
        f.write(json.dumps(l) + "\n")

checks = []
for pid in sorted(PROPS):
    p = PROPS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "./check %s quick" % pid,
        "thorough_cmd": "./check %s thorough" % pid,
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p.get("level_note") or (
            "seeded search over simulated runs of the real code: %s. Assumes: %s." % (p["text"], "; ".join(p["assumptions"]))),
    })
manifest = {
    "version": 1,
    "setup_cmd": "python3 -c \"import sys; sys.exit(0 if sys.version_info >= (3, 8) else 1)\" && g++ --version && clang++ --version",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": NOTES,
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
