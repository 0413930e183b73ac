#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after edits)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = "deterministic simulation with fault injection: "


def F(*files):
    return ["opensfm/" + f for f in files]


PROPS = []


def P(id, title, statement, over, q, why, files, mech, tech=None, note=None, na=None, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why,
                      files=files, mech=mech, tech=tech, note=note, na=na, observe=observe))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")

checks, na = [], []
for p in PROPS:
    mod = "%s/checks/%s.py" % (V, p["id"].lower())
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif os.path.exists(mod):
        checks.append({
            "property": p["id"],
            "quick_cmd": "%s check.py %s" % (PY, p["id"].lower()),
            "thorough_cmd": "VERIF_TIER=thorough %s check.py %s" % (PY, p["id"].lower()),
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": TECH + p["tech"],
            "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "no check is built yet"})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "%s sim/build.py" % PY,
        "hooks": {"guard": "OPENSFM_SIM", "enable":
                  "no hook was needed: every seam is outside /repo (libc interposition by "
                  "LD_PRELOAD, lock/clock/random patching, sys.monitoring pre-emption); the "
                  "variable is reserved and read by nothing", "source_commits": []},
        "checks": checks, "not_applicable": na,
        "notes": "Run in /verif: check.py <id> [--replay FILE]. DESIGN.md describes the simulator."},
        f, indent=1)
print(len(checks), "checks", len(na), "not applicable/pending")
