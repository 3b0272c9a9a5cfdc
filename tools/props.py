#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing; both results are committed)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

P = []


def prop(pid, title, statement, over, text, why, files, mech, note="", observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": m, "where": w} for m, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (pid, len(title))
    P.append(({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, note))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

NOT_APPLICABLE = []


def main():
    ids = [p["id"] for p, _ in P]
    assert len(set(ids)) == len(ids)
    missing = set(CHECKS) - set(ids)
    assert not missing, missing
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    na = []
    for p, note in P:
        pid = p["id"]
        if pid not in CHECKS:
            na.append({"property": pid, "reason": note})
            continue
        c = CHECKS[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "./run.py %s quick" % pid,
            "thorough_cmd": "./run.py %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": c.get("technique", "property-based testing: generated inputs against a reference model"),
            "level": "exploration",
            "level_note": note or "bounded random search; sizes and bounds are in DESIGN.md",
        })
    m = {"version": 1, "setup_cmd": "python3 -c 'import checks' && g++ --version >/dev/null", "checks": checks,
         "not_applicable": na,
         "notes": "Every check builds its harness together with /repo/src from the current working tree (run.py), runs it in "
                  "8 forked workers and writes evidence/<ID>.json. ./run.py ID replay FILE re-runs a saved case."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    print(len(P), "properties,", len(checks), "checks")


main()
