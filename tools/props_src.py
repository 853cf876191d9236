#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "most_queue/sim/"
TH = "most_queue/theory/"
TECH = "symbolic execution of the real Python code (inputs and event orders as SMT variables), z3 decides; counterexamples replayed"
P = []
NA = []


def prop(pid, title, statement, over, quant, why, files, mech, note, state=None):
    P.append((dict(id=pid, title=title, statement=statement,
                   quantifier={"over": over, "text": quant}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            **({"state": [{"name": n, "meaning": m} for n, m in state]} if state else {})}),
              note))


HIST = ["histories", "inputs", "configurations"]
exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())


def main():
    ids = [p["id"] for p, _ in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    na = dict(NA)
    checks = []
    for p, note in P:
        i = p["id"]
        if i in na:
            continue
        if not os.path.exists(os.path.join(ROOT, "props", i.lower() + ".py")):
            na[i] = "check not built yet"
            continue
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i,
                       "thorough_cmd": "./check %s --tier thorough" % i,
                       "technique": TECH, "level": "model_checking", "level_note": note})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
           "notes": "Every check symbolically executes /repo's current source; see DESIGN.md. No hooks in /repo are needed."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable:", sorted(na))


main()
