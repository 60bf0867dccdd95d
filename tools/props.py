#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("contract-based deductive verification: contracts on the real functions, verification conditions generated by "
        "symbolic execution of their code objects on every run, discharged by a ring normaliser with axioms for the "
        "special functions, z3 and cvc5; counter-models and contracts replayed on the unpatched code")
P = []
NA = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), level="proof", note="", state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier={"over": list(over), "text": " ".join(text.split())},
                  why_tests_cant=" ".join(why.split()),
                  anchors={"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "state": [{"name": a, "meaning": b, "where": w} for a, b, w in state],
                           "observe_at": list(observe), "hook_needed": None},
                  _level=level, _note=" ".join(note.split())))


def na(id, reason):
    NA.append({"property": id, "reason": " ".join(reason.split())})


exec(open(os.path.join(HERE, "tools", "table.py")).read())

assert len({p["id"] for p in P}) == len(P)
nas = {n["property"] for n in NA}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"],
           "thorough_cmd": "./check %s --tier thorough" % p["id"], "technique": TECH, "level": p["_level"],
           "level_note": p["_note"]} for p in P if p["id"] not in nas]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NA},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
