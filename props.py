#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 props.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []      # properties
C = {}      # id -> (technique, level_note)
NA = []     # (id, reason)

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

def claim(id, technique, note):
    C[id] = (technique, note)

def na(id, reason):
    NA.append((id, reason))

exec(open(os.path.join(HERE, "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 sa/build.py",
    "checks": [{"property": i, "quick_cmd": f"python3 checks/{i}.py",
                "thorough_cmd": f"python3 checks/{i}.py --thorough",
                "technique": t, "level": "other", "level_note": n} for i, (t, n) in C.items()],
    "not_applicable": [{"property": i, "reason": r} for i, r in NA],
}
ids = {p["id"] for p in P}
assert ids == set(C) | {i for i, _ in NA}, ids ^ (set(C) | {i for i, _ in NA})
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
