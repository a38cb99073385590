#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
T = "TLA+ specification (TLC) + conformance: "
POSN = ("Bounded/sampled: TLC judges every recorded step against the abstract position specification; the recorded "
        "sessions cover the grids described in DESIGN.md exhaustively and random histories by sample. Trusts TLC, rustc, "
        "and the driver's projection of public queries.")
CLAIMED = json.load(open(os.path.join(HERE, "claimed.json")))
checks, na = [], []
for p in props:
    c = CLAIMED.get(p["id"])
    if c and "technique" in c:
        checks.append({"property": p["id"], "quick_cmd": f"python3 checks/run.py {p['id']}",
                       "thorough_cmd": f"python3 checks/run.py {p['id']} --thorough",
                       "technique": T + c["technique"], "level": "model_checking", "level_note": c.get("note", POSN)})
    else:
        na.append({"property": p["id"], "reason": (c or {}).get("reason", "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specification language: TLA+ with TLC. See DESIGN.md. No hooks in /repo are needed: the public API and "
              "the C ABI expose the whole abstract state."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
