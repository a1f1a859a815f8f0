"""Writes MANIFEST.json. CLAIMED: property -> (technique, level, note)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ specification checked exhaustively with TLC within small constants; executions of the real library validated by TLC against the same specification (trace validation)"
STORE = ("The TLA+ store specification (FdbStore) is checked exhaustively by TLC for small constants; seeded random behaviours of it, with "
         "varied schemas, values and options, are executed on the real library and every recorded execution must be a behaviour of the "
         "specification (TLC decides). Assurance: no deviation on the explored behaviours; trusts the driver's observation of the API.")
CLAIMED = {p: (TV, "model_checking", STORE) for p in ("F01", "F02", "F06", "F07", "F09", "F10", "F11", "F16")}
exec(open(os.path.join(V, "tools", "claimed_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "claimed_more.py")) else None
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 lib/build.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "technique": CLAIMED[p][0], "level": CLAIMED[p][1], "level_note": CLAIMED[p][2]} for p in props if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NA.get(p, "the specification does not reach this part yet")} for p in props if p not in CLAIMED],
     "notes": "No hooks in /repo: the machinery observes the public API, the files and the system calls. Checks build /repo's working tree in /verif/build."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
