import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from vlib.levels import LEVEL, NOTE
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "contract-based deductive verification: weakest-precondition style symbolic execution of the compiler's MIR of /repo against function contracts, obligations discharged by z3; bounded stand-in on the real code for what is left open",
        "level": LEVEL.get(i, "other"), "level_note": NOTE.get(i, "bounded stand-in only; see DESIGN.md")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
