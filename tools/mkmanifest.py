#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties with a check; NA the others."""
import json, os
TECH = "symbolic execution of the Go SSA of the real code with z3; counterexamples replayed natively"
BASE = ("Every path of the harness within the stated bounds is explored and every assertion is discharged by z3 "
        "(or by exact interval reasoning) for all values of the symbolic inputs. Trusted: the SSA interpreter and its "
        "models of encoding/xml tokens, strconv, strings, math and fmt; floats are reals with tracked rounding error. ")
NOTE = {}
NA = {}
CLAIMED = []
def claim(id, note): CLAIMED.append(id); NOTE[id] = note
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read())
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(d, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
           "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "model_checking",
           "level_note": BASE + NOTE[i]} for i in ids if i in CLAIMED]
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in CLAIMED]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses enter through a go/packages overlay. See DESIGN.md."}
json.dump(m, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
