#!/usr/bin/env python3
"""writes MANIFEST.json from the contract files that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, "tools", "level_notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
COMMON = " Assumes: floats treated as reals (float constants such as sqrt(3), pi are the ideal constants), numpy/scipy/gymnasium trusted at stated contracts, the VC generator in /verif/vc, z3 and cvc5. A contract whose obligations are not all discharged is reported in the evidence as undecided/bounded, never counted as proved."
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "contracts", i.lower() + ".py")) and i not in NA:
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python /verif/check.py {i}", "thorough_cmd": f"/opt/venv/bin/python /verif/check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": n.get("technique", "contract-based deductive verification: pre/postconditions on the real functions, symbolic execution of their bodies, every obligation discharged by polynomial normaliser / z3 / cvc5; counterexamples replayed on the real code"),
                       "level": n.get("level", "proof"), "level_note": n.get("note", "Postconditions of the listed functions proved for all inputs.") + COMMON})
    else:
        na.append({"property": i, "reason": NA.get(i, "no contract built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python /verif/tools/setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks put symbolic stand-ins for numpy/math into the globals of the /repo modules at check time and execute the unmodified function bodies."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
