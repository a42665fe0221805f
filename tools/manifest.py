#!/usr/bin/env python3
"""writes checks.json and MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = {}, []
TECH = "contract-based deductive verification: Verus contracts on functions extracted from /repo on every run, Z3 back end"

def claim(p, modules, proved, bounded, assumptions=(), level="proof", harness=True):
    note = "PROVED for all inputs: " + proved
    if harness:
        note += " BOUNDED, never counted as proved: " + bounded
    checks[p] = {"modules": modules, "level": level, "level_note": note, "assumptions": list(assumptions), "harness": harness}

def skip(p, reason):
    na.append({"property": p, "reason": reason})

exec(open(os.path.join(HERE, "tools", "claims.py")).read())

json.dump(checks, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
man = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 check.py {p} quick",
        "thorough_cmd": f"python3 check.py {p} thorough",
        "technique": TECH + ("; bounded concrete contract checks stand in for the functions outside its reach" if c["harness"] else ""),
        "level": c["level"], "level_note": c["level_note"],
        "theorems": [f"contracts/{m}.vrs" for m in c["modules"]],
    } for p, c in checks.items()],
    "not_applicable": na,
}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
