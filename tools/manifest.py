"""Write MANIFEST.json (run from /verif; the output is committed)."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from levels import LEVELS, NOT_APPLICABLE

TECH = {"proof": "contracts on the real functions, verification conditions "
                 "from the current source, SMT",
        "other": "contracts on the real functions proved by SMT, bounded "
                 "run-time contract checks for the rest",
        "exploration": "bounded run-time evaluation of the contracts"}
checks = []
for p in sorted(LEVELS):
    d = LEVELS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3-vt -B check.py %s --tier quick" % p,
        "thorough_cmd": "python3-vt -B check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH[d["level"]],
        "level": d["level"],
        "level_note": d["note"] + (
            " Bounded: " + ", ".join(d["bounded"]) + "."
            if d["bounded"] and d["level"] == "other" else "")})
out = {"version": 1,
       "setup_cmd": "python3-vt -B check.py --setup",
       "checks": checks,
       "not_applicable": [{"property": p, "reason": r}
                          for p, r in sorted(NOT_APPLICABLE.items())],
       "notes": "No hooks are needed: the checks read and run the working "
                "tree of /repo directly. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
