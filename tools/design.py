"""Write DESIGN.md from the fixed text, the levels, the contracts, the drivers
and the planted bugs (run from /verif; the output is committed)."""
import glob
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from levels import LEVELS, NOT_APPLICABLE
from pydv import run as pv
from pydv.lib import REG
from replay import core, load
from tools.why import WHY

pv.load()
load()


def text(name):
    with open(os.path.join(HERE, "tools", name)) as f:
        return f.read()


out = [text("design.md")]
with open(os.path.join(HERE, "properties.jsonl")) as f:
    props = [json.loads(x) for x in f]
n = {}
for d in LEVELS.values():
    n[d["level"]] = n.get(d["level"], 0) + 1
out.append("Claimed: %d proof, %d other, %d exploration; %d not applicable.\n"
           % (n.get("proof", 0), n.get("other", 0), n.get("exploration", 0),
              len(NOT_APPLICABLE)))
out.append("## Properties\n")
con = {}
for c in pv.all_contracts():
    for p in c.props:
        con.setdefault(p, []).append(c)
for d in props:
    p = d["id"]
    out.append("### %s %s\n" % (p, d["title"]))
    if p in NOT_APPLICABLE:
        out.append("Not applicable: %s\n" % NOT_APPLICABLE[p])
        continue
    l = LEVELS[p]
    out.append("Level **%s**. %s\n" % (l["level"], l["note"]))
    if con.get(p):
        out.append("Contracts (every postcondition is an obligation at every "
                   "exit, for all inputs satisfying the precondition):\n")
        for c in sorted(con[p], key=lambda c: c.name):
            e = [nm for nm, _ in c.ensures + c.each]
            r = ["%s exactly when required" % x for x in c.raises]
            out.append("- `%s`: %s" % (c.name, "; ".join(
                x if len(x) < 90 else x[:87] + "..." for x in e + r)
                or "no exception, nothing else changed"))
        out.append("")
    for name, _, fns, bound in core.DRIVERS.get(p, []):
        out.append("Driver `%s` (%s): %s.\n" % (
            name, ", ".join("`%s`" % x for x in fns), bound.rstrip(".")))
    if l["bounded"] and l["level"] == "other":
        out.append("Bounded only: %s.\n" % ", ".join(
            "`%s`" % x for x in l["bounded"]))
    if l["assumptions"]:
        out.append("Assumptions: %s.\n" % "; ".join(l["assumptions"]))
    if p in WHY:
        out.append(WHY[p] + "\n")
out.append("## Planted bugs (`seeded/`)\n")
out.append("Each was confirmed in a scratch copy: it builds, passes the stable "
           "tests, its demonstration fails with the patch and passes without. "
           "`caught by` says which part of the check reports it.\n")
out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
caught = {}
cp = os.path.join(HERE, "tools", "caught.json")
if os.path.exists(cp):
    with open(cp) as f:
        caught = json.load(f)
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    with open(m) as f:
        d = json.load(f)
    b = os.path.basename(os.path.dirname(m))
    out.append("| %s | %s | %s | %s |" % (
        b, d["property"], d["needs"].replace("|", "/"),
        caught.get(b, "not run yet")))
out.append("")
out.append(text("design2.md"))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out).rstrip() + "\n")
