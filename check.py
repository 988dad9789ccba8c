"""Decide one property on the current tree of /repo.

  check.py Cxx [--tier quick|thorough]
  check.py Cxx --replay FILE        run a recorded failing case again
  check.py --setup                  check that the tools are there

1. Deductive part: the functions under contract (contracts/*.py) are executed
   symbolically from their current source, and every obligation goes to the
   SMT back ends.
2. Run-time part: the executable form of the contracts is evaluated on the
   real functions (replay/*.py).  It cross-checks the deductive engine, is the
   labelled bounded stand-in for functions not under contract, and searches
   for a failing input when an obligation is not discharged.
"""
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

if os.environ.get("PYTHONHASHSEED") != "0":
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)

EVID = os.path.join(HERE, "evidence")


def driver_job(job):
    from replay import core
    entry, seed, tier, budget = job
    return core.run_driver(entry, seed, tier, budget)


_jobs = None


def _go(i):
    try:
        return driver_job(_jobs[i])
    except BaseException as e:
        import traceback
        return {"driver": _jobs[i][0][0], "error": traceback.format_exc(),
                "violation": None, "evaluations": 0, "distinct": 0,
                "trivial": 0, "samples": [], "functions": [], "bound": "",
                "wall": 0.0}


def run_drivers(prop, seed, tier, budget):
    """All drivers of a property in parallel; stops at a violation."""
    global _jobs
    from replay import core, load
    load()
    entries = core.DRIVERS.get(prop, [])
    _jobs = [(e, seed, tier, budget) for e in entries]
    out = []
    if not entries:
        return out
    with multiprocessing.get_context("fork").Pool(
            min(8, len(entries)), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_go, range(len(entries)), 1):
            out.append(r)
    return sorted(out, key=lambda r: r["driver"])


def prove(prop, tier, budget, timeout):
    from pydv import run as pv
    from pydv.lib import REG
    t0 = time.time()
    pv.load()
    if not any(prop in c.props for c in pv.all_contracts()):
        return None
    v, done, lem, trusted = pv.generate(props=[prop])
    gen = time.time() - t0
    items = pv.prove(v, timeout=timeout, budget=budget)
    bad, ngroups = pv.vacuity(v)
    nb = {}
    for d in items:
        if d["status"] == "proved":
            nb[d["backend"]] = nb.get(d["backend"], 0) + 1
    failed = [d for d in items if d["status"] != "proved"]
    for fn, where in bad:
        failed.append({"fn": fn, "name": "vacuity guard: the assumptions at "
                       "%s are not contradictory" % where, "line": 0,
                       "kind": "vacuity", "status": "failed", "log": [],
                       "seconds": 0.0, "backend": None})
    if not items:
        failed.append({"fn": prop, "name": "obligations are generated",
                       "line": 0, "kind": "vacuity", "status": "failed",
                       "log": [], "seconds": 0.0, "backend": None})
    assume = list(REG.assumptions_for(done)) + list(pv.GENERAL)
    assume += ["contract of %s is assumed, not proved" % n for n in trusted]
    assume += ["termination of %s is not proved" % n for n in pv.partial(v, done)]
    return {"functions": done, "lemmas": lem, "trusted": trusted,
            "obligations": len(items),
            "discharged": sum(d["status"] == "proved" for d in items),
            "by_backend": nb, "vacuity_points": ngroups,
            "generation_s": round(gen, 2),
            "solver_s": round(sum(d["seconds"] for d in items), 2),
            "slowest_s": max([d["seconds"] for d in items] or [0]),
            "failed": failed, "assumptions": assume}


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for ln in f:
                if ln.startswith("KNOWN-FINDING: property=%s " % prop):
                    out.append(ln.rstrip("\n"))
    except OSError:
        pass
    return out


def show_obl(d):
    return {"function": d["fn"], "line": d["line"], "obligation": d["name"],
            "kind": d["kind"], "status": d["status"],
            "verifier_output": d["log"]}


def main():
    args = sys.argv[1:]
    if "--setup" in args:
        return setup()
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in args:
        return replay(prop, args[args.index("--replay") + 1])
    from levels import LEVELS
    level = LEVELS[prop]["level"]
    t0 = time.time()
    thorough = tier == "thorough"
    rt = run_drivers(prop, seed, tier, 240 if thorough else 20)
    errors = [r for r in rt if r.get("error")]
    hit = next((r for r in rt if r["violation"]), None)
    pf = None
    if hit is None:
        pf = prove(prop, tier, 2400 if thorough else 420,
                   120 if thorough else 40)
    else:
        pf = prove(prop, tier, 45, 6)
    extra = []
    if hit is None and pf and pf["failed"]:
        # look longer for an input that shows the failure
        for k in range(1, 4):
            left = (3000 if thorough else 760) - (time.time() - t0)
            if left < 60:
                break
            ex = run_drivers(prop, seed + 1000 * k, "thorough",
                             min(60, left - 40))
            extra += ex
            errors += [r for r in ex if r.get("error")]
            hit = next((r for r in ex if r["violation"]), None)
            if hit:
                hit["seed"] = seed + 1000 * k
                hit["tier"] = "thorough"
                break
    if errors and hit is None:
        for r in errors:
            print("ERROR in driver %s:\n%s" % (r["driver"], r["error"]))
        return 2
    runs = rt + extra
    cov = {}
    nev = sum(r["evaluations"] for r in runs)
    bounded = {"evaluations": nev,
               "distinct_nontrivial": sum(r["distinct"] for r in runs),
               "rule": "; ".join("%s: %s" % (r["driver"], r["bound"])
                                 for r in rt),
               "samples": [s for r in rt for s in r["samples"]][:8]}
    if pf:
        cov.update(obligations=pf["obligations"],
                   discharged=pf["discharged"],
                   checker_cmd="python3-vt -B /verif/check.py %s --tier %s"
                   % (prop, tier))
        from pydv.run import TRUSTED_BASE
        cov["trusted_base"] = TRUSTED_BASE
        cov["functions_under_contract"] = pf["functions"]
        cov["lemmas"] = pf["lemmas"]
        cov["trusted_contracts"] = pf["trusted"]
        cov["discharged_by_backend"] = pf["by_backend"]
        cov["vacuity_points_checked"] = pf["vacuity_points"]
        cov["solver_seconds"] = pf["solver_s"]
        cov["slowest_obligation_s"] = pf["slowest_s"]
        cov["generation_seconds"] = pf["generation_s"]
    cov["bounded_functions"] = LEVELS[prop].get("bounded", [])
    cov.update(bounded)
    if level == "other":
        cov["explanation"] = LEVELS[prop]["note"]
    viol = 0
    line = None
    rpath = os.path.join(EVID, "replay", "%s.json" % prop)
    if hit or (pf and pf["failed"]):
        viol = 1
        rec = {"property": prop, "tier": tier, "seed": seed}
        if pf:
            rec["failed_obligations"] = [show_obl(d)
                                         for d in pf["failed"][:40]]
        if hit:
            rec["failing_input"] = dict(hit["violation"],
                                        seed=hit.get("seed", seed),
                                        tier=hit.get("tier", tier))
            rec["how_to_replay"] = ("python3-vt -B /verif/check.py %s "
                                    "--replay %s" % (prop, rpath))
        write_json(rpath, rec)
        line = "VIOLATION property=%s replay=%s" % (prop, rpath)
        if not hit:
            line += " no-failing-input-found"
    write_json(os.path.join(EVID, "%s.json" % prop), {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": cov,
        "assumptions": (pf["assumptions"] if pf else []) +
        LEVELS[prop].get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": viol})
    if pf:
        print("%s: %d functions under contract, %d/%d obligations discharged "
              "%s, solver %.1f s" % (prop, len(pf["functions"]),
                                     pf["discharged"], pf["obligations"],
                                     pf["by_backend"], pf["solver_s"]))
    print("%s: run-time contracts evaluated on %d inputs" % (prop, nev))
    for ln in known_findings(prop):
        print(ln)
    if viol:
        if pf:
            for d in pf["failed"][:10]:
                print("  not discharged: %s:%s %s" % (d["fn"], d["line"],
                                                      d["name"]))
        if hit:
            v = hit["violation"]
            print("  failing input (%s, %s): %s\n  %s" % (
                v["driver"], v["case"], v["input"][:400],
                v["detail"][:1500]))
        print(line)
        return 1
    return 0


def replay(prop, path):
    from replay import core, load
    load()
    with open(path) as f:
        rec = json.load(f)
    fi = rec.get("failing_input")
    if not fi:
        print("the recorded violation is a failed obligation:")
        for d in rec.get("failed_obligations", []):
            print("  %(function)s:%(line)s %(obligation)s" % d)
        return 0
    for e in core.DRIVERS[prop]:
        if e[0] == fi["driver"]:
            r = core.run_driver(e, fi["seed"], fi["tier"], 600)
            v = r["violation"]
            if v:
                print("still fails: %s %s\n%s" % (v["case"], v["input"],
                                                  v["detail"]))
                return 1
            print("passes now")
    return 0


def setup():
    import shutil
    import z3
    from pydv import run as pv
    for t in ("z3-new", "z3", "cvc5"):
        if not shutil.which(t):
            print("missing tool " + t)
            return 2
    pv.load()
    from replay import core, load
    load()
    print("contracts: %d, run-time drivers: %d" % (
        len(pv.all_contracts()), sum(map(len, core.DRIVERS.values()))))
    return 0


if __name__ == "__main__":
    sys.exit(main())
