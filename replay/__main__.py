import sys, time
from . import core, load
load()
props = sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] != "all" else sorted(core.DRIVERS)
tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
budget = float(sys.argv[3]) if len(sys.argv) > 3 else 15
from concurrent.futures import ProcessPoolExecutor
jobs = [(p, e) for p in props for e in core.DRIVERS[p]]
def go(i):
    p, e = jobs[i]
    return p, core.run_driver(e, 1, tier, budget)
import multiprocessing
with multiprocessing.get_context("fork").Pool(8) as pool:
    for p, r in pool.imap(go, range(len(jobs)), 1):
        v = r["violation"]
        print(p, r["driver"], "ev=%d dist=%d %.1fs" % (r["evaluations"], r["distinct"], r["wall"]), "OK" if not v else "VIOLATION %s\n   in=%s\n   %s" % (v["case"], v["input"][:600], v["detail"][:1500]))
