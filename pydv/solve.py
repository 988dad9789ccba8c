"""Discharging obligations with several SMT back ends in parallel."""
import os
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import z3

AXIOMS = {}        # declaration name -> [formulas]

Z3NEW = "z3-new"
BACKENDS = {
    "z3": ["z3-new", "auto_config=false", "smt.mbqi=false",
           "smt.case_split=3", "smt.qi.eager_threshold=100",
           "smt.random_seed=0"],
    "z3b": ["z3-new", "smt.random_seed=7"],
    "z3c": ["z3-new", "auto_config=false", "smt.mbqi=false",
            "smt.arith.solver=2", "smt.relevancy=2", "smt.random_seed=3"],
    "z3old": ["z3", "auto_config=false", "smt.mbqi=false"],
    "cvc5": ["cvc5", "--lang=smt2"],
    "cvc5e": ["cvc5", "--lang=smt2", "--enum-inst"],
}
ORDER = ["z3", "cvc5", "z3c", "z3old", "z3b", "cvc5e"]


def decls(fs):
    """All declarations occurring in the formulas."""
    seen, out = set(), {}
    stack = list(fs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            stack.append(e.body())
            for k in range(e.num_patterns()):
                stack.append(e.pattern(k))
            continue
        if z3.is_app(e):
            d = e.decl()
            out[d.name()] = d
            stack.extend(e.children())
    return out


def with_axioms(fs):
    """Add the axioms of every declaration used, transitively."""
    out, done = [], set()
    todo = list(fs)
    while todo:
        ds = decls(todo)
        todo = []
        for n in ds:
            if n in AXIOMS and n not in done:
                done.add(n)
                todo.extend(AXIOMS[n])
        out.extend(todo)
    return out, done


def to_smt2(hyps, goal):
    neg = z3.Not(goal)
    fs = list(hyps) + [neg]
    ax, _ = with_axioms(fs)
    s = z3.Solver()
    for f in ax:
        s.add(f)
    for f in fs:
        s.add(f)
    txt = s.to_smt2()
    return "(set-logic ALL)\n" + txt


def run_one(backend, path, timeout, sat=False):
    cmd = list(BACKENDS[backend])
    if cmd[0] in ("z3-new", "z3"):
        cmd += ["-T:%d" % timeout, path]
    else:
        cmd += ["--tlimit=%d" % (timeout * 1000), path]
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout + 10)
        out = r.stdout.decode("utf8", "replace").strip()
    except subprocess.TimeoutExpired:
        out = "timeout"
    ans = "unknown"
    for ln in out.splitlines():
        if ln.strip() in ("sat", "unsat", "unknown", "timeout"):
            ans = ln.strip()
            break
    return ans, time.time() - t, out[:2000]


def discharge(obl, timeout, workdir, order=ORDER, fast=None):
    """Try back ends in order; returns (status, backend, seconds, log)."""
    path = os.path.join(workdir, "%s.smt2" % obl["key"])
    with open(path, "w") as f:
        f.write(obl["smt2"])
    total, log = 0.0, []
    status, used = "unknown", None
    schedule = [(b, min(t, timeout)) for b, t in (
        ("z3", 2), ("cvc5", 3), ("z3b", 3), ("z3c", 3), ("z3", 6),
        ("cvc5", 6))]
    gave_up = set()
    schedule += [(b, timeout) for b in order]
    if fast:
        schedule = fast
    for b, to in schedule:
        if b in gave_up:
            continue
        ans, dt, out = run_one(b, path, to)
        total += dt
        log.append("%s: %s (%.2fs) %s" % (
            b, ans, dt, out[:300] if ans == "unknown" else ""))
        if ans == "unknown" and dt < .8 * to:
            gave_up.add(b)          # saturated: more time does not help
        if ans == "unsat":
            status, used = "proved", b
            break
        if ans == "sat":
            status, used = "refuted", b
            break
    try:
        os.unlink(path)
    except OSError:
        pass
    return status, used, total, log


def discharge_all(obls, timeout=60, jobs=8, fast=None, budget=None):
    """Discharge all obligations; fills in obl['status'] etc."""
    wd = tempfile.mkdtemp(prefix="pydv_")
    t0 = time.time()
    failed = [0]

    def go(o):
        if budget and time.time() - t0 > budget:
            o.update(status="unknown", backend=None, seconds=0.0,
                     log=["out of time"])
            return
        to = timeout if failed[0] < 6 else min(timeout, 6)
        st, b, dt, log = discharge(o, to, wd, fast=fast)
        if st != "proved":
            failed[0] += 1
        o.update(status=st, backend=b, seconds=round(dt, 3), log=log)
    try:
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(go, obls))
    finally:
        try:
            for f in os.listdir(wd):
                os.unlink(os.path.join(wd, f))
            os.rmdir(wd)
        except OSError:
            pass
    return obls
