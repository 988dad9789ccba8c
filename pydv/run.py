"""Generate and discharge the obligations of a set of contracts."""
import ast
import glob
import importlib
import os
import sys
import time

from . import lib, solve
from .engine import Source, Obligation, Unsupported
from .lib import REG
from .spec import SpecError
from .verify import Verifier

HERE = os.path.dirname(os.path.abspath(__file__))
CONTRACTS = os.path.join(os.path.dirname(HERE), "contracts")
REPO = os.environ.get("VERIF_REPO", "/repo")
TRUSTED_BASE = [
    "pydv (the symbolic executor in /verif/pydv that turns the current "
    "source into obligations) and its axioms for Python's built-in types",
    "z3 5.3.2 / z3 4.8.12 / cvc5 1.4.2 as decision procedures",
    "CPython's ast module"]


GENERAL = [
    "Python integers are mathematical integers; equality, hashing and "
    "ordering of user objects are deterministic, free of side effects, and "
    "equality (ordering) is an equivalence (a total order) compatible with "
    "hashing",
    "user-supplied mappings and iterables are finite and are not changed by "
    "others during a call",
    "no memory exhaustion or recursion limit",
]


def partial(v, done):
    """Functions with while loops or recursion without a measure."""
    return sorted(v.nomeasure & set(done))


def load(names=None):
    """Import contract modules (all of them by default)."""
    done = []
    for p in sorted(glob.glob(os.path.join(CONTRACTS, "*.py"))):
        n = os.path.basename(p)[:-3]
        if n.startswith("_") or (names and n not in names):
            continue
        importlib.import_module("contracts." + n)
        done.append(n)
    return done


def all_contracts():
    return [c for cs in REG.contracts.values() for c in cs]


def generate(props=None, keys=None, verbose=False):
    """Obligations of the selected contracts and of everything they use."""
    v = Verifier(Source(REPO))
    v.define_funs()
    v.obls, v.vacuity = [], []
    chosen = [c for c in all_contracts()
              if (props and set(c.props) & set(props)) or
              (keys and any(c.key.endswith(k) or c.name.endswith(k)
                            for k in keys))]
    done, trusted = [], []
    byname = {c.name: c for c in all_contracts()}
    queue = list(chosen)
    seen = {c.name for c in queue}
    notes = []
    while queue:
        c = queue.pop(0)
        if c.trusted:
            trusted.append(c.name)
            continue
        v.used_contracts = set()
        t0 = time.time()
        n0 = len(v.obls)
        v.verify_function(c)
        done.append(c.name)
        if verbose:
            print("  %-60s %4d obligations %.1fs" % (
                c.name, len(v.obls) - n0, time.time() - t0))
        if not keys:
            for u in sorted(v.used_contracts):
                if u not in seen:
                    seen.add(u)
                    queue.append(byname[u])
    # lemmas, in the order of their declaration
    need = set(v.used_lemmas)
    if keys:
        need |= {k for k in keys if k in REG.lemmas}
    if props:
        need |= {n for n, c in REG.lemmas.items()
                 if set(c.props) & set(props)}
    order = list(REG.lemmas)
    changed = True
    while changed:
        changed = False
        for n in list(need):
            for m in lemma_uses(REG.lemmas[n]):
                if m not in need:
                    need.add(m)
                    changed = True
    lem = []
    for n in order:
        if n in need:
            t0, n0 = time.time(), len(v.obls)
            v.verify_lemma(REG.lemmas[n])
            lem.append(n)
            if verbose:
                print("  lemma %-54s %4d obligations %.1fs" % (
                    n, len(v.obls) - n0, time.time() - t0))
    return v, done, lem, trusted


def lemma_uses(c):
    out = set(c.uses)
    if c.body:
        from .engine import pstmts
        for st in pstmts(c.body):
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    if n.func.id in REG.lemmas:
                        out.add(n.func.id)
                    if n.func.id == "use":
                        out.add(n.args[0].value)
                    if n.func.id == "forall_intro" and len(n.args) > 3:
                        for s2 in pstmts(n.args[3].value):
                            for m in ast.walk(s2):
                                if isinstance(m, ast.Call) and isinstance(
                                        m.func, ast.Name) and \
                                        m.func.id in REG.lemmas:
                                    out.add(m.func.id)
    out.discard(c.key)
    return out


def dedupe(obls):
    """Drop literal duplicates (same hypotheses and goal)."""
    import z3
    out, seen = [], set()
    for o in obls:
        k = (o.goal.get_id(), tuple(h.get_id() for h in o.hyps))
        if k in seen:
            continue
        seen.add(k)
        out.append(o)
    return out


def prove(v, timeout=60, jobs=8, budget=None, verbose=False):
    """Discharge; returns list of dicts."""
    import z3
    items = []
    for i, o in enumerate(dedupe(v.obls)):
        d = {"key": "o%d" % i, "fn": o.fn, "name": o.name, "line": o.line,
             "kind": o.kind}
        if z3.is_true(z3.simplify(o.goal)):
            d.update(status="proved", backend="simplifier", seconds=0.0,
                     log=[])
        elif o.kind == "missing" or (
                o.kind == "unsupported" and not o.hyps):
            d.update(status="failed", backend=None, seconds=0.0,
                     log=["no obligation could be generated"])
        else:
            d["smt2"] = solve.to_smt2(o.hyps, o.goal)
        items.append(d)
    todo = [d for d in items if "status" not in d]
    solve.discharge_all(todo, timeout=timeout, jobs=jobs, budget=budget)
    return items


def axioms_alone(v):
    """The axioms used by any obligation, with ground terms over new
    constants (nested once) to instantiate them at."""
    import itertools
    import z3
    ax = solve.with_axioms([f for o in v.obls for f in o.hyps + [o.goal]])[0]
    fs = [d for n, d in sorted(solve.decls(ax).items())
          if d.kind() == z3.Z3_OP_UNINTERPRETED]
    consts, terms = {}, []
    for d in fs:
        for s in [d.range()] + [d.domain(i) for i in range(d.arity())]:
            consts.setdefault(s, [z3.Const("c%d!%s" % (i, s), s)
                                  for i in range(2)])
    pool = {s: list(c) for s, c in consts.items()}
    for level in range(2):
        new = []
        for d in fs:
            for a in itertools.islice(itertools.product(
                    *[pool[d.domain(i)] for i in range(d.arity())]), 12):
                new.append(d(*a))
        for t in new:
            if len(pool[t.sort()]) < 12:
                pool[t.sort()].append(t)
        terms += new
    marks = [z3.Function("mark!%s" % t.sort(), t.sort(), z3.BoolSort())(t)
             for t in terms]
    return solve.to_smt2(ax + marks, z3.BoolVal(False))


def vacuity(v, timeout=2, jobs=8):
    """Every contract's assumptions must not be refutable."""
    import z3
    from concurrent.futures import ThreadPoolExecutor
    groups = {}
    for fn, where, pc in v.vacuity:
        groups.setdefault((fn, where), []).append(pc)
    texts = {}
    for g, pcs in groups.items():
        texts[g] = [solve.to_smt2(pc, z3.BoolVal(False))
                    for pc in (pcs[-3:] + pcs)[:30]]
    if v.obls:
        texts["every obligation", "axioms alone"] = [axioms_alone(v)]
    import tempfile
    wd = tempfile.mkdtemp(prefix="pydv_")
    bad = []

    def go(item):
        i, (g, ts) = item
        if g[1] == "axioms alone" or g[1] == "entry":
            p = os.path.join(wd, "a%d.smt2" % i)
            with open(p, "w") as f:
                f.write(ts[0])
            try:
                for b, to in (("z3", 2), ("cvc5", 3), ("z3b", 4),
                              ("cvc5e", 3)):
                    if g[1] == "entry":
                        to = timeout
                    if solve.run_one(b, p, to)[0] == "unsat":
                        return g
            finally:
                os.unlink(p)
            return None
        for j, t in enumerate(ts):
            p = os.path.join(wd, "v%d_%d.smt2" % (i, j))
            with open(p, "w") as f:
                f.write(t)
            ans, dt, out = solve.run_one("z3", p, timeout)
            os.unlink(p)
            if ans != "unsat":
                return None
        return g
    try:
        with ThreadPoolExecutor(jobs) as ex:
            for r in ex.map(go, enumerate(texts.items())):
                if r is not None:
                    bad.append(r)
    finally:
        os.rmdir(wd)
    return bad, len(texts)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("what", nargs="+", help="properties or function keys")
    ap.add_argument("-t", type=int, default=20)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-d", help="dump failing obligations to directory")
    ap.add_argument("-n", action="store_true", help="generate only")
    ap.add_argument("-m", help="contract modules to load")
    a = ap.parse_args()
    load(a.m.split(",") if a.m else None)
    props = [w for w in a.what if len(w) == 3 and w[0] == "C"]
    keys = [w for w in a.what if w not in props]
    t0 = time.time()
    v, done, lem, trusted = generate(props, keys, verbose=True)
    print("generated %d obligations for %d functions, %d lemmas in %.1fs" % (
        len(v.obls), len(done), len(lem), time.time() - t0))
    for n in sorted(v.notes):
        print("  NOTE", n)
    if a.n:
        return
    t0 = time.time()
    items = prove(v, timeout=a.t)
    nb = {}
    for d in items:
        if d["status"] == "proved":
            nb[d["backend"]] = nb.get(d["backend"], 0) + 1
            if a.v or d["seconds"] > 3:
                print("  ok   %s:%s %s [%s %.1fs]" % (
                    d["fn"], d["line"], d["name"], d["backend"],
                    d["seconds"]))
        else:
            print("  FAIL %s %s:%s %s (%s)" % (
                d["key"], d["fn"], d["line"], d["name"],
                "; ".join(x[:60] for x in d["log"])))
        if d["status"] != "proved" or d["seconds"] > 3:
            if a.d and "smt2" in d:
                os.makedirs(a.d, exist_ok=True)
                with open(os.path.join(a.d, d["key"] + ".smt2"), "w") as f:
                    f.write(d["smt2"])
    print("%d/%d proved %s in %.1fs" % (
        sum(d["status"] == "proved" for d in items), len(items), nb,
        time.time() - t0))
    t0 = time.time()
    bad, n = vacuity(v)
    print("vacuity: %d groups, refuted %s (%.1fs)" % (n, bad,
                                                      time.time() - t0))


if __name__ == "__main__":
    main()
