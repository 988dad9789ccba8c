"""Run-time side of the contracts: each driver calls the real functions in
/repo on enumerated and seeded inputs and evaluates the executable form of the
property's contract on what they return.  It is used (a) as the bounded
cross-check of the deductive engine and (b) to search for a concrete failing
input when an obligation is no longer discharged."""

import os
import random
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
DRIVERS = {}          # property id -> list of (name, fn, functions, bound)


class Violation(Exception):
    def __init__(self, driver, case, inp, detail):
        Exception.__init__(self, detail)
        self.driver, self.case, self.inp, self.detail = \
            driver, case, inp, detail


class Bad(Exception):
    """The contract does not hold of the observed behaviour."""


class Hang(BaseException):
    pass


def expect(cond, *msg):
    if not cond:
        raise Bad(" ".join(m if isinstance(m, str) else repr(m) for m in msg))


def driver(prop, functions, bound):
    def deco(fn):
        DRIVERS.setdefault(prop, []).append((fn.__name__, fn, functions,
                                             bound))
        return fn
    return deco


def _alarm(signum, frame):
    raise Hang()


class Ctx:
    def __init__(self, name, seed, tier, budget):
        self.name = name
        self.tier = tier
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%s" % (name, seed))
        self.t0 = time.time()
        self.budget = budget
        self.evaluations = 0
        self.distinct = set()
        self.trivial = 0
        self.samples = []
        self.case_timeout = 20

    def more(self, frac=1.0):
        """True while this driver's time for random inputs (a fraction of it)
        lasts; the rest of the budget is left to the enumerated ones."""
        return time.time() - self.t0 < self.budget * frac * (
            1 if self.thorough else .5)

    def times(self, quick, thorough):
        """Number of random inputs of the tier."""
        return 4 * thorough if self.thorough else 6 * quick

    def run(self, case, inp, fn, trivial=False, show=None):
        """Evaluate fn (which calls the code and checks the contract)."""
        r = show if show is not None else repr(inp)
        self.evaluations += 1
        if trivial:
            self.trivial += 1
        elif len(self.distinct) < 2000000:
            self.distinct.add(hash((case, r)))
        if len(self.samples) < 4 and not trivial and \
                self.evaluations % 7 == 3:
            self.samples.append("%s: %s" % (case, r[:300]))
        signal.setitimer(signal.ITIMER_REAL, self.case_timeout)
        try:
            fn()
        except Bad as e:
            raise Violation(self.name, case, r, str(e))
        except Hang:
            raise Violation(self.name, case, r, "no result within %d s "
                            "(normally milliseconds)" % self.case_timeout)
        except Violation:
            raise
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            tb = traceback.format_exc(limit=-4)
            raise Violation(self.name, case, r, "unexpected %s: %s\n%s" % (
                type(e).__name__, e, tb))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)


def setup():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.setrecursionlimit(6000)
    signal.signal(signal.SIGALRM, _alarm)


def run_driver(entry, seed, tier, budget):
    """Run one driver; returns a plain dict (also used across processes)."""
    name, fn, functions, bound = entry
    setup()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    ctx = Ctx(name, seed, tier, budget)
    out = {"driver": name, "functions": functions, "bound": bound,
           "violation": None}
    try:
        fn(ctx)
    except Violation as v:
        out["violation"] = {"driver": v.driver, "case": v.case,
                            "input": v.inp, "detail": v.detail}
    except (ImportError, AttributeError, SyntaxError) as e:
        # the code under test cannot even be imported / lacks the public name
        out["violation"] = {"driver": name, "case": "import", "input": "-",
                            "detail": "%s: %s\n%s" % (
                                type(e).__name__, e,
                                traceback.format_exc(limit=-3))}
    out.update(evaluations=ctx.evaluations, distinct=len(ctx.distinct),
               trivial=ctx.trivial, samples=ctx.samples,
               wall=time.time() - ctx.t0)
    return out


# ---------------------------------------------------------------- inputs

PALETTES = [
    lambda i: i,
    lambda i: "abcdefghijklmnopqrstuvwxyz"[i % 26] * (1 + i // 26),
    lambda i: (i, -i),
    lambda i: [0, "", None, (), frozenset(), "x", 2.5, -1][i] if i < 8
    else ("t", i),
    lambda i: 7 * i % 1009 - 3,
]
# palettes whose members are mutually comparable
ORDERED = [PALETTES[0], PALETTES[1], PALETTES[2], PALETTES[4]]


def relabel(G, f):
    return {f(v): [f(w) for w in G[v]] for v in G}


def shuffled(rng, G):
    """Same graph, different iteration orders."""
    vs = list(G)
    rng.shuffle(vs)
    out = {}
    for v in vs:
        L = list(G[v])
        rng.shuffle(L)
        out[v] = L
    return out


def as_type(G, t):
    if t is dict:
        return {v: {w: True for w in G[v]} for v in G}
    return {v: t(G[v]) for v in G}


def all_digraphs(n, loops=True):
    pairs = [(i, j) for i in range(n) for j in range(n)
             if loops or i != j]
    for bits in range(1 << len(pairs)):
        G = {i: [] for i in range(n)}
        for k, (i, j) in enumerate(pairs):
            if bits >> k & 1:
                G[i].append(j)
        yield G


def all_graphs(n):
    pairs = [(i, j) for j in range(n) for i in range(j)]
    for bits in range(1 << len(pairs)):
        yield graph_from_bits(n, pairs, bits)


def graph_from_bits(n, pairs, bits):
    G = {i: [] for i in range(n)}
    for k, (i, j) in enumerate(pairs):
        if bits >> k & 1:
            G[i].append(j)
            G[j].append(i)
    return G


def random_graph(rng, n, p=None):
    if p is None:
        p = rng.choice([0.1, 0.2, 0.3, 0.5, 0.7, 0.9])
    G = {i: [] for i in range(n)}
    for j in range(n):
        for i in range(j):
            if rng.random() < p:
                G[i].append(j)
                G[j].append(i)
    return G


def random_digraph(rng, n, p=None, loops=True):
    if p is None:
        p = rng.choice([0.05, 0.1, 0.2, 0.3, 0.5])
    return {i: [j for j in range(n) if (loops or i != j) and
                rng.random() < p] for i in range(n)}


def random_dag(rng, n, p=None):
    if p is None:
        p = rng.choice([0.1, 0.2, 0.3, 0.5])
    perm = list(range(n))
    rng.shuffle(perm)
    G = {i: [] for i in range(n)}
    for a in range(n):
        for b in range(a + 1, n):
            if rng.random() < p:
                G[perm[a]].append(perm[b])
    return shuffled(rng, G)


# ---------------------------------------------------------------- oracles

def reach_from(G, s):
    seen = {s}
    todo = [s]
    while todo:
        v = todo.pop()
        for w in G[v]:
            if w not in seen:
                seen.add(w)
                todo.append(w)
    return seen


def distances(G, s):
    d = {s: 0}
    level = [s]
    while level:
        nxt = []
        for v in level:
            for w in G[v]:
                if w not in d:
                    d[w] = d[v] + 1
                    nxt.append(w)
        level = nxt
    return d


def has_cycle(G):
    return any(v in reach_from(G, w) for v in G for w in G[v])


def components(G):
    out = []
    seen = set()
    for v in G:
        if v not in seen:
            c = reach_from(G, v)
            seen |= c
            out.append(c)
    return out


def edges_of(G):
    return {frozenset((v, w)) for v in G for w in G[v]}


def sym(G):
    return all(v in G[w] for v in G for w in G[v])
