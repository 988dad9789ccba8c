"""Graph algorithms: C10-C25."""
import itertools

from .core import (driver, expect, Bad, PALETTES, ORDERED, relabel, shuffled,
                   as_type, all_digraphs, all_graphs, random_graph,
                   random_digraph, random_dag, reach_from, distances,
                   has_cycle, components, edges_of)


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


def digraphs(ctx, small=3, count=1500, maxn=9, loops=True, frac=1.0,
             palettes=PALETTES):
    """Exhaustive small digraphs, then seeded random ones, in several vertex
    labellings, iteration orders and adjacency types."""
    for n in range(0, small + 1):
        for G in all_digraphs(n, loops):
            yield G
            if n <= 2:
                for f in palettes[1:]:
                    yield as_type(relabel(G, f), set)
    k = 0
    while k < count * ctx.times(1, 8) and ctx.more(frac):
        k += 1
        rng = ctx.rng
        n = rng.randrange(2, maxn + 1)
        G = random_digraph(rng, n, None, loops)
        G = shuffled(rng, relabel(G, rng.choice(palettes)))
        yield as_type(G, rng.choice([list, set, tuple, dict, frozenset]))


def graphs(ctx, small=4, count=1500, maxn=10, frac=1.0, palettes=PALETTES,
           types=(list, set, tuple, dict)):
    for n in range(0, small + 1):
        for G in all_graphs(n):
            yield as_type(G, types[0])
            if n <= 3:
                for f in palettes[1:]:
                    yield as_type(relabel(G, f), types[-1])
    k = 0
    while k < count * ctx.times(1, 8) and ctx.more(frac):
        k += 1
        rng = ctx.rng
        n = rng.randrange(2, maxn + 1)
        G = random_graph(rng, n)
        if rng.random() < .3:       # glue blocks at cut vertices
            G = glued(rng, rng.randrange(2, 5))
        G = shuffled(rng, relabel(G, rng.choice(palettes)))
        yield as_type(G, rng.choice(types))


def glued(rng, blocks):
    """Union of small blocks sharing single vertices (or disjoint)."""
    G = {0: []}
    for _ in range(blocks):
        k = rng.randrange(1, 5)
        base = len(G)
        vs = [rng.choice(list(G))] if rng.random() < .85 else []
        vs += list(range(base, base + k))
        for v in vs:
            G.setdefault(v, [])
        kind = rng.randrange(3)
        E = []
        if kind == 0 or len(vs) < 3:
            E = [(vs[i], vs[i + 1]) for i in range(len(vs) - 1)]
        elif kind == 1:
            E = [(vs[i], vs[(i + 1) % len(vs)]) for i in range(len(vs))]
        else:
            E = [(a, b) for i, a in enumerate(vs) for b in vs[:i]]
        for a, b in E:
            if a != b and b not in G[a]:
                G[a].append(b)
                G[b].append(a)
    return G


# ------------------------------------------------------------------ C10
def _util_check(G, V, rng):
    from pads import graphs as g
    from pads.util import arbitrary_item, map_to_constant
    snap = {v: list(G[v]) for v in G}
    und = all(v not in G[v] for v in G) and \
        all(v in G[w] for v in G for w in G[v])
    expect(g.is_undirected(G) == und, "is_undirected is %r" %
           g.is_undirected(G))
    if G:
        expect(g.max_degree(G) == max(len(G[v]) for v in G), "max_degree")
        expect(g.min_degree(G) == min(len(G[v]) for v in G), "min_degree")
    for t in (set, list, tuple, frozenset):
        H = g.copy_graph(G, t)
        expect(set(H) == set(G), "copy_graph vertices")
        for v in G:
            expect(type(H[v]) is t, "copy_graph adjacency type")
            expect(sorted(map(repr, H[v])) == sorted(map(repr, t(G[v]))),
                   "copy_graph neighbours of %r" % (v,))
    H = g.copy_graph(G, map_to_constant(7))
    expect(H == {v: {w: 7 for w in G[v]} for v in G}, "map_to_constant copy")
    H = g.copy_graph(G)
    for v in G:
        expect(H[v] is not G[v], "copy_graph shares an adjacency set")
        H[v].add("extra")
    expect({v: list(G[v]) for v in G} == snap, "copy_graph aliases input")
    for VV in (V, set(V), tuple(V), dict.fromkeys(V)):
        H = g.induced_subgraph(VV, G)
        expect(H == {v: {w for w in G[v] if w in set(V)}
                     for v in G if v in set(V)}, "induced_subgraph is %r"
               % (H,))
        ind = not any(v in set(V) and w in set(V) for v in G for w in G[v])
        expect(g.is_independent_set(VV, G) == ind, "is_independent_set")
    for v in G:
        if G[v]:
            expect(arbitrary_item(G[v]) in list(G[v]), "arbitrary_item")
        else:
            expect(raises(IndexError, lambda: arbitrary_item(G[v])),
                   "arbitrary_item of empty")
    expect({v: list(G[v]) for v in G} == snap, "input modified")


@driver("C10", ["graphs.is_undirected", "graphs.max_degree",
                "graphs.min_degree", "graphs.copy_graph",
                "graphs.induced_subgraph", "graphs.union",
                "graphs.is_independent_set", "util.arbitrary_item",
                "util.map_to_constant"],
        "all digraphs on <=3 vertices with every vertex subset for n<=2,"
        " seeded digraphs on <=9 vertices")
def graph_utilities(ctx):
    from pads import graphs as g
    last = {}
    for G in itertools.chain(digraphs(ctx, 3, 1200, frac=.6),
                             graphs(ctx, 3, 300)):
        vs = list(G)
        if len(vs) <= 2:
            subs = [[v for i, v in enumerate(vs) if m >> i & 1] + ["zz"]
                    for m in range(1 << len(vs))]
        else:
            subs = [[v for v in vs if ctx.rng.random() < q]
                    for q in (.3, .7)] + [[ctx.rng.choice(vs)] for _ in
                                          range(2)]
            # genuinely independent sets, often
            I = []
            for v in vs:
                if v not in G[v] and not any(v in G[u] or u in G[v]
                                             for u in I):
                    I.append(v)
            subs.append(I)
        for V in subs:
            ctx.run("graph utilities", (G, V),
                    lambda: _util_check(G, V, ctx.rng))
        H = last
        last = G

        def un():
            Gs = [G, H, {v: [] for v in list(G)[:1]}]
            snap = repr(Gs)
            out = g.union(*Gs)
            want = {}
            for X in Gs:
                for v in X:
                    want.setdefault(v, set()).update(X[v])
            expect(out == want, "union is %r, expected %r" % (out, want))
            for v in out:
                out[v].add("extra")
            expect(repr(Gs) == snap, "union modifies or aliases an argument")
            expect(g.union() == {}, "empty union")
        ctx.run("union", (G, H), un)


# ------------------------------------------------------------------ C11
def _dfs_events(G, root, have_root):
    from pads import dfs
    ev = list(dfs.search(G, root)) if have_root else list(dfs.search(G))
    visited, stack, roots, closed = [], [], [], []
    seen = set()
    used = {}       # v -> list of explored neighbours in order
    for k, (v, w, t) in enumerate(ev):
        ctx = "event %d %r" % (k, (v, w, t))
        expect(t in (dfs.forward, dfs.reverse, dfs.nontree), ctx, "type")
        if t == dfs.forward:
            expect(w not in seen, ctx, "vertex discovered twice")
            if not stack:
                expect(v == w, ctx, "first event of a tree is not (r,r)")
                roots.append(v)
            else:
                expect(v == stack[-1], ctx, "source is not the current"
                       " vertex")
                expect(w in list(G[v]), ctx, "not an edge")
                used[v].append(w)
            seen.add(w)
            visited.append(w)
            stack.append(w)
            used[w] = []
        elif t == dfs.nontree:
            expect(stack and v == stack[-1], ctx, "source is not current")
            expect(w in seen, ctx, "non-tree edge to an undiscovered vertex")
            used[v].append(w)
        else:
            expect(stack and w == stack[-1], ctx, "reverse event does not"
                   " close the current vertex")
            stack.pop()
            expect(v == (stack[-1] if stack else w), ctx,
                   "reverse event names the wrong parent")
            expect(sorted(map(repr, used[w])) == sorted(map(repr, G[w])),
                   ctx, "vertex closed having explored %r of %r" %
                   (used[w], list(G[w])))
            closed.append(w)
    expect(not stack, "search ended with open vertices")
    if have_root:
        want = reach_from(G, root)
        expect(roots == [root], "roots are %r" % roots)
    else:
        want = set(G)
    expect(seen == want, "visited %r, expected %r" % (seen, want))
    a = (root,) if have_root else ()
    pre = list(dfs.preorder(G, *a))
    post = list(dfs.postorder(G, *a))
    expect(pre == visited, "preorder is not the discovery order")
    expect(post == closed, "postorder is not the closing order")
    if have_root:
        for w in list(G):
            expect(bool(dfs.reachable(G, root, w)) == (w in want),
                   "reachable(%r,%r)" % (root, w))
    else:
        log = []

        class S(dfs.Searcher):
            def preorder(self, p, c):
                log.append((p, c, dfs.forward))

            def postorder(self, p, c):
                log.append((p, c, dfs.reverse))

            def backedge(self, p, c):
                log.append((p, c, dfs.nontree))
        S(G)
        expect(log == ev, "Searcher callbacks differ from the events")
        dfs.Searcher(G)


@driver("C11", ["dfs.search", "dfs.preorder", "dfs.postorder",
                "dfs.reachable", "dfs.Searcher.__init__"],
        "all digraphs on <=3 vertices (with loops), seeded digraphs on <=9"
        " vertices (8x thorough), every start vertex; a path of 3000")
def dfs_events(ctx):
    for G in digraphs(ctx, 3, 1500):
        ctx.run("search(G)", G, lambda: _dfs_events(G, None, False),
                trivial=not G)
        for r in G:
            ctx.run("search(G,v)", (G, r), lambda: _dfs_events(G, r, True))

    def deep():
        from pads import dfs
        n = 3000
        G = {i: [i + 1] for i in range(n)}
        G[n] = [0]
        expect(list(dfs.preorder(G, 0)) == list(range(n + 1)), "path")
        expect(list(dfs.postorder(G)) == list(range(n, -1, -1)), "path")
    ctx.run("long path", 3000, deep)


# ------------------------------------------------------------------ C12
def _bfs_check(G, r):
    from pads.bfs import breadth_first_levels
    d = distances(G, r)
    L = list(breadth_first_levels(G, r))
    top = max(d.values())
    expect(len(L) == top + 1, "%d levels, expected %d" % (len(L), top + 1))
    for i, lev in enumerate(L):
        expect(set(lev) == {v for v in d if d[v] == i},
               "level %d is %r" % (i, set(lev)))
        for v in lev:
            expect(set(lev[v]) == {w for w in G[v] if d[w] == i + 1},
                   "edges of %r on level %d are %r" % (v, i, lev[v]))


@driver("C12", ["bfs.breadth_first_levels"],
        "all digraphs on <=3 vertices with every root, seeded digraphs on"
        " <=9 vertices and long paths/cycles")
def bfs_levels(ctx):
    for G in digraphs(ctx, 3, 1500):
        for r in G:
            ctx.run("levels", (G, r), lambda: _bfs_check(G, r))
    for n in (20, 50):
        G = {i: [(i + 1) % n, (i - 1) % n] for i in range(n)}
        ctx.run("cycle", n, lambda: _bfs_check(G, 3))


# ------------------------------------------------------------------ C13
def _topo_ok(G, L):
    return sorted(map(repr, L)) == sorted(map(repr, G)) and len(L) == len(G) \
        and all(L.index(v) < L.index(w) for v in G for w in G[v])


def _topo_check(G):
    from pads import partial_order as po
    cyc = has_cycle(G)
    expect(bool(po.isAcyclic(G)) == (not cyc), "isAcyclic is %r" %
           po.isAcyclic(G))
    if cyc:
        expect(raises(ValueError, lambda: po.TopologicalOrder(G)),
               "no ValueError for a cyclic graph")
    else:
        L = po.TopologicalOrder(G)
        expect(_topo_ok(G, L), "%r is not a topological order" % (L,))
        expect(po.isTopologicalOrder(G, L), "own order rejected")


def _istopo_check(G, L):
    from pads import partial_order as po
    expect(bool(po.isTopologicalOrder(G, L)) == _topo_ok(G, L),
           "isTopologicalOrder(G,%r) is %r" % (L, po.isTopologicalOrder(
               G, L)))


@driver("C13", ["partial_order.isTopologicalOrder",
                "partial_order.TopologicalOrder", "partial_order.isAcyclic"],
        "all digraphs on <=3 vertices against all vertex sequences of length"
        " <=3, seeded digraphs and DAGs on <=9 vertices")
def topological(ctx):
    rng = ctx.rng
    for G in digraphs(ctx, 3, 900, frac=.5):
        ctx.run("topological order", G, lambda: _topo_check(G))
    for n in range(0, 4):
        for G in all_digraphs(n, n < 3):
            for k in range(0, 4):
                for L in itertools.product(range(n + (n < 3)), repeat=k):
                    L = list(L)
                    ctx.run("isTopologicalOrder", (G, L),
                            lambda: _istopo_check(G, L))
    k = 0
    while ctx.more() and k < ctx.times(2000, 15000):
        k += 1
        G = relabel(random_dag(rng, rng.randrange(1, 10)),
                    rng.choice(PALETTES))
        ctx.run("topological order", G, lambda: _topo_check(G))
        L = list(G)
        rng.shuffle(L)
        if rng.random() < .6:
            from pads import partial_order as po
            try:
                L = list(po.TopologicalOrder(G))
            except Exception:
                pass
        r = rng.random()
        if r < .3 and L:
            L.insert(rng.randrange(len(L) + 1), rng.choice(L))
        elif r < .45 and L:
            L.pop(rng.randrange(len(L)))
        elif r < .6:
            L.insert(rng.randrange(len(L) + 1), "foreign")
        elif r < .8 and len(L) > 1:
            i = rng.randrange(len(L) - 1)
            L[i], L[i + 1] = L[i + 1], L[i]
        ctx.run("isTopologicalOrder", (G, L), lambda: _istopo_check(G, L))


# ------------------------------------------------------------------ C14
def _closure_check(G):
    from pads import partial_order as po
    TC = po.TransitiveClosure(G)
    expect(set(TC) == set(G), "vertex set of the closure")
    for v in G:
        expect(set(TC[v]) == reach_from(G, v) - {v},
               "TransitiveClosure[%r] is %r" % (v, TC[v]))


def _areach_check(G):
    from pads.acyclic_reachability import Reachability
    R = Reachability(G)
    for v in G:
        rv = reach_from(G, v)
        for w in G:
            expect(R.reachable(v, w) == (w in rv), "reachable(%r,%r) is %r"
                   % (v, w, R.reachable(v, w)))


@driver("C14", ["partial_order.TransitiveClosure",
                "acyclic_reachability.Reachability.__init__",
                "acyclic_reachability.Reachability.reachable"],
        "all digraphs on <=3 vertices, seeded digraphs on <=9 and DAGs on"
        " <=14 vertices (70-vertex DAGs for word-size independence)")
def closure(ctx):
    from pads.acyclic_reachability import Reachability
    rng = ctx.rng
    for G in digraphs(ctx, 3, 900, frac=.5):
        ctx.run("TransitiveClosure", G, lambda: _closure_check(G))
        if has_cycle(G):
            ctx.run("Reachability(cyclic)", G, lambda: expect(
                raises(ValueError, lambda: Reachability(G)),
                "cyclic graph accepted"))
        else:
            ctx.run("Reachability", G, lambda: _areach_check(G))
    k = 0
    while ctx.more() and k < ctx.times(900, 8000):
        k += 1
        n = 70 if k % 300 == 1 else rng.randrange(1, 15)
        G = relabel(random_dag(rng, n, .03 if n == 70 else None),
                    rng.choice(PALETTES))
        ctx.run("Reachability", G, lambda: _areach_check(G))


# ------------------------------------------------------------------ C15
def _bip_match_size(adj):
    """Plain augmenting-path maximum bipartite matching (oracle)."""
    M = {}

    def aug(u, seen):
        for v in adj[u]:
            if v not in seen:
                seen.add(v)
                if v not in M or aug(M[v], seen):
                    M[v] = u
                    return True
        return False
    for u in adj:
        aug(u, set())
    return len(M)


def _decomp_check(G):
    from pads import partial_order as po
    TC = {v: reach_from(G, v) - {v} for v in G}

    def cover(paths, H, what):
        paths = [list(p) for p in paths]
        expect(all(paths), what, "contains an empty path")
        flat = [v for p in paths for v in p]
        expect(sorted(map(repr, flat)) == sorted(map(repr, G)) and
               len(set(flat)) == len(flat), what,
               "does not cover each vertex once:", paths)
        for p in paths:
            for a, b in zip(p, p[1:]):
                expect(b in H[a], what, "has a step", (a, b),
                       "that is not an edge")
        return len(paths)
    k = cover(po.MinimumPathDecomposition(G), G, "path decomposition")
    best = len(G) - _bip_match_size(G)
    expect(k == best, "%d paths, the minimum is %d" % (k, best))
    k = cover(po.MinimumChainDecomposition(G), TC, "chain decomposition")
    width = len(G) - _bip_match_size(TC)
    expect(k == width, "%d chains, the minimum is %d" % (k, width))
    A = set(po.MaximumAntichain(G))
    expect(A <= set(G), "antichain contains foreign vertices")
    expect(not any(b in TC[a] for a in A for b in A),
           "%r is not an antichain" % (A,))
    expect(len(A) == width, "antichain of size %d, maximum is %d" %
           (len(A), width))


@driver("C15", ["partial_order.MinimumPathDecomposition",
                "partial_order.MinimumChainDecomposition",
                "partial_order.MaximumAntichain", "partial_order.TracePaths"],
        "all DAGs on <=4 vertices, seeded DAGs on <=12 vertices")
def decompositions(ctx):
    from pads import partial_order as po
    rng = ctx.rng
    for n in range(0, 5):
        pairs = [(i, j) for j in range(n) for i in range(j)]
        for bits in range(1 << len(pairs)):
            E = [p for k, p in enumerate(pairs) if bits >> k & 1]
            for perm in (list(range(n)), list(range(n))[::-1]):
                G = {perm[i]: [] for i in range(n)}
                for i, j in E:
                    G[perm[i]].append(perm[j])
                ctx.run("decompositions", G, lambda: _decomp_check(G),
                        trivial=n < 2)
                G2 = shuffled(rng, G)
                ctx.run("decompositions", G2, lambda: _decomp_check(G2),
                        trivial=n < 2)
    k = 0
    while ctx.more() and k < ctx.times(1200, 10000):
        k += 1
        G = relabel(random_dag(rng, rng.randrange(2, 13)),
                    rng.choice(PALETTES))
        ctx.run("decompositions", G, lambda: _decomp_check(G))
    for G in ({1: [2], 2: [1]}, {1: [1]}, {1: [2], 2: [3], 3: [1], 4: []}):
        ctx.run("MaximumAntichain(cyclic)", G, lambda: expect(
            raises(ValueError, lambda: po.MaximumAntichain(G)),
            "cyclic graph accepted"))


# ------------------------------------------------------------------ C16
def _scc_check(G):
    from pads.strong_connectivity import StronglyConnectedComponents, \
        Condensation
    R = {v: reach_from(G, v) for v in G}
    cls = {v: frozenset(w for w in R[v] if v in R[w]) for v in G}
    S = StronglyConnectedComponents(G)
    comps = list(S)
    expect(len(S) == len(comps), "len differs from the number listed")
    got = [frozenset(c) for c in comps]
    expect(len(got) == len(set(got)) and set(got) == set(cls.values()),
           "components are %r, expected %r" % (got, set(cls.values())))
    for c in comps:
        for v in c:
            expect(set(c[v]) == {w for w in G[v] if w in c},
                   "component is not the induced subgraph at %r" % (v,))
    C = Condensation(G)
    expect(set(C) == set(cls.values()) and
           all(isinstance(c, frozenset) for c in C), "condensation vertices")
    for c in C:
        want = {cls[w] for v in c for w in G[v] if cls[w] != c}
        expect(set(C[c]) == want, "condensation edges of %r are %r,"
               " expected %r" % (c, C[c], want))


@driver("C16", ["strong_connectivity.StronglyConnectedComponents",
                "strong_connectivity.Condensation"],
        "all digraphs on <=3 vertices (4 without loops thorough), seeded"
        " digraphs on <=12 vertices")
def scc(ctx):
    for G in digraphs(ctx, 3, 2500, 12, frac=.6):
        ctx.run("SCC", G, lambda: _scc_check(G))
    if ctx.thorough:
        for G in all_digraphs(4, False):
            ctx.run("SCC", G, lambda: _scc_check(G))


# ------------------------------------------------------------------ C17
def _sat_check(G):
    from pads._not import Not, SymbolicNegation
    from pads import two_satisfiability as ts

    def var(x):
        return (Not(x), False) if isinstance(x, SymbolicNegation) \
            else (x, True)
    vs = []
    for v in G:
        for x in [v] + list(G[v]):
            if var(x)[0] not in vs:
                vs.append(var(x)[0])
    sats = []
    for bits in itertools.product([False, True], repeat=len(vs)):
        a = dict(zip(vs, bits))

        def val(x):
            y, s = var(x)
            return a[y] == s
        if all((not val(v)) or val(w) for v in G for w in G[v]):
            sats.append(a)
    expect(bool(ts.Satisfiable(G)) == bool(sats), "Satisfiable is %r with"
           " %d solutions" % (ts.Satisfiable(G), len(sats)))
    F = ts.Forced(G)
    if not sats:
        expect(F is None, "Forced is %r for an unsatisfiable instance" %
               (F,))
    else:
        want = {v: sats[0][v] for v in vs
                if len({a[v] for a in sats}) == 1}
        expect(F is not None and dict(F) == want and
               all(isinstance(F[v], bool) for v in F),
               "Forced is %r, expected %r" % (F, want))
    H = ts.Symmetrize(G)
    imp = {(v, w) for v in G for w in G[v]}
    imp |= {(Not(w), Not(v)) for v, w in imp}
    expect({(v, w) for v in H for w in H[v]} == imp,
           "Symmetrize gives other implications")
    expect(set(H) == {x for v in vs for x in (v, Not(v))},
           "Symmetrize vertex set")


@driver("C17", ["two_satisfiability.Symmetrize",
                "two_satisfiability.Satisfiable",
                "two_satisfiability.Forced"],
        "all instances of <=3 implications over 2 variables (4 thorough),"
        " seeded instances over <=6 variables against truth tables")
def twosat(ctx):
    from pads._not import Not
    lits = [1, 2, Not(1), Not(2)]
    pairs = [(a, b) for a in lits for b in lits]
    for n in range(0, 5 if ctx.thorough else 4):
        for E in itertools.combinations(pairs, n):
            G = {}
            for a, b in E:
                G.setdefault(a, []).append(b)
            ctx.run("2SAT", G, lambda: _sat_check(G), trivial=not E,
                    show=repr(G))
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(2000, 15000):
        k += 1
        n = rng.randrange(1, 7)
        f = rng.choice(PALETTES)
        G = {}
        for _ in range(rng.randrange(1, 3 * n + 2)):
            a, b = [rng.choice([f(i), Not(f(i))])
                    for i in (rng.randrange(n), rng.randrange(n))]
            G.setdefault(a, [])
            if b not in G[a]:
                G[a].append(b)
        if rng.random() < .3:
            G.setdefault(f(n), [])
        ctx.run("2SAT", G, lambda: _sat_check(G))


# ------------------------------------------------------------------ C18
def _bipartite_oracle(G):
    """Is G (undirected) bipartite?  by closed-walk parity"""
    for v in G:
        seen = {(v, 0)}
        todo = [(v, 0)]
        while todo:
            x, p = todo.pop()
            for y in G[x]:
                if (y, 1 - p) not in seen:
                    seen.add((y, 1 - p))
                    todo.append((y, 1 - p))
        if (v, 1) in seen:
            return False
    return True


def _two_color_check(G):
    from pads import bipartite as b
    snap = repr(G)
    ok = _bipartite_oracle(G)
    expect(bool(b.is_bipartite(G)) == ok, "is_bipartite is %r" %
           b.is_bipartite(G))
    if not ok:
        expect(raises(b.NonBipartite, lambda: b.two_color(G)),
               "two_color accepts a non-bipartite graph")
        expect(raises(b.NonBipartite, lambda: list(b.bipartition(G))),
               "bipartition accepts a non-bipartite graph")
        expect(raises(b.NonBipartite, lambda: b.bipartite_orientation(G)),
               "bipartite_orientation accepts a non-bipartite graph")
    else:
        c = b.two_color(G)
        expect(set(c) == set(G), "two_color colours %r" % (set(c),))
        expect(all(type(c[v]) is bool for v in c), "colours are not"
               " True/False")
        expect(all(c[v] != c[w] for v in G for w in G[v]),
               "%r is not proper" % (c,))
        S = list(b.bipartition(G))
        expect(len(S) == len(set(S)) and set(S) <= set(G), "bipartition")
        S = set(S)
        expect(all((v in S) != (w in S) for v in G for w in G[v]),
               "bipartition side %r has an inner edge" % (S,))
        for t in (set, list):
            O = b.bipartite_orientation(G, t)
            expect(all(type(O[v]) is t for v in O), "adjacency type")
            E = [(v, w) for v in O for w in O[v]]
            expect({frozenset(e) for e in E} == edges_of(G) and
                   len(E) == len(edges_of(G)), "orientation edges %r" % (E,))
            expect(not ({v for v, w in E} & {w for v, w in E}) and
                   all(w not in O for v, w in E),
                   "orientation is not from one side to the other")
    expect(repr(G) == snap, "input modified")


@driver("C18", ["bipartite.two_color", "bipartite.bipartition",
                "bipartite.is_bipartite", "bipartite.bipartite_orientation"],
        "all graphs on <=4 vertices (5 thorough), seeded graphs on <=10"
        " vertices, seeded bipartite graphs and odd cycles")
def two_colour(ctx):
    for G in graphs(ctx, 5 if ctx.thorough else 4, 1200, frac=.5):
        ctx.run("two_color", G, lambda: _two_color_check(G))
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(1200, 10000):
        k += 1
        n = rng.randrange(2, 14)
        side = [rng.random() < .5 for _ in range(n)]
        G = {i: [] for i in range(n)}
        p = rng.choice([.1, .3, .6])
        for i in range(n):
            for j in range(i):
                if side[i] != side[j] and rng.random() < p:
                    G[i].append(j)
                    G[j].append(i)
        if rng.random() < .3:
            i, j = rng.sample(range(n), 2)
            if j not in G[i]:
                G[i].append(j)
                G[j].append(i)
        G = shuffled(rng, relabel(G, rng.choice(PALETTES)))
        ctx.run("two_color", G, lambda: _two_color_check(G))


def _blocks(G):
    """Biconnected components by definition: classes of edges lying on a
    common simple cycle.  e~f iff they lie on a common cycle."""
    E = [tuple(e) for e in edges_of(G)]
    par = {frozenset(e): frozenset(e) for e in E}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    # two edges at a common vertex v are in the same block iff their other
    # ends are connected in G - v (or equal)
    for v in G:
        seen = {}
        for w in G[v]:
            if w in seen:
                continue
            todo = [w]
            seen[w] = w
            while todo:
                x = todo.pop()
                for y in G[x]:
                    if y != v and y not in seen:
                        seen[y] = w
                        todo.append(y)
        for w in G[v]:
            a, b = find(frozenset((v, w))), find(frozenset((v, seen[w])))
            par[a] = b
    blocks = {}
    for e in E:
        blocks.setdefault(find(frozenset(e)), set()).add(frozenset(e))
    return {frozenset(b) for b in blocks.values()}


def _odd_core_check(G):
    from pads.bipartite import odd_core
    want = set()
    for B in _blocks(G):
        H = {}
        for e in B:
            a, b = tuple(e)
            H.setdefault(a, []).append(b)
            H.setdefault(b, []).append(a)
        if not _bipartite_oracle(H):
            want |= B
    C = odd_core(G)
    expect(edges_of(C) == want, "odd_core edges %r, expected %r" %
           (edges_of(C), want))
    expect(set(C) == {v for e in want for v in e}, "odd_core vertices")
    expect(all(v in C[w] for v in C for w in C[v]), "odd_core not symmetric")


@driver("C18", ["bipartite.odd_core"],
        "all graphs on <=4 vertices (5 thorough), seeded graphs on <=10"
        " vertices")
def odd_core(ctx):
    for G in graphs(ctx, 5 if ctx.thorough else 4, 1200):
        ctx.run("odd_core", G, lambda: _odd_core_check(G))


# ------------------------------------------------------------------ C19
def _bm_check(G):
    from pads.bipartite_matching import matching
    snap = {u: list(G[u]) for u in G}
    M, A, B = matching(G)
    expect({u: list(G[u]) for u in G} == snap, "input modified")
    V = {v for u in G for v in G[u]}
    for v in M:
        expect(M[v] in G and v in G[M[v]], "matched pair", (M[v], v),
               "is not an edge")
    expect(len(set(M.values())) == len(M), "two edges share a U vertex")
    k = _bip_match_size(G)
    expect(len(M) == k, "matching has %d edges, maximum is %d" % (len(M), k))
    A, B = list(A), list(B)
    expect(len(set(A)) == len(A) and set(A) <= set(G), "A is", A)
    expect(len(set(B)) == len(B) and set(B) <= V, "B is", B)
    expect(not any(v in set(B) for u in A for v in G[u]),
           "A,B is not independent", A, B)
    expect(len(A) + len(B) == len(G) + len(V) - k,
           "independent set has %d vertices, maximum is %d" %
           (len(A) + len(B), len(G) + len(V) - k))


def bip_graphs(ctx, small, count, maxn=9, frac=1.0, square=False):
    for n in range(0, small + 1):
        for m in range(0, small + 1):
            if square and n != m:
                continue
            for bits in range(1 << (n * m)):
                yield {i: [100 + j for j in range(m)
                           if bits >> (i * m + j) & 1] for i in range(n)}
    rng = ctx.rng
    k = 0
    while ctx.more(frac) and k < count * ctx.times(1, 8):
        k += 1
        n, m = rng.randrange(1, maxn), rng.randrange(1, maxn)
        if square:
            m = n
        p = rng.choice([.1, .2, .3, .5])
        f, g = rng.choice(PALETTES), rng.choice(PALETTES)
        G = {f(i): [g(j) for j in range(m) if rng.random() < p]
             for i in range(n)}
        if square and rng.random() < .8:
            perm = list(range(n))
            rng.shuffle(perm)
            for i in range(n):
                if g(perm[i]) not in G[f(i)]:
                    G[f(i)].append(g(perm[i]))
        if rng.random() < .2:        # shared objects, U == V labels
            G = random_digraph(rng, n)
        G = shuffled(rng, G)
        yield as_type(G, rng.choice([list, set, dict]))


@driver("C19", ["bipartite_matching.matching"],
        "all bipartite graphs with sides <=3, seeded graphs with sides <=9,"
        " and long alternating chains")
def bip_matching(ctx):
    for G in bip_graphs(ctx, 3, 4000):
        ctx.run("matching", G, lambda: _bm_check(G))
    for n in (5, 20, 60):
        G = {i: [i, i + 1] for i in range(n)}
        G[n] = [0]
        ctx.run("chain", G, lambda: _bm_check(G))
        G = {i: [i + 1, i] for i in range(n)}
        G[n] = [0]
        ctx.run("chain", G, lambda: _bm_check(G))


# ------------------------------------------------------------------ C20
def _perfect_matchings(G):
    us = list(G)
    out = []

    def rec(i, used, M):
        if i == len(us):
            out.append(dict(M))
            return
        for v in set(G[us[i]]):
            if v not in used:
                M[us[i]] = v
                rec(i + 1, used | {v}, M)
        M.pop(us[i], None)
    rec(0, frozenset(), {})
    V = {v for u in G for v in G[u]}
    return out if len(V) == len(us) else []


def _imp_check(G):
    from pads.bipartite_matching import imperfections
    snap = repr(G)
    I = imperfections(G)
    expect(repr(G) == snap, "input modified")
    PM = _perfect_matchings(G)
    good = {(u, m[u]) for m in PM for u in m}
    want = {(u, v) for u in G for v in G[u]} - good
    got = {(u, v) for u in I for v in I[u]}
    expect(got == want, "imperfections are %r, expected %r" % (got, want))
    if not PM:
        return
    for u in I:
        for v in I[u]:
            H = I[u][v]
            expect(u not in H, "explaining subgraph contains its source")
            expect(any(v in H[x] for x in H), "explaining subgraph lacks %r"
                   % (v,))
            W = {y for x in H for y in H[x]}
            for x in H:
                expect(set(H[x]) <= set(G[x]), "not a subgraph")
            for m in PM:
                expect({m[x] for x in H} == W, "vertices of the explaining"
                       " subgraph are not matched to each other")


@driver("C20", ["bipartite_matching.imperfections"],
        "all bipartite graphs with sides <=3, seeded ones with sides <=6")
def imperfect(ctx):
    for G in bip_graphs(ctx, 3, 300, 5, frac=.4):
        ctx.run("imperfections", G, lambda: _imp_check(G))
    for G in bip_graphs(ctx, 2, 1500, 7, square=True):
        ctx.run("imperfections", G, lambda: _imp_check(G))


# ------------------------------------------------------------------ C21
def _max_matching_size(G):
    """Exact maximum matching by memoised search (oracle)."""
    vs = list(G)
    idx = {v: i for i, v in enumerate(vs)}
    adj = [sum(1 << idx[w] for w in G[v]) for v in vs]
    memo = {}

    def rec(free):
        if not free:
            return 0
        if free in memo:
            return memo[free]
        i = free.bit_length() - 1
        rest = free & ~(1 << i)
        best = rec(rest)
        nb = adj[i] & rest
        while nb:
            j = nb.bit_length() - 1
            nb &= ~(1 << j)
            best = max(best, 1 + rec(rest & ~(1 << j)))
        memo[free] = best
        return best
    return rec((1 << len(vs)) - 1)


def _valid_matching(G, M, what):
    for v in M:
        expect(v in G and M[v] in G[v], what, "pairs", (v, M[v]),
               "which is not an edge")
        expect(M[v] in M and M[M[v]] == v, what, "is not symmetric at", v)


def _cm_check(G, init):
    from pads.cardinality_matching import matching, greedy_matching
    snap = repr(G)
    gm = greedy_matching(G)
    _valid_matching(G, gm, "greedy_matching")
    for v in G:
        expect(v in gm or all(w in gm for w in G[v]), "greedy_matching"
               " leaves both ends of an edge at", v, "unmatched")
    M = matching(G) if init is None else matching(G, dict(init))
    expect(repr(G) == snap, "input modified")
    _valid_matching(G, M, "matching")
    k = _max_matching_size(G)
    expect(len(M) == 2 * k, "matching has %d edges, maximum is %d" %
           (len(M) // 2, k))
    if init is not None:
        g2 = greedy_matching(G, init)
        _valid_matching(G, g2, "greedy_matching")
        for v in G:
            expect(v in g2 or all(w in g2 for w in G[v]), "greedy_matching"
                   " leaves both ends of an edge at", v, "unmatched")
        expect(all(v in g2 for v in init), "greedy_matching unmatches a"
               " vertex of the initial matching")
        before = dict(init)
        matching(G, init)
        expect(init == before, "initial matching modified")


@driver("C21", ["cardinality_matching.matching",
                "cardinality_matching.greedy_matching"],
        "all graphs on <=5 vertices, seeded graphs on <=13 vertices with"
        " empty and partial initial matchings, blossom families")
def card_matching(ctx):
    rng = ctx.rng

    def inits(G):
        yield None
        M = {}
        E = [tuple(e) for e in edges_of(G)]
        rng.shuffle(E)
        for a, b in E:
            if a not in M and b not in M and rng.random() < .7:
                M[a] = b
                M[b] = a
        yield M
    for n in range(0, 6):
        for G in all_graphs(n):
            for i in inits(G):
                ctx.run("matching", (G, i), lambda: _cm_check(G, i))
    k = 0
    while ctx.more() and k < ctx.times(2500, 20000):
        k += 1
        n = rng.randrange(4, 14)
        r = rng.random()
        if r < .5:
            G = random_graph(rng, n, rng.choice([.1, .2, .3, .4, .6]))
        elif r < .75:
            G = glued(rng, rng.randrange(2, 6))
        else:                       # near-cubic / cycles with chords
            G = {i: [] for i in range(n)}
            for i in range(n):
                for j in {(i + 1) % n, rng.randrange(n)}:
                    if j != i and j not in G[i]:
                        G[i].append(j)
                        G[j].append(i)
        if len(G) > 15:
            continue
        G = as_type(shuffled(rng, relabel(G, rng.choice(PALETTES))),
                    rng.choice([list, set, dict]))
        for i in inits(G):
            ctx.run("matching", (G, i), lambda: _cm_check(G, i))


# ------------------------------------------------------------------ C22
def _is_bicon(G):
    if not G:
        return None
    vs = list(G)
    if reach_from(G, vs[0]) != set(vs):
        return False
    for c in vs:
        rest = [v for v in vs if v != c]
        if len(rest) > 1:
            H = {v: [w for w in G[v] if w != c] for v in rest}
            if reach_from(H, rest[0]) != set(rest):
                return False
    return True


def _bic_check(G):
    from pads import biconnectivity as b
    snap = repr(G)
    comps = list(b.BiconnectedComponents(G))
    got = [frozenset(edges_of(c)) for c in comps if edges_of(c)]
    want = _blocks(G)
    expect(len(got) == len(set(got)) and set(got) == want,
           "blocks are %r, expected %r" % (got, want))
    for c in comps:
        expect(all(v in c[w] for v in c for w in c[v]), "block not symmetric")
        if edges_of(c):
            expect(set(c) == {v for e in edges_of(c) for v in e},
                   "block has an extra vertex")
    iso = [frozenset(c) for c in comps if not edges_of(c)]
    want = {frozenset([v]) for v in G if not G[v]}
    expect(len(iso) == len(want) and set(iso) == want,
           "isolated components %r, expected %r" % (iso, want))
    bic = _is_bicon(G)
    if bic is not None:
        expect(bool(b.is_biconnected(G)) == bic, "is_biconnected is %r" %
               b.is_biconnected(G))
    if bic and len(G) >= 2:
        O = b.st_orientation(G)
        E = [(v, w) for v in O for w in O[v]]
        expect(set(O) == set(G), "orientation vertex set")
        expect(len(E) == len(edges_of(G)) and
               {frozenset(e) for e in E} == edges_of(G),
               "orientation edges %r" % (E,))
        expect(not has_cycle(O), "orientation has a cycle")
        src = [v for v in G if not any(v in O[w] for w in G)]
        snk = [v for v in G if not O[v]]
        expect(len(src) == 1 and len(snk) == 1, "sources %r, sinks %r" %
               (src, snk))
        expect(snk[0] in O[src[0]], "source %r and sink %r are not adjacent"
               % (src[0], snk[0]))
    elif bic is False:
        expect(raises(b.NotBiconnected, lambda: b.st_orientation(G)),
               "st_orientation accepts a graph that is not biconnected")
    expect(repr(G) == snap, "input modified")


@driver("C22", ["biconnectivity.BiconnectedComponents",
                "biconnectivity.is_biconnected",
                "biconnectivity.st_orientation"],
        "all graphs on <=5 vertices, seeded graphs on <=10 vertices and"
        " glued blocks")
def biconnected(ctx):
    from pads import biconnectivity as b
    for G in graphs(ctx, 5, 2500):
        ctx.run("biconnectivity", G, lambda: _bic_check(G), trivial=not G)
    for G in digraphs(ctx, 2, 50):
        und = all(v not in G[v] for v in G) and \
            all(v in G[w] for v in G for w in G[v])
        if not und:
            def bad():
                expect(raises(ValueError,
                              lambda: b.BiconnectedComponents(G)),
                       "directed graph accepted by BiconnectedComponents")
                expect(not b.is_biconnected(G), "directed graph is"
                       " biconnected")
                expect(raises(ValueError, lambda: b.st_orientation(G)),
                       "directed graph accepted by st_orientation")
            ctx.run("directed input", G, bad)


# ------------------------------------------------------------------ C23
def _chordal_oracle(G):
    H = {v: set(G[v]) for v in G}
    while H:
        for v in H:
            if all(b in H[a] for a in H[v] for b in H[v] if a != b):
                break
        else:
            return False
        for w in H[v]:
            H[w].discard(v)
        del H[v]
    return True


def _chordal_check(G):
    from pads.chordal import perfect_elimination_ordering, is_chordal
    from pads.lex_bfs import lex_bfs
    snap = repr(G)
    ch = _chordal_oracle(G)
    expect(bool(is_chordal(G)) == ch, "is_chordal is %r" % is_chordal(G))
    if ch:
        L = list(perfect_elimination_ordering(G))
        expect(len(L) == len(G) and set(L) == set(G), "ordering %r" % (L,))
        pos = {v: i for i, v in enumerate(L)}
        for v in G:
            later = [w for w in G[v] if pos[w] > pos[v]]
            expect(all(b in G[a] for a in later for b in later if a != b),
                   "later neighbours of %r in %r are not a clique" % (v, L))
    else:
        expect(raises(ValueError, lambda: perfect_elimination_ordering(G)),
               "ordering produced for a graph that is not chordal")
    B = list(lex_bfs(G))
    expect(len(B) == len(G) and set(B) == set(G), "lex_bfs order %r" % (B,))
    n = len(B)
    lab = {v: [] for v in B}
    for i, v in enumerate(B):
        for w in B[i:]:
            expect(lab[v] >= lab[w], "lex_bfs picks %r before %r" % (v, w))
        for w in set(G[v]):
            lab[w].append(n - i)
    expect(repr(G) == snap, "input modified")


@driver("C23", ["chordal.perfect_elimination_ordering", "chordal.is_chordal",
                "lex_bfs.lex_bfs"],
        "all graphs on <=5 vertices, seeded graphs on <=10 vertices, seeded"
        " chordal graphs (clique trees)")
def chordal(ctx):
    from pads.chordal import is_chordal
    for G in graphs(ctx, 5, 1500, frac=.6):
        ctx.run("chordal", G, lambda: _chordal_check(G))
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(800, 8000):
        k += 1
        n = rng.randrange(2, 12)
        G = {0: []}
        cl = [[0]]
        for i in range(1, n):
            c = rng.choice(cl)
            nb = [x for x in c if rng.random() < .7]
            G[i] = list(nb)
            for x in nb:
                G[x].append(i)
            cl.append(nb + [i])
        if rng.random() < .3:
            i, j = rng.sample(range(n), 2)
            if j in G[i]:
                G[i].remove(j)
                G[j].remove(i)
        G = shuffled(rng, relabel(G, rng.choice(PALETTES)))
        ctx.run("chordal", G, lambda: _chordal_check(G))
    for G in ({1: [2], 2: []}, {1: [1]}):
        ctx.run("directed input", G, lambda: expect(
            raises(ValueError, lambda: is_chordal(G)), "accepted"))


# ------------------------------------------------------------------ C24
def _mst_check(G):
    from pads.minimum_spanning_tree import MinimumSpanningTree
    snap = repr(G)
    T = [tuple(e) for e in MinimumSpanningTree(G)]
    for u, v in T:
        expect(u in G and v in G[u], "tree edge", (u, v), "not in G")
    H = {v: [] for v in G}
    for u, v in T:
        expect(v not in reach_from(H, u), "tree edges contain a cycle", T)
        H[u].append(v)
        H[v].append(u)
    for v in G:
        expect(reach_from(H, v) == reach_from(G, v), "tree does not span the"
               " component of", v)
    # minimality: every non-tree edge is at least as heavy as each edge of
    # the tree path joining its ends
    for u in G:
        for v in G[u]:
            w = G[u][v]
            L = {x: [y for y in H[x] if G[x][y] <= w] for x in G}
            expect(v in reach_from(L, u), "edge", (u, v), "of weight", w,
                   "is lighter than the tree path joining its ends")
    expect(repr(G) == snap, "input modified")


@driver("C24", ["minimum_spanning_tree.MinimumSpanningTree"],
        "all weightings in {1,2,3} of all graphs on <=3 vertices, seeded"
        " weighted graphs on <=10 vertices with ties and mixed labels")
def mst(ctx):
    from pads.minimum_spanning_tree import MinimumSpanningTree
    rng = ctx.rng
    for n in range(0, 5):
        for G in all_graphs(n):
            E = sorted(tuple(sorted(e)) for e in edges_of(G))
            if len(E) > 4:
                wss = [[rng.randrange(1, 4) for _ in E] for _ in range(30)]
            else:
                wss = itertools.product([1, 2, 3], repeat=len(E))
            for ws in wss:
                H = {v: {} for v in G}
                for (a, b), w in zip(E, ws):
                    H[a][b] = H[b][a] = w
                ctx.run("MST", H, lambda: _mst_check(H), trivial=n < 2)
    k = 0
    while ctx.more() and k < ctx.times(1500, 10000):
        k += 1
        G = random_graph(rng, rng.randrange(2, 11))
        G = relabel(G, rng.choice(PALETTES))
        ws = rng.choice([lambda: rng.randrange(3), lambda: rng.random(),
                         lambda: rng.randrange(-5, 100), lambda: 1])
        H = {v: {} for v in G}
        for e in edges_of(G):
            a, b = tuple(e)
            H[a][b] = H[b][a] = ws()
        H = {v: H[v] for v in rng.sample(list(H), len(H))}
        ctx.run("MST", H, lambda: _mst_check(H))
    for G in ({1: {2: 1}, 2: {}}, {1: {2: 1}, 2: {1: 2}}, {1: {1: 1}}):
        ctx.run("bad input", G, lambda: expect(
            raises(ValueError, lambda: MinimumSpanningTree(G)),
            "asymmetric graph accepted"))


# ------------------------------------------------------------------ C25
def _deg_check(G):
    from pads import graphdegeneracy as d
    snap = repr(G)

    def kcore(k):
        S = set(G)
        while True:
            bad = {v for v in S if sum(w in S for w in set(G[v])) < k}
            if not bad:
                return S
            S -= bad
    D = max([k for k in range(len(G) + 1) if kcore(k)], default=0)
    seq = list(d.degeneracySequence(G))
    left = set(G)
    expect(len(seq) == len(G) and {v for v, _ in seq} == left,
           "degeneracySequence lists %r" % (seq,))
    for v, k in seq:
        left.discard(v)
        n = sum(1 for w in G[v] if w in left)
        expect(k == n, "%r has %d later neighbours, not %d" % (v, n, k))
        expect(all(sum(1 for x in G[w] if x in left or x == v) >= k
                   for w in left), "%r is not of minimum degree" % (v,))
    if G:
        expect(d.degeneracy(G) == D, "degeneracy is %r, expected %r" %
               (d.degeneracy(G), D))
        expect(set(d.core(G)) == kcore(D), "deepest core")
        for k in range(0, D + 3):
            c = set(d.core(G, k))
            expect(c == kcore(k), "core(G,%d) is %r, expected %r" %
                   (k, c, kcore(k)))
    O = d.degeneracyOrientation(G)
    expect(set(O) == set(G), "orientation vertices")
    E = [(v, w) for v in O for w in O[v]]
    expect(len(E) == len(edges_of(G)) and
           {frozenset(e) for e in E} == edges_of(G), "orientation edges")
    expect(not has_cycle(O), "orientation has a cycle")
    expect(all(len(O[v]) <= D for v in O), "out-degree above degeneracy")
    T = [frozenset(t) for t in d.triangles(G)]
    want = {frozenset(t) for t in itertools.combinations(list(G), 3)
            if all(b in G[a] for a in t for b in t if a != b)}
    expect(len(T) == len(want) and set(T) == want, "triangles %r, expected"
           " %r" % (T, want))
    expect(repr(G) == snap, "input modified")


@driver("C25", ["graphdegeneracy.degeneracySequence",
                "graphdegeneracy.degeneracy",
                "graphdegeneracy.degeneracyOrientation",
                "graphdegeneracy.core", "graphdegeneracy.triangles"],
        "all graphs on <=5 vertices, seeded graphs on <=12 vertices")
def degeneracy(ctx):
    from pads import graphdegeneracy as d
    for G in graphs(ctx, 5, 2000, 12):
        ctx.run("degeneracy", G, lambda: _deg_check(G), trivial=not G)
    for G in ({1: [2], 2: []}, {1: [1]}):
        ctx.run("directed input", G, lambda: expect(
            raises(TypeError, lambda: list(d.degeneracySequence(G))),
            "accepted"))
