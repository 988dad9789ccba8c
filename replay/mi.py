"""Media, partial cubes, points, special graph classes, formats:
C37-C45 and C48."""
import io
import itertools
import re

from .core import (driver, expect, Bad, PALETTES, ORDERED, relabel, shuffled,
                   as_type, all_graphs, random_graph, distances, components)


def raises(exc, fn, what):
    try:
        fn()
    except exc:
        return
    raise Bad(what)


# ------------------------------------------------------ C37 / C38 helpers
def ham(x, y):
    return bin(x ^ y).count("1")


def cube_sub(S):
    return {v: {w for w in S if ham(v, w) == 1} for v in S}


def isometric(S):
    G = cube_sub(S)
    for v in G:
        d = distances(G, v)
        if any(d.get(w) != ham(v, w) for w in G):
            return False
    return True


def rand_isometric(rng, dim):
    """Random isometric subset: a cube from which vertices are deleted
    while that keeps distances."""
    S = set(range(1 << dim))
    if rng.random() < .3:        # a tree: random walk attachment
        pass
    order = list(S)
    rng.shuffle(order)
    keep = rng.randrange(2, (1 << dim) + 1)
    for v in order:
        if len(S) <= keep:
            break
        if isometric(S - {v}):
            S = S - {v}
    return S


def is_partial_cube(G):
    """Winkler: connected, bipartite and Theta transitive."""
    V = list(G)
    D = {v: distances(G, v) for v in V}
    if not V or any(len(D[v]) != len(V) for v in V):
        return False
    for v in V:
        for w in G[v]:
            if any(D[x][v] == D[x][w] for x in V):
                return False     # odd cycle
    E = [(v, w) for v in V for w in G[v]]

    def theta(e, f):
        (a, b), (c, d) = e, f
        return D[a][c] + D[b][d] != D[a][d] + D[b][c]
    for e in E:
        cls = [f for f in E if theta(e, f)]
        for f in cls:
            if any(not theta(f, g) for g in cls):
                return False
    return True


def _medium_check(S, dim):
    from pads import medium as md
    B = md.BitvectorMedium(S, dim)
    expect(sorted(B) == sorted(S) and len(B) == len(S), "states")
    toks = list(B.tokens())
    expect(sorted(toks) == [(i, b) for i in range(dim)
                            for b in (False, True)], "tokens")
    for s in S:
        for i, b in toks:
            v = (s | 1 << i) if b else (s & ~(1 << i))
            want = v if v in S else s
            expect(B(s, (i, b)) == want and B[s][i, b] == want,
                   "action of %r on %r is %r, expected %r" %
                   ((i, b), s, B(s, (i, b)), want))
            expect(B.reverse((i, b)) == (i, not b), "reverse")
    G = md.StateTransitionGraph(B)
    expect({v: set(G[v]) for v in G} == cube_sub(S), "transition graph")
    for v in G:
        for w in G[v]:
            expect(B(v, G[v][w]) == w, "edge label")
    for M in (md.ExplicitMedium(B), md.LabeledGraphMedium(G)):
        nm = type(M).__name__
        expect(sorted(M) == sorted(S) and len(M) == len(S), nm, "states")
        eff = {t for v in S for t in toks if B(v, t) != v}
        expect(set(M.tokens()) in (set(toks), eff), nm, "tokens")
        for t in M.tokens():
            expect(M.reverse(t) == B.reverse(t), nm, "reverse")
            for v in S:
                expect(M(v, t) == B(v, t) and M[v][t] == B(v, t), nm,
                       "action of %r on %r" % (t, v))
    R = md.RoutingTable(B)
    for v in S:
        for w in S:
            if v != w:
                expect((v, w) in R, "no route from %r to %r" % (v, w))
                expect(ham(B(v, R[v, w]), w) == ham(v, w) - 1, "route from"
                       " %r to %r does not get closer" % (v, w))
    expect(set(R) == {(v, w) for v in S for w in S if v != w}, "routes")
    H = md.HypercubeEmbedding(B)
    expect(set(H) == set(S), "embedding domain")
    for v in S:
        for w in S:
            expect(ham(H[v], H[w]) == ham(v, w), "embedding distance of %r"
                   " and %r" % (v, w))


@driver("C37", ["medium.BitvectorMedium", "medium.ExplicitMedium",
                "medium.LabeledGraphMedium", "medium.StateTransitionGraph",
                "medium.RoutingTable", "medium.HypercubeEmbedding"],
        "all isometric subsets of the 3-cube, seeded isometric subsets of"
        " cubes up to dimension 5")
def media(ctx):
    for bits in range(1, 256):
        S = {v for v in range(8) if bits >> v & 1}
        if isometric(S):
            ctx.run("medium", S, lambda: _medium_check(S, 3))
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(40, 400):
        k += 1
        dim = rng.choice([4, 4, 4, 5])
        S = rand_isometric(rng, dim)
        ctx.run("medium", S, lambda: _medium_check(S, dim))
    from pads.medium import LabeledGraphMedium, MediumError
    for bad in ({0: {1: "a"}, 1: {}},
                {0: {1: "a", 2: "a"}, 1: {0: "b"}, 2: {0: "c"}},
                {0: {1: "a", 2: "a"}, 1: {0: "b"}, 2: {0: "b"}},
                {0: {1: "a", 3: "c"}, 1: {0: "b", 2: "a"}, 2: {1: "c"},
                 3: {0: "d"}},
                {0: {1: "a"}, 1: {0: "b", 2: "a"}, 2: {1: "c"}},
                {0: {1: "b"}, 1: {0: "a", 2: "c"}, 2: {1: "a"}},
                {0: {1: "a"}, 1: {0: "b", 2: "c"}, 2: {1: "b", 3: "a"},
                 3: {2: "c"}}):
        ctx.run("not a medium", bad, lambda: raises(
            MediumError, lambda: LabeledGraphMedium(bad),
            "accepted without MediumError"))


def _pc_check(G, want):
    from pads import partial_cube as pc
    from pads.medium import MediumError
    G0 = {v: list(G[v]) for v in G}
    expect(bool(pc.isPartialCube(G)) == want, "isPartialCube gives %r" %
           (not want))
    if want:
        L = pc.PartialCubeLabeling(G)
        expect(set(L) == set(G), "labeling domain")
        for v in G:
            d = distances(G, v)
            for w in G:
                expect(ham(L[v], L[w]) == d[w], "labels of %r and %r are at"
                       " distance %d, the vertices at %d" %
                       (v, w, ham(L[v], L[w]), d[w]))
        M = pc.MediumForPartialCube(G)
        expect(set(M) == set(G), "medium states")
        for v in G:
            expect({M(v, t) for t in M.tokens()} - {v} == set(G[v]),
                   "medium transitions from %r" % (v,))
    else:
        raises(MediumError, lambda: pc.PartialCubeLabeling(G),
               "PartialCubeLabeling accepts a graph that is no partial cube")
    expect({v: list(G[v]) for v in G} == G0, "input modified")


@driver("C38", ["partial_cube.PartialCubeEdgeLabeling",
                "partial_cube.MediumForPartialCube",
                "partial_cube.PartialCubeLabeling",
                "partial_cube.isPartialCube"],
        "all graphs on 1-5 vertices, all isometric and a third of the other"
        " subgraphs of the 3-cube, seeded graphs and isometric subgraphs of"
        " cubes up to dimension 5 with unorderable vertices")
def partial_cubes(ctx):
    rng = ctx.rng
    for n in range(1, 6):
        for G in all_graphs(n):
            w = is_partial_cube(G)
            if w or rng.random() < .3:
                ctx.run("partial cube", G, lambda: _pc_check(G, w))
    for bits in range(1, 256):
        G = cube_sub({v for v in range(8) if bits >> v & 1})
        w = is_partial_cube(G)
        if w or bits % 3 == 0:
            ctx.run("partial cube", G, lambda: _pc_check(G, w))
    k = 0
    while ctx.more() and k < ctx.times(120, 2000):
        k += 1
        r = rng.random()
        if r < .6:
            G = cube_sub(rand_isometric(rng, rng.choice([3, 4, 4, 5])))
            if r < .15:
                v = rng.choice(list(G))
                G = {x: set(G[x]) - {v} for x in G if x != v}
        elif r < .8:
            n = rng.randrange(2, 16)
            G = {0: set()}
            for i in range(1, n):
                p = rng.randrange(i)
                G[i] = {p}
                G[p].add(i)
            if r < .7:
                a, b = rng.sample(range(n), 2)
                G[a].add(b)
                G[b].add(a)
        else:
            G = random_graph(rng, rng.randrange(4, 9))
        if not G:
            continue
        w = is_partial_cube(G)
        G = relabel(shuffled(rng, G), rng.choice(PALETTES))
        ctx.run("partial cube", G, lambda: _pc_check(G, w))
    for G in ({0: [1], 1: []}, {0: [1, 2], 1: [0], 2: []}):
        def und():
            from pads.partial_cube import isPartialCube
            expect(not isPartialCube(G), "a directed graph is accepted")
        ctx.run("directed graph", G, und)


# ------------------------------------------------------------------ C39
@driver("C39", ["integerpoints.IntegerPointsByDistance"],
        "the points with squared distance < 3600 (20000 thorough)")
def points(ctx):
    from pads.integerpoints import IntegerPointsByDistance
    top = 20000 if ctx.thorough else 3600

    def go():
        r = int(top ** .5) + 1
        want = {(x, y) for x in range(-r, r + 1) for y in range(-r, r + 1)
                if x * x + y * y < top}
        seen = set()
        last = 0
        for x, y in IntegerPointsByDistance():
            d = x * x + y * y
            expect(d >= last, "(%d,%d) after a point at squared distance %d"
                   % (x, y, last))
            last = d
            if d >= top:
                break
            expect((x, y) not in seen, "(%d,%d) twice" % (x, y))
            seen.add((x, y))
            ctx.evaluations += 1
        expect(seen == want, "missing %r" % (sorted(want - seen)[:3],))
    ctx.run("IntegerPointsByDistance", top, go)


# ------------------------------------------------------------------ C40
def rand_halin(rng, n):
    """Random plane tree with no vertex of degree 2, leaves joined."""
    T = {0: [1, 2, 3], 1: [0], 2: [0], 3: [0]}
    while len(T) < n:
        v = rng.choice(list(T))
        k = len(T)
        if len(T[v]) == 1:
            T[v] += [k, k + 1]
            T[k] = [v]
            T[k + 1] = [v]
        else:
            T[v].insert(rng.randrange(len(T[v]) + 1), k)
            T[k] = [v]
    leaves = []

    def walk(v, p):
        if len(T[v]) == 1 and p is not None:
            leaves.append(v)
            return
        i = T[v].index(p) if p is not None else 0
        for w in T[v][i:] + T[v][:i]:
            if w != p:
                walk(w, v)
    walk(0, None)
    G = {v: set(T[v]) for v in T}
    for a, b in zip(leaves, leaves[1:] + leaves[:1]):
        G[a].add(b)
        G[b].add(a)
    return G, set(leaves)


def rand_d3(rng, n):
    """Random graph grown from K4 by inverse reductions."""
    G = {v: {0, 1, 2, 3} - {v} for v in range(4)}
    bias = rng.random()
    while len(G) < n:
        k = max(G) + 1
        if rng.random() < bias:
            v = rng.choice([v for v in G if len(G[v]) == 3])
            a, b, c = sorted(G.pop(v))
            for i, w in enumerate((a, b, c)):
                G[w].discard(v)
                G[w].add(k + i)
                G[k + i] = {w} | {k + j for j in range(3) if j != i}
        else:
            T = [(u, w, x) for u in G for w in G[u] for x in G[u] & G[w]
                 if len(G[u]) == len(G[w]) == 3 and u < w]
            if not T:
                bias = 1
                continue
            u, w, x = rng.choice(T)
            G[u].discard(w)
            G[w].discard(u)
            G[k] = {u, w, x}
            for y in (u, w, x):
                G[y].add(k)
    return G


def halin_leaf_sets(G):
    """All sets of vertices that are the outer cycle of a Halin structure."""
    G = {v: set(G[v]) for v in G}
    V = list(G)
    n = len(V)
    E = sum(len(G[v]) for v in V) // 2
    out = []
    k = E - (n - 1)              # length of the outer cycle
    if n < 4 or k < 3:
        return out
    cand = [v for v in V if len(G[v]) == 3]
    if any(len(G[v]) < 3 for v in V):
        return out
    for O in itertools.combinations(cand, k):
        O = set(O)
        if any(len(G[v] & O) != 2 for v in O):
            continue
        C = {v: G[v] & O for v in O}
        if len(components(C)) != 1:
            continue
        T = {v: G[v] - O if v in O else set(G[v]) for v in V}
        if len(components(T)) != 1 or \
                sum(len(T[v]) for v in V) != 2 * (n - 1):
            continue
        start = next(iter(O))
        cyc = [start]
        prev, cur = None, start
        while True:
            nx = [w for w in C[cur] if w != prev]
            prev, cur = cur, nx[0]
            if cur == start:
                break
            cyc.append(cur)
        ok = True
        for v in V:
            for w in T[v]:
                comp = {v}
                todo = [v]
                while todo:
                    x = todo.pop()
                    for y in T[x]:
                        if y not in comp and (x, y) != (v, w):
                            comp.add(y)
                            todo.append(y)
                side = [x in comp for x in cyc]
                if sum(side[i] != side[i - 1] for i in range(len(side))) > 2:
                    ok = False
        if ok:
            out.append(O)
    return out


def d3_reducible(G, kinds="tp"):
    """Is there any sequence of reductions ending at K4?"""
    seen = set()

    def canon(H):
        return frozenset((v, frozenset(H[v])) for v in H)
    todo = [{v: set(G[v]) for v in G}]
    fresh = itertools.count(10 ** 6)
    while todo:
        H = todo.pop()
        c = canon(H)
        if c in seen:
            continue
        seen.add(c)
        if len(H) == 4 and all(len(H[v]) == 3 for v in H):
            return True
        for v in H:
            if len(H[v]) != 3:
                continue
            for u, w in itertools.combinations(sorted(H[v]), 2):
                if len(H[u]) != 3 or len(H[w]) != 3:
                    continue
                if w in H[u]:
                    if "t" not in kinds:
                        continue
                    N = [next(iter(H[a] - {u, v, w})) for a in (u, v, w)]
                    if len(set(N)) != 3:
                        continue
                    # contraction keeps the smallest name
                    x = min(u, v, w)
                    K = {a: set(H[a]) for a in H if a not in (u, v, w)}
                    for a in N:
                        K[a] = (K[a] - {u, v, w}) | {x}
                    K[x] = set(N)
                    todo.append(K)
                else:
                    if "p" not in kinds:
                        continue
                    ap = H[u] & H[v] & H[w]
                    if len(ap) != 1:
                        continue
                    K = {a: set(H[a]) - {v} for a in H if a != v}
                    K[u].add(w)
                    K[w].add(u)
                    todo.append(K)
    return False


def is_ham_cycle(C, G):
    if set(C) != set(G) or len(G) < 3:
        return False
    if any(len(C[v]) != 2 or not set(C[v]) <= set(G[v]) for v in C):
        return False
    if any(v not in C[w] for v in C for w in C[v]):
        return False
    return len(components({v: set(C[v]) for v in C})) == 1


def is_wheel_def(G):
    n = len(G)
    for c in G:
        if len(G[c]) == n - 1 and n >= 4:
            R = {v: set(G[v]) - {c} for v in G if v != c}
            if all(len(R[v]) == 2 for v in R) and len(components(R)) == 1:
                return True
    return False


def _halin_check(G, sets=None):
    from pads import halin as h
    if sets is None:
        sets = halin_leaf_sets(G)
    G0 = {v: set(G[v]) for v in G}
    expect(bool(h.is_halin(G)) == bool(sets), "is_halin gives %r" %
           (not sets,))
    if sets:
        L = set(h.halin_leaf_vertices(G))
        expect(L in sets, "leaf vertices %r, expected one of %r" %
               (L, sets))
    else:
        raises(TypeError, lambda: h.halin_leaf_vertices(G),
               "halin_leaf_vertices accepts a graph that is not Halin")
    expect({v: set(G[v]) for v in G} == G0, "input modified")


def _d3_check(G, known=None):
    from pads import halin as h
    d3 = d3_reducible(G) if known is None else known
    expect(bool(h.is_D3_reducible(G)) == d3, "is_D3_reducible gives %r" %
           (not d3))
    if d3:
        C = h.hamiltonian_cycle_D3(G)
        expect(is_ham_cycle(C, G), "hamiltonian_cycle_D3 gives %r" % (C,))
    else:
        raises(TypeError, lambda: h.hamiltonian_cycle_D3(G),
               "hamiltonian_cycle_D3 accepts a graph that is not D3"
               " reducible")
    expect(bool(h.is_wheel(G)) == is_wheel_def(G), "is_wheel")
    if known is None:
        t = d3_reducible(G, "t")
        expect(bool(h.is_dual_3_tree(G)) == t, "is_dual_3_tree gives %r" %
               (not t))


def is_k4(G):
    return len(G) == 4 and all(len(G[v]) == 3 for v in G)


@driver("C40", ["halin.is_halin", "halin.halin_leaf_vertices",
                "halin.is_D3_reducible", "halin.hamiltonian_cycle_D3",
                "halin.is_wheel", "halin.is_dual_3_tree", "halin.is_K4"],
        "all graphs on <=6 vertices of minimum degree 3 (others on <=5),"
        " seeded Halin graphs on <=25 vertices, graphs on <=14 vertices grown"
        " by inverse reductions, modified Halin graphs and seeded graphs on"
        " <=9 vertices")
def halin(ctx):
    from pads import halin as h
    for n in range(0, 7):
        for G in all_graphs(n):
            if n == 6 and (min(len(G[v]) for v in G) < 3 or
                           sum(len(G[v]) for v in G) > 22):
                continue
            ctx.run("Halin", G, lambda: _halin_check(G), trivial=n < 4)
            ctx.run("D3", G, lambda: _d3_check(G), trivial=n < 4)
            ctx.run("K4", G, lambda: expect(bool(h.is_K4(G)) == is_k4(G),
                                            "is_K4"), trivial=n < 4)
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(1500, 10000):
        k += 1
        r = rng.random()
        if r < .35:
            G, L = rand_halin(rng, rng.randrange(5, 26))
            d3 = is_wheel_def(G)
            f = rng.choice(PALETTES)
            G = relabel(G, f)
            L = {f(v) for v in L}
            E = sum(len(G[v]) for v in G) // 2

            def one():
                expect(h.is_halin(G), "is_halin rejects a Halin graph")
                got = h.halin_leaf_vertices(G)
                expect(len(got) == E - len(G) + 1, "leaf vertices %r" %
                       (got,))
                O = set(got)
                C = {v: set(G[v]) & O for v in O}
                expect(all(len(C[v]) == 2 for v in C) and
                       len(components(C)) == 1, "leaf vertices %r form no"
                       " cycle" % (got,))
                expect(h.is_D3_reducible(G), "a Halin graph is not D3"
                       " reducible")
                expect(is_ham_cycle(h.hamiltonian_cycle_D3(G), G),
                       "hamiltonian_cycle_D3")
                expect(bool(h.is_wheel(G)) == d3, "is_wheel")
            ctx.run("Halin", G, one)
        elif r < .55:
            G = rand_d3(rng, rng.randrange(5, 13))
            G = relabel(G, rng.choice(PALETTES))
            ctx.run("Halin", G, lambda: _halin_check(G))
            ctx.run("D3", G, lambda: _d3_check(G, True))
        elif r < .85:
            G, L = rand_halin(rng, rng.randrange(5, 10))
            for _ in range(rng.randrange(1, 3)):
                a, b = rng.sample(list(G), 2)
                if b in G[a]:
                    G[a].discard(b)
                    G[b].discard(a)
                else:
                    G[a].add(b)
                    G[b].add(a)
            ctx.run("Halin", G, lambda: _halin_check(G))
            ctx.run("D3", G, lambda: _d3_check(G))
        else:
            G = random_graph(rng, rng.randrange(5, 9))
            ctx.run("Halin", G, lambda: _halin_check(G))
            ctx.run("D3", G, lambda: _d3_check(G))


# ------------------------------------------------------------------ C41
def ham_cycles(G):
    V = list(G)
    n = len(V)
    out = set()
    if n < 3:
        return out
    s = V[0]

    def go(path, seen):
        v = path[-1]
        if len(path) == n:
            if s in G[v]:
                out.add(frozenset(frozenset((path[i - 1], path[i]))
                                  for i in range(n)))
            return
        for w in G[v]:
            if w not in seen:
                go(path + [w], seen | {w})
    go([s], {s})
    return out


def _ham_check(G):
    from pads.cubic_ham import hamiltonian_cycles
    want = ham_cycles(G)
    got = []
    G0 = {v: list(G[v]) for v in G}
    for C in hamiltonian_cycles(G):
        expect(is_ham_cycle(C, G), "%r is not a Hamiltonian cycle" % (C,))
        got.append(frozenset(frozenset((v, w)) for v in C for w in C[v]))
        expect(len(got) <= len(want), "more than the %d cycles that exist" %
               len(want))
    expect(len(set(got)) == len(got), "a cycle is repeated")
    expect(set(got) == want, "%d of %d cycles found" % (len(got), len(want)))
    expect({v: list(G[v]) for v in G} == G0, "input modified")


def rand_deg3(rng, n, cyc):
    G = {v: set() for v in range(n)}
    if cyc:
        p = list(range(n))
        rng.shuffle(p)
        for i in range(n):
            G[p[i]].add(p[i - 1])
            G[p[i - 1]].add(p[i])
    for _ in range(rng.randrange(0, 4 * n)):
        a, b = rng.sample(range(n), 2)
        if b not in G[a] and len(G[a]) < 3 and len(G[b]) < 3:
            G[a].add(b)
            G[b].add(a)
    return G


@driver("C41", ["cubic_ham.hamiltonian_cycles"],
        "all graphs of maximum degree 3 on 1-6 vertices, seeded ones on"
        " <=14 vertices")
def cubic_ham(ctx):
    from pads.cubic_ham import hamiltonian_cycles
    for n in range(1, 7):
        for G in all_graphs(n):
            d = [len(G[v]) for v in G]
            if max(d) > 3 or (n == 6 and min(d) < 2):
                continue
            ctx.run("hamiltonian_cycles", G, lambda: _ham_check(G),
                    trivial=min(d) < 2)
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(300, 3000):
        k += 1
        G = rand_deg3(rng, rng.randrange(6, 15), rng.random() < .8)
        G = relabel(shuffled(rng, G), rng.choice(PALETTES))
        ctx.run("hamiltonian_cycles", G, lambda: _ham_check(G))
    for G in ({}, {0: [1], 1: []},
              {0: [1, 2, 3, 4], 1: [0], 2: [0], 3: [0], 4: [0]}):
        ctx.run("invalid input", G, lambda: raises(
            ValueError, lambda: list(hamiltonian_cycles(G)), "accepted"))


# ------------------------------------------------------------------ C42
def edge_colorings(G):
    """All partitions of the edges of a cubic graph into three perfect
    matchings, as sets of three sets of edges."""
    E = sorted({frozenset((v, w)) for v in G for w in G[v]}, key=repr)
    out = set()
    col = {}

    def go(i):
        if i == len(E):
            out.add(frozenset(frozenset(e for e in E if col[e] == c)
                              for c in range(3)))
            return
        used = {col[f] for f in E[:i] if f & E[i]}
        for c in range(3):
            if c not in used:
                col[E[i]] = c
                go(i + 1)
        col.pop(E[i], None)
    go(0)
    return out


def _cmp_check(G):
    from pads.xyz_graph import CubicMatchPartitions, xyzEmbeddings, isxyz
    want = edge_colorings(G)
    got = []
    for M in CubicMatchPartitions(G):
        expect(set(M) == set(G), "vertices")
        for v in G:
            expect(sorted(map(repr, M[v])) == sorted(map(repr, G[v])),
                   "edges at %r" % (v,))
            for i in range(3):
                expect(M[M[v][i]][i] == v, "matching %d at %r" % (i, v))
        got.append(frozenset(frozenset(frozenset((v, M[v][i])) for v in M)
                             for i in range(3)))
    expect(len(got) == len(set(got)), "a partition is repeated")
    expect(set(got) == want, "%d of %d partitions" % (len(got), len(want)))
    embs = list(xyzEmbeddings(G))
    n = 0
    for P in want:
        P = list(P)
        comp = []
        for i, j in ((0, 1), (0, 2), (1, 2)):
            H = {v: set() for v in G}
            for e in P[i] | P[j]:
                a, b = e
                H[a].add(b)
                H[b].add(a)
            D = {}
            for k, c in enumerate(components(H)):
                for v in c:
                    D[v] = k
            comp.append(D)
        pts = {v: tuple(D[v] for D in comp) for v in G}
        n += xyz_def(list(pts.values()))
    expect(len(embs) == n, "%d embeddings, expected %d" % (len(embs), n))
    for D in embs:
        expect(set(D) == set(G), "embedding domain")
        expect(len({tuple(D[v]) for v in D}) == len(G), "points repeat")
        expect(xyz_def([tuple(D[v]) for v in D]), "embedding is not xyz")
        for v in D:
            nb = {w for w in D if w != v and
                  sum(a == b for a, b in zip(D[v], D[w])) == 2}
            expect(nb == set(G[v]), "embedding gives %r the neighbours %r" %
                   (v, nb))


def xyz_def(points):
    for k in range(3):
        cnt = {}
        for p in points:
            q = tuple(p[:k]) + tuple(p[k + 1:])
            cnt[q] = cnt.get(q, 0) + 1
        if any(c != 2 for c in cnt.values()):
            return False
    return True


def rand_cubic(rng, n):
    while True:
        s = [v for v in range(n) for _ in range(3)]
        rng.shuffle(s)
        G = {v: set() for v in range(n)}
        for i in range(0, len(s), 2):
            G[s[i]].add(s[i + 1])
            G[s[i + 1]].add(s[i])
        if all(len(G[v]) == 3 and v not in G[v] for v in G) and \
                biconnected(G):
            return G


def biconnected(G):
    if len(components(G)) != 1:
        return False
    return all(len(components({v: set(G[v]) - {x} for v in G if v != x}))
               == 1 for x in G)


@driver("C42", ["xyz_graph.CubicMatchPartitions", "xyz_graph.xyzEmbeddings",
                "xyz_graph.isxyz", "xyz_graph.groupByCycles"],
        "all biconnected cubic graphs on 4 and 6 labelled vertices, seeded"
        " ones on <=12 vertices, cube-like examples")
def xyz(ctx):
    from pads.xyz_graph import CubicMatchPartitions, isxyz
    for n in (4, 6):
        for G in all_graphs(n):
            if all(len(G[v]) == 3 for v in G) and biconnected(G):
                ctx.run("cubic matchings", G, lambda: _cmp_check(G))
    rng = ctx.rng
    cube = {v: {v ^ 1, v ^ 2, v ^ 4} for v in range(8)}
    prism = {(i, b): [((i + 1) % 6, b), ((i - 1) % 6, b), (i, 1 - b)]
             for i in range(6) for b in (0, 1)}
    for G in (cube, prism):
        ctx.run("cubic matchings", G, lambda: _cmp_check(G))
    k = 0
    while ctx.more() and k < ctx.times(30, 300):
        k += 1
        G = rand_cubic(rng, rng.choice([6, 8, 8, 10, 12]))
        G = shuffled(rng, G)
        if rng.random() < .5:
            G = relabel(G, rng.choice(PALETTES))
        ctx.run("cubic matchings", G, lambda: _cmp_check(G))
    k = 0
    while ctx.more() and k < 500:
        k += 1
        if rng.random() < .5:
            pts = list({tuple(rng.randrange(2) for _ in range(3))
                        for _ in range(rng.randrange(1, 14))})
        else:
            pts = [p for p in itertools.product(range(2), repeat=3)]
            pts += [tuple(c + 2 for c in p) for p in pts]
            if rng.random() < .5:
                pts.remove(rng.choice(pts))
        ctx.run("isxyz", pts, lambda: expect(
            bool(isxyz(pts)) == xyz_def(pts), "isxyz"))
    for G in ({0: [1], 1: []}, {0: [1], 1: [0]}):
        ctx.run("not cubic", G, lambda: raises(
            ValueError, lambda: list(CubicMatchPartitions(G)), "accepted"))


# ------------------------------------------------------------------ C43
def _rep_check(G):
    from pads.repetitivity import NonrepetitiveGraph
    NR = NonrepetitiveGraph(G)
    V = set(G) | {w for v in G for w in G[v]}
    E = [(v, w, L) for v in G for w in G[v] for L in set(G[v][w])]
    expect(set(NR) == V, "vertices")
    for v in V:
        expect(set(NR[v]) == {L for a, b, L in E if v in (a, b)},
               "labels at %r" % (v,))
        expect(v in NR, "membership")
    nxt = {e: [f for f in E if f[0] == e[1] and f[2] != e[2]] for e in E}

    def reach(S):
        seen = set(S)
        todo = list(S)
        while todo:
            for f in nxt[todo.pop()]:
                if f not in seen:
                    seen.add(f)
                    todo.append(f)
        return seen
    R = {e: reach(nxt[e]) for e in E}
    cyc = list(NR.cyclic())
    want = {e for e in E if e in R[e]}
    expect(len(cyc) == len(set(cyc)), "cyclic() repeats")
    expect(set(cyc) == want, "cyclic() gives %r, expected %r" %
           (set(cyc) - want, want - set(cyc)))
    for v in V:
        for L in NR[v]:
            S = reach([e for e in E if e[0] == v and e[2] == L])
            want = {(b, l) for a, b, l in S}
            got = list(NR.reachable(v, L))
            expect(len(got) == len(set(got)) and set(got) == want,
                   "reachable(%r,%r) gives %r, expected %r" %
                   (v, L, set(got), want))
            # shortest paths
            dist = {}
            level = [e for e in E if e[0] == v and e[2] == L]
            seen = set(level)
            d = 1
            while level:
                new = []
                for e in level:
                    dist.setdefault((e[1], e[2]), d)
                    for f in nxt[e]:
                        if f not in seen:
                            seen.add(f)
                            new.append(f)
                level = new
                d += 1
            for w in V:
                for LL in NR[w]:
                    if (w, LL) not in dist:
                        raises(ValueError, lambda: NR.shortest(v, L, w, LL),
                               "shortest path to an unreachable pair")
                        continue
                    p = NR.shortest(v, L, w, LL)
                    expect(len(p) == dist[w, LL] + 1, "shortest(%r,%r,%r,%r)"
                           " is %r, the length is %d" %
                           (v, L, w, LL, p, dist[w, LL]))
                    S = {e for e in E if e[0] == p[0] and e[1] == p[1] and
                         e[2] == L} if p[0] == v else set()
                    for x, y in zip(p[1:], p[2:]):
                        S = {f for e in S for f in nxt[e] if f[1] == y}
                    expect(any(e[1] == w and e[2] == LL for e in S),
                           "shortest(%r,%r,%r,%r) is %r, no nonrepetitive"
                           " path" % (v, L, w, LL, p))


@driver("C43", ["repetitivity.NonrepetitiveGraph"],
        "seeded edge-labelled digraphs with <=5 vertices and <=7 labels")
def repetitivity(ctx):
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(500, 4000):
        k += 1
        n = rng.randrange(1, 6)
        m = rng.choice([1, 2, 3, 4, 5, 7])
        p = rng.choice([.2, .4, .7])
        G = {}
        for v in range(n):
            G[v] = {}
            for w in range(n):
                if rng.random() < p:
                    L = [chr(97 + i) for i in range(m) if rng.random() < .4]
                    G[v][w] = rng.choice([set, list, tuple])(
                        L or ["a"])
        if rng.random() < .3:
            G.pop(rng.choice(list(G)))
        ctx.run("NonrepetitiveGraph", G, lambda: _rep_check(G))


# ------------------------------------------------------------------ C44
def g6_n(n):
    if n <= 62:
        return chr(n + 63)
    return "~" + "".join(chr((n >> s & 63) + 63) for s in (12, 6, 0))


def g6_bits(bits):
    bits = list(bits)
    while len(bits) % 6:
        bits.append(0)
    return "".join(chr(int("".join(map(str, bits[i:i + 6])), 2) + 63)
                   for i in range(0, len(bits), 6))


def graph6(n, E):
    return g6_n(n) + g6_bits([int(frozenset((i, j)) in E)
                              for j in range(1, n) for i in range(j)])


def sparse6(n, E):
    """Encoder written from the format description."""
    k = 1
    while 1 << k < n:
        k += 1
    bits = []

    def put(x):
        bits.extend(x >> (k - 1 - i) & 1 for i in range(k))
    cur = 0
    edges = sorted((max(e), min(e)) for e in E)
    for v, u in edges:
        if v == cur:
            bits.append(0)
            put(u)
        elif v == cur + 1:
            cur = v
            bits.append(1)
            put(u)
        else:
            cur = v
            bits.append(1)
            put(v)
            bits.append(0)
            put(u)
    pad = -len(bits) % 6
    if k < 6 and n == 1 << k and pad > k and cur < n - 1:
        bits.append(0)
    while len(bits) % 6:
        bits.append(1)
    return ":" + g6_n(n) + g6_bits(bits)


def _read_check(lines, V, E, ids=None):
    from pads.read_undirected_graph import readUndirectedGraph
    G = readUndirectedGraph(lines)
    expect(set(G) == set(V), "vertices %r, expected %r" % (set(G), set(V)))
    got = {frozenset((v, w)) for v in G for w in G[v]}
    expect(got == set(E), "edges %r, expected %r" % (got, set(E)))
    seen = {}
    for v in G:
        for w in G[v]:
            expect(G[w][v] == G[v][w], "edge id differs at the ends")
            seen.setdefault(G[v][w], set()).add(frozenset((v, w)))
    expect(all(len(s) == 1 for s in seen.values()), "edge ids repeat")


@driver("C44", ["read_undirected_graph.readUndirectedGraph",
                "read_undirected_graph.readGraph6",
                "read_undirected_graph.readSparse6",
                "read_undirected_graph.readLeda",
                "read_undirected_graph.readMALF",
                "read_undirected_graph.readEdgeList",
                "read_undirected_graph.readNodeEdgeList",
                "read_undirected_graph.readGraphML"],
        "all graphs on <=4 vertices and seeded graphs on <=80 vertices"
        " written in each of the seven formats; malformed variants")
def formats(ctx):
    from pads.read_undirected_graph import (readUndirectedGraph,
                                            GraphFormatError)
    rng = ctx.rng

    def all_formats(n, E):
        E = set(map(frozenset, E))
        o = sorted(tuple(sorted(e)) for e in E)
        for pre in ("", ">>graph6<<"):
            s = pre + graph6(n, E)
            if n >= 1 or pre:
                ctx.run("graph6", s, lambda: _read_check([s], range(n), E))
                ctx.run("graph6 string", s,
                        lambda: _read_check(s, range(n), E))
                ctx.run("graph6 file", s, lambda: _read_check(
                    io.StringIO(s + "\n"), range(n), E))
        for pre in ("", ">>sparse6<<"):
            t = pre + sparse6(n, E)
            ctx.run("sparse6", t, lambda: _read_check([t], range(n), E))
        V1 = range(1, n + 1)
        E1 = {frozenset(x + 1 for x in e) for e in E}
        leda = ["LEDA.GRAPH", "void", "void", "# comment", str(n)]
        leda += ["|{}|"] * n + ["", str(2 * len(o))]
        k = 1
        for a, b in o:
            leda.append("%d %d %d |{}|" % (a + 1, b + 1, k + 1))
            leda.append("%d %d %d |{}|" % (b + 1, a + 1, k))
            k += 2
        ctx.run("LEDA", leda, lambda: _read_check(leda, V1, E1))
        back = leda[:7 + n]
        for i in range(len(o)):
            pair = leda[7 + n + 2 * i:9 + n + 2 * i]
            back += pair[::-1] if rng.random() < .5 else pair
        back.insert(0, "# first")
        ctx.run("LEDA", back, lambda: _read_check(back, V1, E1))
        malf = [str(i) for i in V1] + ["#"]
        malf += ["%d 0 %d %d" % (i + 1, a + 1, b + 1)
                 for i, (a, b) in enumerate(o)]
        if n >= 1:
            ctx.run("MALF", malf, lambda: _read_check(malf, V1, E1))
        name = {i: "v%d" % i for i in range(n)}
        En = {frozenset(name[x] for x in e) for e in E}
        if o:
            el = []
            for a, b in o:
                el.append(rng.choice(["%s %s", "%s - %s"]) %
                          (name[a], name[b]))
                if rng.random() < .2:
                    el.append("")
            ctx.run("edge list", el, lambda: _read_check(
                el, {x for e in En for x in e}, En))
        ne = ["// nodes"] + list(name.values())
        half = o[:len(o) // 2]
        ne.append("// edges")
        for a, b in half:
            ne += [name[a], name[b]]
        ne.append("// named edges")
        for i, (a, b) in enumerate(o[len(half):]):
            ne += ["e%d" % i, name[a], name[b]]
        ctx.run("node edge list", ne,
                lambda: _read_check(ne, name.values(), En))
        ml = ['<?xml version="1.0"?>', "<graphml>",
              '<graph edgedefault="undirected">']
        ml += ['<node id="%s"/>' % x for x in name.values()]
        ml += ['<edge source="%s" target="%s"/>' % (name[a], name[b])
               for a, b in o]
        ml += ["</graph>", "</graphml>"]
        ctx.run("GraphML", ml, lambda: _read_check(ml, name.values(), En))
    for n in range(0, 5):
        for G in all_graphs(n):
            all_formats(n, [(v, w) for v in G for w in G[v]])
    k = 0
    while ctx.more() and k < ctx.times(80, 600):
        k += 1
        n = rng.choice([5, 8, 9, 15, 16, 17, 31, 32, 33, 61, 62, 63, 64,
                        65, 80])
        p = rng.choice([.02, .1, .5])
        E = [(i, j) for i in range(n) for j in range(i)
             if rng.random() < p]
        all_formats(n, E)
    nodes = ['<node id="a"/>', '<node id="b"/>']

    def gml(body, graph='<graph edgedefault="undirected">'):
        return ["<graphml>", graph] + body + ["</graph>", "</graphml>"]
    for bad in (["1", "3", "#"], ["1", "2", "#", "1 0 1"],
                ["1", "2", "#", "1 1 1 2"], ["1", "2", "#", "2 0 1 2"],
                ["1", "2", "#", "1 0 1 1"], ["1", "2", "#", "1 0 1 3"],
                ["1", "x", "#"], ["a b c d"], ["a x b", "c d"],
                ["// nodes", "a", "a"], ["// nodes", "a", "// edges", "a",
                                         "b"],
                ["// what", "a"], [">>graph6<<D"], ["D??????"],
                ['<graphml>', '<graph edgedefault="directed">',
                 '<node id="a"/>', '<node id="b"/>',
                 '<edge source="a" target="b"/>', '</graph>', '</graphml>'],
                ["LEDA.GRAPH", "void", "void", "2", "|{}|", "|{}|", "1",
                 "1 2 0 |{}|"],
                ["a", "b c"], ["a b", "b a - b"], ["a", "b"],
                ["a b", "c d e"], ["// nodes", "a", "// edges", "b", "a"],
                ["// nodes", "a", "// what", "b"],
                ["// nodes", "//b", "a", "// edges", "a", "//b"],
                [sparse6(5, [(2, 2)])], [sparse6(9, [(0, 1), (8, 8)])],
                ["//x", "a"], ["//", "a"], ["//nodes", "a"],
                ["// nodes", "a", "b", "// edges", "a", "// named edges"],
                ["// nodes", "a", "b", "// edges", "a", "//", "b"],
                ["// nodes", "a", "b", "c", "// named edges", "e", "a", "b",
                 "e", "b", "c"],
                ["<x>", "</x>"], ["<graph edgedefault='undirected'>",
                                  "</graph>"],
                gml(nodes, "<graph>"), gml(nodes, '<graph id="x">'),
                gml(["<node/>"]), gml(['<node name="a"/>']),
                gml(nodes + ['<edge source="a"/>']),
                gml(nodes + ['<edge target="a"/>']),
                gml(nodes + ['<edge/>']), gml(nodes + nodes),
                gml(nodes + ['<edge source="a" target="b"'
                             ' directed="true"/>']),
                gml(nodes + ['<edge source="a" target="c"/>']),
                gml(nodes + ['<edge source="c" target="a"/>']),
                gml(nodes + ['<edge source="a" target="a"/>']),
                ["LEDA.GRAPH", "void", "void", "x"],
                ["LEDA.GRAPH", "void", "void", "2", "|{}|", "|{}|", "y"],
                ["LEDA.GRAPH", "void", "void", "2", "|{}|", "|{}|", "1",
                 "1 2 1"],
                ["LEDA.GRAPH", "void", "void", "2", "|{}|", "|{}|", "1",
                 "1 3 1 |{}|"],
                ["LEDA.GRAPH", "void", "void", "2", "|{}|", "|{}|", "1",
                 "0 1 1 |{}|"],
                ["LEDA.GRAPH", "void", "void", "2", "|{}|", "|{}|", "2",
                 "1 2 1 |{}|", "2 1 0 |{}|"],
                [">>sparse6<<A"], ["D~~~"], ["?@"], ["D~"], ["@?"],
                ["1", "2", "#", "1 0 1 2", "x 0 1 2"],
                ["1", "2", "3", "#", "1 0 1 2", "3 0 2 3"],
                ["1", "2", "3", "#", "1 0 1 2", "2 0 2 3 1"],
                ["2", "#"], ["1", "1", "#"], ["0", "1", "#"]):
        ctx.run("malformed input", bad, lambda: raises(
            GraphFormatError, lambda: readUndirectedGraph(bad),
            "accepted without GraphFormatError"))
    for bad in (["// nodes", "a", "b", "// edges", "a"],
                ["// nodes", "a", "b", "// named edges", "e", "a"],
                ["// nodes", "a", "b", "// named edges", "e"],
                gml(nodes)[:-1], gml(nodes)[:-2],
                ["LEDA.GRAPH", "void", "void", "2", "|{}|", "|{}|", "2",
                 "1 2 2 |{}|"],
                ["LEDA.GRAPH", "void", "void", "2", "|{}|"],
                ["LEDA.GRAPH", "void"], ["~"], ["~?"], [":~??"]):
        ctx.run("input cut short", bad, lambda: raises(
            Exception, lambda: readUndirectedGraph(bad),
            "accepted although it ends too early"))
    ab = {frozenset("ab")}
    for good in (gml(['<key id="d"/>'] + nodes +
                     ['<edge id="e" source="b" target="a"/>']),
                 gml(nodes + ['<edge source="a" target="b"'
                              ' directed="false"/>'],
                     '<graph edgedefault="directed">'),
                 ["<graphml>", '<key id="d" for="node"/>',
                  '<desc><node id="z"/></desc>'] + gml(nodes + [
                      '<edge source="a" target="b"><data key="d">1</data>'
                      '</edge>'])[1:],
                 gml(['<node id="a"><data><node id="q"/></data></node>',
                      '<node id="b"><graph edgedefault="directed">'
                      '<node id="r"/></graph></node>',
                      '<edge target="a" source="b"/>']),
                 gml(['<hyperedge><node/><edge source="p"/></hyperedge>'] +
                     nodes + ['<edge target="a" source="b"/>']),
                 ["// nodes", "a", "// edges", "// nodes", "", "b",
                  "// edges", "b", "", "a"],
                 ["// nodes", "a", "b", "// named edges", "e", "", "b", "a"],
                 ["", "a b"], ["a - b"], ["a b", "b a"], ["a  b"]):
        ctx.run("format variants", good,
                lambda: _read_check(good, "ab", ab))
    for n in (4094, 4096, 4097, 6000, 20000):
        E = {frozenset(rng.sample(range(n), 2)) for i in range(20)}
        t = sparse6(n, E)
        ctx.run("large sparse6", t, lambda: _read_check([t], range(n), E))
        V1 = range(1, n + 1)
        m = [str(i) for i in V1] + ["#"] + [
            "%d 0 %d %d" % ((i + 1,) + tuple(x + 1 for x in e))
            for i, e in enumerate(E)]
        ctx.run("large MALF", n, lambda: _read_check(
            m, V1, {frozenset(x + 1 for x in e) for e in E}))


# ------------------------------------------------------------------ C45
def _num(s):
    return float(s)


@driver("C45", ["svg.SVG"],
        "seeded drawings of <=12 elements nested <=4 deep")
def svg(ctx):
    import xml.etree.ElementTree as ET
    from pads.svg import SVG
    rng = ctx.rng

    def pt():
        return complex(round(rng.uniform(-50, 200), rng.choice([0, 2, 4])),
                       round(rng.uniform(-50, 200), rng.choice([0, 2, 4])))

    def one(seed):
        out = io.StringIO()
        bb = complex(abs(pt()) + 1, abs(pt()) + 1)
        S = SVG(bb, out, standalone=rng.random() < .5,
                indentation=rng.choice([0, 3]))
        tree = []
        stack = [tree]

        def near(el, key, x):
            expect(abs(_num(el.get(key)) - x) < 1e-3, el.tag, key, "is %s,"
                   " expected %r" % (el.get(key), x))
        checks = []
        for _ in range(rng.randrange(0, 13)):
            st = {"fill": "#%06X" % rng.randrange(1 << 24)} \
                if rng.random() < .5 else {}
            more = {"stroke": "black"} if rng.random() < .3 else {}
            if st and rng.random() < .2:
                more["fill"] = "none"
            want = dict(st)
            want.update(more)
            kind = rng.choice(["g", "/g", "circle", "rect", "poly", "line",
                               "arc", "text"])
            if kind == "g":
                S.group(st, **more)
                node = ("g", want, [], lambda el: None)
                stack[-1].append(node)
                stack.append(node[2])
                continue
            if kind == "/g":
                if len(stack) > 1:
                    S.ungroup()
                    stack.pop()
                continue
            p, q, r = pt(), pt(), round(rng.uniform(.5, 30), 3)
            if kind == "circle":
                S.circle(p, r, st, **more)

                def chk(el, p=p, r=r):
                    near(el, "cx", p.real)
                    near(el, "cy", p.imag)
                    near(el, "r", r)
                tag = "circle"
            elif kind == "rect":
                S.rectangle(p, q, st, **more)

                def chk(el, p=p, q=q):
                    near(el, "x", min(p.real, q.real))
                    near(el, "y", min(p.imag, q.imag))
                    near(el, "width", abs(p.real - q.real))
                    near(el, "height", abs(p.imag - q.imag))
                tag = "rect"
            elif kind == "poly":
                P = [pt() for _ in range(rng.randrange(3, 6))]
                S.polygon(P, st, **more)

                def chk(el, P=P):
                    L = [tuple(map(float, s.split(",")))
                         for s in el.get("points").split()]
                    expect(len(L) == len(P) and
                           all(abs(a - z.real) < 1e-3 and
                               abs(b - z.imag) < 1e-3
                               for (a, b), z in zip(L, P)), "points")
                tag = "polygon"
            elif kind == "line":
                S.segment(p, q, st, **more)

                def chk(el, p=p, q=q):
                    near(el, "x1", p.real)
                    near(el, "y1", p.imag)
                    near(el, "x2", q.real)
                    near(el, "y2", q.imag)
                tag = "line"
            elif kind == "arc":
                big = rng.random() < .5
                S.arc(p, q, r, big, st, **more)

                def chk(el, p=p, q=q, r=r, big=big):
                    L = [float(x) for x in re.findall(r"-?[\d.]+",
                                                      el.get("d"))]
                    w = [p.real, p.imag, r, r, 0, int(big), 0, q.real,
                         q.imag]
                    expect(len(L) == len(w) and all(
                        abs(a - b) < 1e-3 for a, b in zip(L, w)), "arc", L,
                        w)
                tag = "path"
            else:
                S.text("label %d" % len(stack[-1]), p, st, **more)

                def chk(el, p=p, t="label %d" % len(stack[-1])):
                    near(el, "x", p.real)
                    near(el, "y", p.imag)
                    expect(el.text == t, "text")
                tag = "text"
            stack[-1].append((tag, want, [], chk))
        if len(stack) > 1 and rng.random() < .3:
            try:
                S.close()
            except Exception:
                return
            raise Bad("close() accepts unclosed groups")
        while len(stack) > 1:
            S.ungroup()
            stack.pop()
        S.close()
        root = ET.fromstring(out.getvalue())

        def tagof(el):
            return el.tag.split("}")[-1]
        expect(tagof(root) == "svg", "root")
        near(root, "width", bb.real)
        near(root, "height", bb.imag)

        def cmp(el, kids):
            expect([tagof(c) for c in el] == [k[0] for k in kids],
                   "elements %r, expected %r" %
                   ([tagof(c) for c in el], [k[0] for k in kids]))
            for c, (tag, want, sub, chk) in zip(el, kids):
                st = {}
                for item in (c.get("style") or "").split(";"):
                    if item.strip():
                        a, b = item.split(":")
                        st[a.strip()] = b.strip()
                expect(st == want, "style %r, expected %r" % (st, want))
                chk(c)
                cmp(c, sub)
        cmp(root, tree)
    k = 0
    while ctx.more() and k < ctx.times(400, 3000):
        k += 1
        ctx.run("SVG", ("drawing", k), lambda: one(k))


# ------------------------------------------------------------------ C48
@driver("C48", ["graph_examples.GeneralizedPetersenGraph",
                "graph_examples.GeneralizedCoxeterGraph",
                "graph_examples.CubeConnectedCycles",
                "graph_examples.LCFNotation"],
        "n<=12 with every step, every named graph")
def examples(ctx):
    from pads import graph_examples as ge

    def graph(G, n, edges, what):
        E = {frozenset((v, w)) for v in G for w in G[v]}
        expect(len(G) == n, what, "has %d vertices" % len(G))
        expect(all(v in G[w] for v in G for w in G[v]), what,
               "is not undirected")
        expect(E == {frozenset(e) for e in edges}, what, "edges differ: %r"
               % (list(E ^ {frozenset(e) for e in edges})[:3],))

    def girth(G):
        best = None
        for s in G:
            d = {s: 0}
            par = {s: None}
            q = [s]
            for v in q:
                for w in G[v]:
                    if w not in d:
                        d[w] = d[v] + 1
                        par[w] = v
                        q.append(w)
                    elif par[v] != w:
                        c = d[v] + d[w] + 1
                        best = c if best is None else min(best, c)
        return best

    def cubic(G, n, g, what):
        expect(len(G) == n, what, "has %d vertices" % len(G))
        for v in G:
            expect(len(set(G[v])) == 3 and len(G[v]) == 3 and
                   v not in G[v], what, "is not cubic at %r" % (v,))
            for w in G[v]:
                expect(v in G[w], what, "is not undirected")
        expect(girth(G) == g, what, "has girth %r" % girth(G))
        expect(len(components({v: set(G[v]) for v in G})) == 1, what,
               "is not connected")
    for n in range(3, 13):
        for k in range(1, n):
            if 2 * k == n:
                continue
            ctx.run("GeneralizedPetersenGraph", (n, k), lambda: graph(
                ge.GeneralizedPetersenGraph(n, k), 2 * n,
                [((i, True), (i, False)) for i in range(n)] +
                [((i, True), ((i + 1) % n, True)) for i in range(n)] +
                [((i, False), ((i + k) % n, False)) for i in range(n)],
                "GeneralizedPetersenGraph"))
            for b in range(1, n):
                if 2 * b != n and (n < 8 or b == (k + 1) % n):
                    ctx.run("GeneralizedCoxeterGraph", (n, k, b),
                            lambda: graph(
                        ge.GeneralizedCoxeterGraph(n, k, b), 4 * n,
                        [((i, 0), (i, j)) for i in range(n)
                         for j in (1, 2, 3)] +
                        [((i, 1), ((i + 1) % n, 1)) for i in range(n)] +
                        [((i, 2), ((i + k) % n, 2)) for i in range(n)] +
                        [((i, 3), ((i + b) % n, 3)) for i in range(n)],
                        "GeneralizedCoxeterGraph"))
    for n in range(3, 7):
        ctx.run("CubeConnectedCycles", n, lambda: graph(
            ge.CubeConnectedCycles(n), n << n,
            [((x, y), (x, (y + 1) % n)) for x in range(1 << n)
             for y in range(n)] +
            [((x, y), (x ^ 1 << y, y)) for x in range(1 << n)
             for y in range(n)], "CubeConnectedCycles"))
    for L, r, name in (([5, -5], 7, "Heawood"), ([-12, 7, -7], 8, "McGee"),
                       ([3, -3], 4, "cube"), ([2, 2, -2, -2], 1, "K4-ish")):
        N = len(L) * r
        if name == "K4-ish":
            continue
        ctx.run("LCFNotation", (L, r), lambda: graph(
            ge.LCFNotation(L, r), N,
            [(i, (i + 1) % N) for i in range(N)] +
            [(i, (i + L[i % len(L)]) % N) for i in range(N)],
            "LCFNotation"))
    for name, n, g in (("PetersenGraph", 10, 5), ("DesarguesGraph", 20, 6),
                       ("CoxeterGraph", 28, 7), ("McGeeGraph", 24, 7),
                       ("DyckGraph", 32, 6), ("PappusGraph", 18, 6),
                       ("TutteCoxeterGraph", 30, 8), ("GrayGraph", 54, 8)):
        ctx.run(name, None, lambda: cubic(getattr(ge, name), n, g, name))
