"""C24: minimum spanning forests.

A weighted graph maps vertices to mappings from neighbours to weights."""
from pydv.lib import REG, Loop

E_ = "list[tuple[real,Obj,Obj]]"
G_ = "dict[Obj,dict[Obj,real]]"

REG.fn("pads.graphs.is_undirected", variant="weighted", props=["C24"],
       params="G:" + G_, returns="bool", requires=["graph(G)"],
       ensures=[("symmetric without loops", "result == simple(G)")],
       loops={1: Loop(inv=["forall('i:int, w:Obj', imp(0 <= i and i < _k and "
                           "w in G[_seq[i]], w != _seq[i] and "
                           "_seq[i] in G[w]), (_seq[i], w in G[_seq[i]]))"]),
              2: Loop(inv=["forall('i:int', imp(0 <= i and i < _k, "
                           "v in G[_seq[i]]), _seq[i])"])})

# Two vertices are connected by the first n edges of a list exactly if this
# maps them to the same vertex (root_edges, root_least).
REG.fun("root", "E:%s, n:int" % E_, "map[Obj,Obj]",
        "ite(n <= 0, lam('x:Obj', x), lam('x:Obj', "
        "ite(root(E, n - 1)[x] == root(E, n - 1)[E[n - 1][2]], "
        "root(E, n - 1)[E[n - 1][1]], root(E, n - 1)[x])))")

REG.lemma("root_prefix", "E:%s, F:%s, n:int" % (E_, E_),
          requires=["forall('i:int', imp(0 <= i and i < n, E[i] == F[i]), "
                    "E[i])"],
          ensures=["same(root(E, n), root(F, n))"], decreases="n", body="""
unfold(root(E, n))
unfold(root(F, n))
if n > 0:
    root_prefix(E, F, n - 1)
""")

REG.lemma("root_mono", "E:%s, m:int, n:int, x:Obj, y:Obj" % E_,
          requires=["m <= n", "root(E, m)[x] == root(E, m)[y]"],
          ensures=["root(E, n)[x] == root(E, n)[y]"], decreases="n - m",
          body="""
if m < n:
    root_mono(E, m, n - 1, x, y)
    unfold(root(E, n))
    unfold(root(E, m))
""")

# the ends of the edges are connected
REG.lemma("root_edges", "E:%s, i:int, n:int" % E_,
          requires=["0 <= i", "i < n"],
          ensures=["root(E, n)[E[i][1]] == root(E, n)[E[i][2]]"], body="""
unfold(root(E, i + 1))
root_mono(E, i + 1, n, E[i][1], E[i][2])
""")

# by the smallest equivalence relation with this property
REG.lemma("root_least", "E:%s, n:int, c:map[Obj,Obj], x:Obj, y:Obj" % E_,
          requires=["forall('i:int', imp(0 <= i and i < n, "
                    "c[E[i][1]] == c[E[i][2]]), E[i])",
                    "root(E, n)[x] == root(E, n)[y]"],
          ensures=["c[x] == c[y]"], decreases="n", body="""
unfold(root(E, n))
if n > 0:
    if root(E, n - 1)[x] == root(E, n - 1)[y]:
        root_least(E, n - 1, c, x, y)
    elif root(E, n - 1)[x] == root(E, n - 1)[E[n - 1][2]]:
        root_least(E, n - 1, c, x, E[n - 1][2])
        root_least(E, n - 1, c, E[n - 1][1], y)
    else:
        root_least(E, n - 1, c, y, E[n - 1][2])
        root_least(E, n - 1, c, E[n - 1][1], x)
""")

REG.lemma("root_idem", "E:%s, n:int, x:Obj" % E_,
          ensures=["root(E, n)[root(E, n)[x]] == root(E, n)[x]"],
          decreases="n", body="""
unfold(root(E, n))
if n > 0:
    root_idem(E, n - 1, x)
    root_idem(E, n - 1, E[n - 1][1])
    root_idem(E, n - 1, E[n - 1][2])
""")

REG.macro("inside", "E, n, V", "forall('i:int', imp(0 <= i and i < n, "
          "E[i][1] in V and E[i][2] in V), E[i])")

REG.lemma("root_inside", "E:%s, n:int, V:set[Obj], x:Obj" % E_,
          requires=["inside(E, n, V)", "x in V"],
          ensures=["root(E, n)[x] in V"], decreases="n", body="""
unfold(root(E, n))
if n > 0:
    root_inside(E, n - 1, V, x)
    root_inside(E, n - 1, V, E[n - 1][1])
""")

# counting the components of a forest
REG.fun("image", "f:map[Obj,Obj], S:set[Obj]", "set[Obj]",
        "setof('y:Obj', exists('x:Obj', x in S and f[x] == y, f[x]))")

REG.lemma("image_card", "f:map[Obj,Obj], S:set[Obj]",
          ensures=["card(image(f, S)) <= card(S)"], decreases="card(S)",
          body="""
unfold(image(f, S))
if card(S) > 0:
    obtain("x:Obj", x in S)
    image_card(f, without(S, x))
    unfold(image(f, without(S, x)))
    card_subset(image(f, S), store(image(f, without(S, x)), f[x], True))
else:
    card_subset(image(f, S), emptyset('Obj'))
""")

REG.macro("forest", "E, n", "forall('i:int', imp(0 <= i and i < n, "
          "root(E, i)[E[i][1]] != root(E, i)[E[i][2]]), root(E, i), E[i])")

REG.lemma("forest_rank", "E:%s, n:int, V:set[Obj]" % E_,
          requires=["inside(E, n, V)", "forest(E, n)", "n >= 0"],
          ensures=["card(image(root(E, n), V)) == card(V) - n"],
          decreases="n", body="""
unfold(root(E, n))
unfold(image(root(E, n), V))
if n > 0:
    forest_rank(E, n - 1, V)
    unfold(image(root(E, n - 1), V))
    root_idem(E, n - 1, E[n - 1][1])
    root_idem(E, n - 1, E[n - 1][2])
    assert same(image(root(E, n), V), without(image(root(E, n - 1), V), root(E, n - 1)[E[n - 1][2]]))
else:
    assert same(image(root(E, n), V), V)
""")

# a forest with all edges inside of the components of another one is no
# larger
REG.lemma("rank_le", "F:%s, m:int, T:%s, n:int, V:set[Obj]" % (E_, E_),
          requires=["inside(F, m, V)", "forest(F, m)", "m >= 0",
                    "inside(T, n, V)", "forest(T, n)", "n >= 0",
                    "forall('i:int', imp(0 <= i and i < m, "
                    "root(T, n)[F[i][1]] == root(T, n)[F[i][2]]), F[i])"],
          ensures=["m <= n"], body="""
forest_rank(F, m, V)
forest_rank(T, n, V)
forall_intro("x:Obj", True, root(T, n)[root(F, m)[x]] == root(T, n)[x], "root_idem(F, m, x)\\nroot_least(F, m, root(T, n), root(F, m)[x], x)")
unfold(image(root(F, m), V))
unfold(image(root(T, n), V))
unfold(image(root(T, n), image(root(F, m), V)))
image_card(root(T, n), image(root(F, m), V))
card_subset(image(root(T, n), V), image(root(T, n), image(root(F, m), V)))
""")

# edges of the graph with their weights
REG.macro("wedges", "G, E", "forall('i:int', imp(0 <= i and i < len(E), "
          "adj(G, E[i][1], E[i][2]) and "
          "E[i][0] == G[E[i][1]][E[i][2]]), E[i])")
REG.macro("spanning", "G, E", "forall('u:Obj, v:Obj', imp(adj(G, u, v), "
          "root(E, len(E))[u] == root(E, len(E))[v]), v in G[u])")
REG.macro("ascending", "E", "forall('i:int, j:int', imp(0 <= i and i < j "
          "and j < len(E), E[i][0] <= E[j][0]), (E[i], E[j]))")
# the ends of every edge are connected by edges that are not heavier
REG.macro("bottleneck", "G, E", "forall('u:Obj, v:Obj', imp(adj(G, u, v), "
          "exists('n:int', 0 <= n and n <= len(E) and root(E, n)[u] == "
          "root(E, n)[v] and imp(n > 0, E[n - 1][0] <= G[u][v]), "
          "root(E, n))), v in G[u])")

REG.fun("total", "E:%s, n:int" % E_, "real",
        "ite(n <= 0, 0, total(E, n - 1) + E[n - 1][0])")

REG.lemma("total_le", "E:%s, F:%s, n:int" % (E_, E_),
          requires=["forall('i:int', imp(0 <= i and i < n, "
                    "E[i][0] <= F[i][0]), E[i])"],
          ensures=["total(E, n) <= total(F, n)"], decreases="n", body="""
unfold(total(E, n))
unfold(total(F, n))
if n > 0:
    total_le(E, F, n - 1)
""")

REG.lemma("lightest", "G:%s, T:%s, F:%s, i:int" % (G_, E_, E_),
          requires=["graph(G)", "wedges(G, T)", "forest(T, len(T))",
                    "ascending(T)", "bottleneck(G, T)", "wedges(G, F)",
                    "forest(F, len(F))", "ascending(F)", "0 <= i",
                    "i < len(F)"],
          ensures=["i < len(T)", "T[i][0] <= F[i][0]"], body="""
if i >= len(T) or F[i][0] < T[i][0]:
    n = min(i, len(T))
    forall_intro("k:int", 0 <= k and k <= i, root(T, n)[F[k][1]] == root(T, n)[F[k][2]], "trigger(F[k])\\nobtain('c:int', 0 <= c and c <= len(T) and root(T, c)[F[k][1]] == root(T, c)[F[k][2]] and imp(c > 0, T[c - 1][0] <= G[F[k][1]][F[k][2]]), root(T, c))\\ntrigger(F[i], T[i], T[c - 1])\\nassert c <= n\\nroot_mono(T, c, n, F[k][1], F[k][2])")
    rank_le(F, i + 1, T, n, dom(G))
""")

REG.lemma("minimal", "G:%s, T:%s, F:%s" % (G_, E_, E_),
          requires=["graph(G)", "wedges(G, T)", "forest(T, len(T))",
                    "ascending(T)", "bottleneck(G, T)", "wedges(G, F)",
                    "forest(F, len(F))", "ascending(F)", "spanning(G, F)"],
          ensures=["len(F) == len(T)",
                   "total(T, len(T)) <= total(F, len(F))"], body="""
forall_intro("i:int", 0 <= i and i < len(F), i < len(T) and T[i][0] <= F[i][0], "lightest(G, T, F, i)")
rank_le(T, len(T), F, len(F), dom(G))
assert len(F) <= len(T)
total_le(T, F, len(T))
""")

REG.macro("evenly", "G", "forall('u:Obj, v:Obj', imp(adj(G, u, v), "
          "G[u][v] == G[v][u]), G[u][v])")

REG.fn("pads.minimum_spanning_tree.MinimumSpanningTree", props=["C24"],
       params="G:" + G_, returns="list[tuple[Obj,Obj]]",
       requires=["graph(G)"],
       raises={"ValueError": "not (simple(G) and evenly(G))"},
       # T: the edges of the result with their weights
       outs={"T": E_}, ghost={"T": E_, "cnt": "map[int,int]", "T0": E_,
                                 "r0": "map[Obj,Obj]"},
       ensures=[("edges of the graph", "len(T) == len(result) and "
                 "wedges(G, T) and forall('i:int', imp(0 <= i and "
                 "i < len(T), result[i] == (T[i][1], T[i][2])), result[i])"),
                ("without cycles", "forest(T, len(T))"),
                ("connecting whatever the graph connects", "spanning(G, T)"),
                ("no heavier than any spanning forest", "forall('F:%s', imp("
                 "wedges(G, F) and forest(F, len(F)) and ascending(F) and "
                 "spanning(G, F), len(F) == len(T) and total(T, len(T)) <= "
                 "total(F, len(F))))" % E_)],
       after={"__getitem__": """
assert forall('x:Obj', rep(self, x) == r0[x], (r0[x],))
""", "union": """
trigger(objects[0], objects[1])
assert forall('x:Obj', iff(exists('i:int', 0 <= i and i < len(objects) and r0[objects[i]] == r0[x]), r0[x] == r0[u] or r0[x] == r0[v]), (r0[x],))
assert forall('x:Obj, y:Obj', imp(x in self and y in self, iff(self[x] == self[y], r0[x] == r0[y] or (r0[x] == r0[u] or r0[x] == r0[v]) and (r0[y] == r0[u] or r0[y] == r0[v]))), (r0[x], r0[y]))
"""},
       loops={1: Loop(inv=["forall('i:int, w:Obj', imp(0 <= i and i < _k and "
                           "w in G[_seq[i]], G[_seq[i]][w] == "
                           "G[w][_seq[i]]), (_seq[i], w in G[_seq[i]]))"]),
              2: Loop(inv=["forall('i:int', imp(0 <= i and i < _k, "
                           "G[u][_seq[i]] == G[_seq[i]][u]), _seq[i])"]),
              3: Loop(before="T = emptylist('tuple[real,Obj,Obj]')\n"
                             "unfold(root(T, 0))",
                      start="T0 = T\n"
                      "r0 = lam('x:Obj', rep(subtrees, x))", end="""
if len(tree) > len(T0):
    assert forall('x:Obj', rep(subtrees, x) == ite(x in subtrees, subtrees[x], x) and imp(x not in subtrees, r0[x] == x) and iff(x in subtrees, r0[x] in subtrees), (r0[x],))
    assert forall('x:Obj, y:Obj', iff(rep(subtrees, x) == rep(subtrees, y), r0[x] == r0[y] or (r0[x] == r0[u] or r0[x] == r0[v]) and (r0[y] == r0[u] or r0[y] == r0[v])), (r0[x], r0[y]))
    T = append(T0, (W, u, v))
    unfold(root(T, len(T)))
cnt[_k] = len(T)
forall_intro("n:int", n <= len(T0), same(root(T, n), root(T0, n)), "root_prefix(T, T0, n)")
""", inv=[
           "len(T) == len(tree) and wedges(G, T)",
           "forall('i:int', imp(0 <= i and i < len(T), "
           "tree[i] == (T[i][1], T[i][2]) and imp(_k < len(_seq), "
           "T[i][0] <= _seq[_k][0])), (T[i],), (tree[i],))",
           "ascending(T)", "forest(T, len(T))",
           "forall('x:Obj', imp(x in subtrees, subtrees[x] in subtrees), "
           "subtrees[x])",
           "forall('x:Obj, y:Obj', iff(rep(subtrees, x) == "
           "rep(subtrees, y), root(T, len(T))[x] == root(T, len(T))[y]), "
           "(root(T, len(T))[x], root(T, len(T))[y]))",
           "forall('i:int', imp(0 <= i and i < _k, 0 <= cnt[i] and "
           "cnt[i] <= len(T) and imp(cnt[i] > 0, T[cnt[i] - 1][0] <= "
           "_seq[i][0]) and root(T, cnt[i])[_seq[i][1]] == "
           "root(T, cnt[i])[_seq[i][2]]), cnt[i], _seq[i])"],
           exit="""
forall_intro("u:Obj, v:Obj", adj(G, u, v), exists('n:int', 0 <= n and n <= len(T) and root(T, n)[u] == root(T, n)[v] and imp(n > 0, T[n - 1][0] <= G[u][v]), root(T, n)), "obtain('i:int', 0 <= i and i < len(_seq) and _seq[i][1] == u and _seq[i][2] == v and _seq[i][0] == G[u][v], _seq[i])\\ntrigger(cnt[i], root(T, cnt[i]))")
forall_intro("u:Obj, v:Obj", adj(G, u, v), root(T, len(T))[u] == root(T, len(T))[v], "obtain('n:int', 0 <= n and n <= len(T) and root(T, n)[u] == root(T, n)[v], root(T, n))\\nroot_mono(T, n, len(T), u, v)")
""")},
       exit="""
forall_intro("F:%s", wedges(G, F) and forest(F, len(F)) and ascending(F) and spanning(G, F), len(F) == len(T) and total(T, len(T)) <= total(F, len(F)), "minimal(G, T, F)")
""" % E_)
