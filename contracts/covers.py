"""C15: covers by paths and chains, antichains."""
from pydv.lib import REG, Loop
from contracts.dfs import WHOLE
import contracts.matching
import contracts.partial_order

PO = "pads.partial_order"

# P lists every vertex once: v is P[a[v]][b[v]]
REG.macro("lists", "G, P, a, b",
          "forall('v:Obj', imp(v in G, 0 <= a[v] and a[v] < len(P) and "
          "0 <= b[v] and b[v] < len(P[a[v]]) and P[a[v]][b[v]] == v), "
          "(v in G,), (a[v],)) and "
          "forall('i:int, j:int', imp(0 <= i and i < len(P) and 0 <= j and "
          "j < len(P[i]), P[i][j] in G and a[P[i][j]] == i and "
          "b[P[i][j]] == j), P[i][j])")

# and follows edges
REG.macro("pathcover", "G, P, a, b", "lists(G, P, a, b) and "
          "forall('i:int, j:int, k:int', imp(0 <= i and i < len(P) and "
          "0 <= j and k == j + 1 and k < len(P[i]), P[i][k] in G[P[i][j]]), "
          "(P[i][j], P[i][k]))")

REG.macro("follows", "G, P", "forall('i:int, j:int, k:int', imp(0 <= i and "
          "i < len(P) and 0 <= j and k == j + 1 and k < len(P[i]), "
          "len(G[P[i][j]]) > 0 and P[i][k] == G[P[i][j]][0]), "
          "(P[i][j], P[i][k]))")

REG.fn(PO + ".TracePaths", props=["C15"], params="G:dict[Obj,list[Obj]]",
       yields="list[Obj]", views=True,
       requires=["%s not in G" % WHOLE,
                 "forall('v:Obj, i:int', imp(v in G and 0 <= i and "
                 "i < len(G[v]), G[v][i] in G), G[v][i])",
                 "forall('v:Obj', imp(v in G, len(G[v]) <= 1), G[v])",
                 "forall('v:Obj, w:Obj', imp(v in G and w in G and "
                 "len(G[v]) > 0 and len(G[w]) > 0 and G[v][0] == G[w][0], "
                 "v == w), (G[v][0], G[w][0]))"],
       raises={"ValueError": "cyclic(asgraph(G))"},
       outs={"a": "map[Obj,int]", "b": "map[Obj,int]"},
       ghost={"a": "map[Obj,int]", "b": "map[Obj,int]", "T": "list[Obj]",
              "q": "int", "S": "set[Obj]",
              "x": "Obj", "y": "Obj"},
       ensures=[("every vertex once", "lists(G, out, a, b)"),
                ("along edges", "follows(G, out)"),
                ("not empty", "forall('i:int', imp(0 <= i and i < len(out), "
                 "len(out[i]) > 0), out[i])"),
                ("one for each vertex without predecessor",
                 "len(out) == card(dom(G) - rights(asgraph(G)))")],
       entry="a = lam('v:Obj', -1)\nS = emptyset('Obj')\n"
             "unfold(rights(asgraph(G)))",
       after={"TopologicalOrder": "T = result"},
       exit="assert same(S, dom(G) - rights(asgraph(G)))",
       loops={
           1: Loop(before="""
assert same(successors, rights(asgraph(G)))
assert forall('v:Obj', imp(v in successors, exists('y:Obj', y in G and len(G[y]) > 0 and G[y][0] == v, G[y][0])), v in successors)
assert forall('y:Obj', imp(y in G and len(G[y]) > 0, G[y][0] in successors), G[y][0])
""",
                   start="q = _k", inv=[
               "_seq == T",
               "forall('v:Obj', -1 <= a[v] and a[v] < len(out) and "
               "imp(a[v] >= 0, v in G and 0 <= b[v] and "
               "b[v] < len(out[a[v]]) and out[a[v]][b[v]] == v), (a[v],))",
               "forall('i:int, j:int', imp(0 <= i and i < len(out) and "
               "0 <= j and j < len(out[i]), out[i][j] in G and "
               "a[out[i][j]] == i and b[out[i][j]] == j), out[i][j])",
               "follows(G, out)",
               "forall('i:int', imp(0 <= i and i < len(out), "
               "len(out[i]) > 0 and out[i][0] in S and "
               "len(G[out[i][len(out[i]) - 1]]) == 0), out[i])",
               "forall('i:int', imp(0 <= i and i < _k, a[T[i]] >= 0), T[i])",
               "forall('v:Obj', iff(v in S, v not in successors and "
               "exists('i:int', 0 <= i and i < _k and T[i] == v, T[i])), "
               "v in S)",
               "card(S) == len(out)"],
               end="""
if v not in successors:
    S = store(S, v, True)
else:
    obtain("y:Obj", y in G and len(G[y]) > 0 and G[y][0] == v, G[y][0])
    obtain("i:int", 0 <= i and i < len(T) and T[i] == y, T[i])
    assert i < _k
    trigger(out[a[y]][b[y]], out[a[y]][b[y] + 1], out[a[y]][len(out[a[y]]) - 1])
    assert out[a[y]][b[y] + 1] == v
"""),
           2: Loop(before="""
if a[v] >= 0:
    if b[v] > 0:
        trigger(out[a[v]][b[v]], out[a[v]][b[v] - 1])
assert a[v] == -1
a[v] = len(out)
b[v] = 0
""", start="y = L[len(L) - 1]", inv=[
               "len(L) > 0 and L[0] == v and 0 <= q and q < len(T) and "
               "T[q] == L[len(L) - 1]",
               "forall('v:Obj', -1 <= a[v] and a[v] <= len(out) and "
               "imp(a[v] >= 0 and a[v] < len(out), v in G and 0 <= b[v] and "
               "b[v] < len(out[a[v]]) and out[a[v]][b[v]] == v) and "
               "imp(a[v] == len(out), v in G and 0 <= b[v] and "
               "b[v] < len(L) and L[b[v]] == v), (a[v],))",
               "forall('i:int, j:int', imp(0 <= i and i < len(out) and "
               "0 <= j and j < len(out[i]), a[out[i][j]] == i and "
               "b[out[i][j]] == j), out[i][j])",
               "forall('j:int', imp(0 <= j and j < len(L), L[j] in G and "
               "a[L[j]] == len(out) and b[L[j]] == j), L[j])",
               "forall('j:int, k:int', imp(0 <= j and k == j + 1 and "
               "k < len(L), len(G[L[j]]) > 0 and L[k] == G[L[j]][0]), "
               "(L[j], L[k]))",
               "forall('i:int', imp(0 <= i and i < _k1, a[T[i]] >= 0), "
               "T[i])",
               "forall('i:int', imp(0 <= i and i < len(out), "
               "out[i][0] in S), out[i])"],
               decreases="len(T) - q",
               end="""
obtain("r:int", 0 <= r and r < len(T) and T[r] == L[len(L) - 1], T[r])
q = r
x = L[len(L) - 1]
trigger(L[len(L) - 2])
if a[x] >= 0:
    if b[x] > 0:
        trigger(out[a[x]][b[x]], out[a[x]][b[x] - 1], L[b[x]], L[b[x] - 1])
assert a[x] == -1
a[L[len(L) - 1]] = len(out)
b[L[len(L) - 1]] = len(L) - 1
""")})

REG.lemma("inj_range", "S:set[Obj], f:map[Obj,int], n:int",
          requires=["n >= 0", "forall('v:Obj', imp(v in S, 0 <= f[v] and "
                    "f[v] < n), (v in S,), (f[v],))",
                    "forall('v:Obj, w:Obj', imp(v in S and w in S and "
                    "f[v] == f[w], v == w), (f[v], f[w]))"],
          ensures=["card(S) <= n"], decreases="n", body="""
if n == 0:
    card_subset(S, emptyset('Obj'))
elif exists('v:Obj', v in S and f[v] == n - 1, f[v]):
    obtain("x:Obj", x in S and f[x] == n - 1, f[x])
    inj_range(without(S, x), f, n - 1)
else:
    inj_range(S, f, n - 1)
""")

REG.lemma("at_most", "G:dict[Obj,set[Obj]], m:dict[Obj,Obj], k:int",
          requires=["ismatch(G, m)", "forall('m:dict[Obj,Obj]', imp("
                    "ismatch(G, m), len(m) <= k), len(m))"],
          ensures=["len(m) <= k"])

# the steps of a cover form a matching
REG.lemma("cover_match", "G:dict[Obj,set[Obj]], P:list[list[Obj]], "
          "a:map[Obj,int], b:map[Obj,int], k:int",
          requires=["pathcover(G, P, a, b)",
                    "forall('m:dict[Obj,Obj]', imp(ismatch(G, m), "
                    "len(m) <= k), len(m))"],
          ensures=["card(dom(G)) - k <= len(P)"],
          ghost={"F": "set[Obj]", "m": "dict[Obj,Obj]"}, body="""
F = setof('v:Obj', v in G and b[v] == 0)
inj_range(F, a, len(P))
m = mkdict(dom(G) - F, lam('v:Obj', P[a[v]][b[v] - 1]))
forall_intro("v:Obj", v in m, m[v] in G and v in G[m[v]] and a[m[v]] == a[v] and b[m[v]] == b[v] - 1, "trigger(P[a[v]][b[v]], P[a[v]][b[v] - 1])", (m[v],), (v in m,))
assert forall('v:Obj, w:Obj', imp(v in m and w in m and m[v] == m[w], a[v] == a[w] and b[v] == b[w] and v == w), (m[v], m[w]))
assert ismatch(G, m)
card_split(dom(G), F)
at_most(G, m, k)
""")

VERTICES = ["graph(G)", "%s not in G" % WHOLE,
            "forall('v:Obj', imp(v in G, not listobj(v)), v in G)"]

REG.lemma("sub_reach", "H:dict[Obj,set[Obj]], G:dict[Obj,set[Obj]], u:Obj",
          requires=["forall('v:Obj, w:Obj', imp(v in H and w in H[v], "
                    "v in G and w in reach(G, v)), (w in H[v],))"],
          ensures=["subset(reach(H, u), reach(G, u))"], body="""
use("reach_refl")
use("reach_via")
reach_least(H, u, reach(G, u))
""")

REG.fn(PO + ".MinimumPathDecomposition", props=["C15"],
       params="G:dict[Obj,set[Obj]]", returns="list[list[Obj]]", views=True,
       requires=VERTICES + ["not cyclic(G)"],
       outs={"a": "map[Obj,int]", "b": "map[Obj,int]", "m": "dict[Obj,Obj]"},
       ghost={"a": "map[Obj,int]", "b": "map[Obj,int]", "m": "dict[Obj,Obj]",
              "g": "dict[Obj,set[Obj]]"},
       locals={"_comp": "dict[Obj,list[Obj]]"},
       ensures=[("paths with every vertex once", "pathcover(G, result, a, b)"),
                ("not empty", "forall('i:int', imp(0 <= i and "
                 "i < len(result), len(result[i]) > 0), result[i])"),
                ("as few as possible", "forall('P:list[list[Obj]], "
                 "x:map[Obj,int], y:map[Obj,int]', imp(pathcover(G, P, x, y), "
                 "len(result) <= len(P)))"),
                ("the steps are a largest matching", "ismatch(G, m) and "
                 "len(result) == card(dom(G)) - len(m) and "
                 "forall('x:dict[Obj,Obj]', imp(ismatch(G, x), "
                 "len(x) <= len(m)), len(x))")],
       after={"matching": "m = result[0]"},
       loops={1: Loop(inv=[
           "dom(H) == dom(G)",
           "forall('u:Obj', imp(u in G, len(H[u]) <= 1 and "
           "imp(len(H[u]) > 0, H[u][0] in M and M[H[u][0]] == u)), "
           "(H[u],), (u in G,))",
           "forall('i:int', imp(0 <= i and i < _k and _seq[i] in M, "
           "len(H[M[_seq[i]]]) == 1 and H[M[_seq[i]]][0] == _seq[i]), "
           "_seq[i])"],
           before="unfold(rights(G))",
           exit="""
g = asgraph(H)
unfold(rights(g))
use("reach_refl")
use("reach_step")
forall_intro("u:Obj", True, subset(reach(g, u), reach(G, u)), "sub_reach(g, G, u)", reach(g, u))
assert not cyclic(g)
""")},
       exit="""
assert same(rights(g), dom(m))
card_split(dom(G), dom(m))
forall_intro("P:list[list[Obj]], x:map[Obj,int], y:map[Obj,int]", pathcover(G, P, x, y), len(result) <= len(P), "cover_match(G, P, x, y, len(m))")
""")

# S: vertices none of which reaches another one
REG.macro("antichain", "G, S", "subset(S, dom(G)) and forall('v:Obj, w:Obj', "
          "imp(v in S and w in S and v != w, w not in reach(G, v)), "
          "(v in S, w in reach(G, v)))")

# v < w
REG.macro("closure", "C, G", "dom(C) == dom(G) and forall('v:Obj, w:Obj', "
          "imp(v in G, iff(w in C[v], w != v and w in reach(G, v))), "
          "(w in C[v],))")

REG.lemma("closure_acyclic", "C:dict[Obj,set[Obj]], G:dict[Obj,set[Obj]]",
          requires=["graph(G)", "closure(C, G)", "not cyclic(G)"],
          ensures=["not cyclic(C)", "graph(C)", "forall('v:Obj, w:Obj', "
                   "imp(v in G and w in C[v], v not in reach(G, w)), "
                   "w in C[v])"], body="""
use("reach_refl")
use("reach_via")
forall_intro("u:Obj", u in G, subset(reach(G, u), dom(G)), "reach_vertices(G, u)", reach(G, u))
forall_intro("u:Obj", True, subset(reach(C, u), reach(G, u)), "sub_reach(C, G, u)", reach(C, u))
forall_intro("v:Obj, w:Obj", v in G and w in reach(G, v) and w != v, v not in reach(G, w), "reach_first(G, v, w)\\nif v in reach(G, w):\\n    obtain('z:Obj', z in G[v] and w in reach(G, z), reach(G, z))\\n    trigger(v in reach(G, z))", (w in reach(G, v),))
""")

# no antichain is larger than the vertices less a matching of the closure
REG.lemma("antichain_match", "G:dict[Obj,set[Obj]], C:dict[Obj,set[Obj]], "
          "S:set[Obj], m:dict[Obj,Obj]",
          requires=["graph(G)", "closure(C, G)", "not cyclic(G)",
                    "antichain(G, S)", "ismatch(C, m)"],
          ensures=["card(S) <= card(dom(G)) - len(m)"],
          ghost={"D": "set[Obj]", "A": "set[Obj]", "B": "set[Obj]",
                 "R": "set[Obj]"}, body="""
closure_acyclic(C, G)
use("reach_via")
unfold(rights(C))
R = rights(C)
D = setof('v:Obj', v in G and exists('s:Obj', s in S and s in C[v], s in C[v]))
A = dom(G) - D
B = R & (S | D)
forall_intro("v:Obj, w:Obj", v in A and v in C and w in C[v] and w in B, False, "if w in S:\\n    trigger(w in C[v])\\nelse:\\n    obtain('s:Obj', s in S and s in C[w], s in C[w])\\n    trigger(s in reach(G, v))\\n    if s == v:\\n        trigger(v in reach(G, w))\\n    trigger(s in C[v])", (w in C[v],))
duality(C, m, A, B)
card_split(dom(G), D)
card_split(dom(G), R)
card_split(R, B)
card_split(S | D, D)
assert same((S | D) - D, S)
card_subset((S | D) - R, dom(G) - R)
card_split(S | D, (S | D) - R)
assert same((S | D) - ((S | D) - R), B)
""")

REG.fn(PO + ".MinimumChainDecomposition", props=["C15"],
       params="G:dict[Obj,set[Obj]]", returns="list[list[Obj]]",
       requires=VERTICES + ["not cyclic(G)"],
       outs={"a": "map[Obj,int]", "b": "map[Obj,int]", "m": "dict[Obj,Obj]",
             "C": "dict[Obj,set[Obj]]"},
       ghost={"a": "map[Obj,int]", "b": "map[Obj,int]", "m": "dict[Obj,Obj]",
              "C": "dict[Obj,set[Obj]]"},
       ensures=[("the order", "closure(C, G)"),
                ("chains with every vertex once", "pathcover(C, result, a, b)"),
                ("not empty", "forall('i:int', imp(0 <= i and "
                 "i < len(result), len(result[i]) > 0), result[i])"),
                ("as few as possible", "forall('P:list[list[Obj]], "
                 "x:map[Obj,int], y:map[Obj,int]', imp(pathcover(C, P, x, y), "
                 "len(result) <= len(P)))"),
                ("the steps are a largest matching", "ismatch(C, m) and "
                 "len(result) == card(dom(G)) - len(m) and "
                 "forall('x:dict[Obj,Obj]', imp(ismatch(C, x), "
                 "len(x) <= len(m)), len(x))")],
       after={"TransitiveClosure": "C = result\nclosure_acyclic(C, G)"})

REG.fun("firsts", "L:list[Obj], n:int", "set[Obj]", "setof('x:Obj', "
        "exists('i:int', 0 <= i and i < n and L[i] == x, L[i]))")

REG.lemma("firsts_card", "L:list[Obj], n:int",
          requires=["0 <= n", "n <= len(L)", "forall('i:int, j:int', "
                    "imp(0 <= i and i < j and j < len(L), L[i] != L[j]), "
                    "(L[i], L[j]))"],
          ensures=["card(firsts(L, n)) == n"], decreases="n", body="""
unfold(firsts(L, n))
if n > 0:
    firsts_card(L, n - 1)
    unfold(firsts(L, n - 1))
    assert same(firsts(L, n), store(firsts(L, n - 1), L[n - 1], True))
else:
    card_subset(firsts(L, n), emptyset('Obj'))
""")

REG.fn(PO + ".MaximumAntichain", props=["C15"],
       params="G:dict[Obj,set[Obj]]", returns="set[Obj]",
       requires=VERTICES, raises={"ValueError": "cyclic(G)"},
       outs={"m": "dict[Obj,Obj]", "C": "dict[Obj,set[Obj]]"},
       ghost={"m": "dict[Obj,Obj]", "C": "dict[Obj,set[Obj]]"},
       ensures=[("pairwise unreachable", "antichain(G, result)"),
                ("as large as possible", "forall('S:set[Obj]', imp("
                 "antichain(G, S), card(S) <= card(result)), card(S))"),
                ("as many as the chains of a minimum chain decomposition",
                 "closure(C, G) and ismatch(C, m) and "
                 "card(result) == card(dom(G)) - len(m) and "
                 "forall('x:dict[Obj,Obj]', imp(ismatch(C, x), "
                 "len(x) <= len(m)), len(x))")],
       after={"TransitiveClosure": "C = result\nclosure_acyclic(C, G)",
              "matching": "m = result[0]"},
       exit="""
unfold(rights(C))
unfold(firsts(A, len(A)))
unfold(firsts(B, len(B)))
firsts_card(A, len(A))
firsts_card(B, len(B))
assert same(covered, rights(C) - firsts(B, len(B)))
card_split(rights(C), firsts(B, len(B)))
assert same(result, firsts(A, len(A)) - (firsts(A, len(A)) & covered))
card_split(firsts(A, len(A)), firsts(A, len(A)) & covered)
card_subset(firsts(A, len(A)) & covered, covered)
assert card(result) >= card(dom(G)) - len(m)
assert subset(result, dom(G))
forall_intro("v:Obj, w:Obj", v in result and w in result and v != w, w not in reach(G, v), "if w in reach(G, v):\\n    assert w in C[v]\\n    assert w in rights(C)\\n    assert w in firsts(B, len(B))\\n    obtain('i:int', 0 <= i and i < len(A) and A[i] == v, A[i])\\n    obtain('j:int', 0 <= j and j < len(B) and B[j] == w, B[j])\\n    assert B[j] not in C[A[i]]", (v in result, w in reach(G, v)))
antichain_match(G, C, result, m)
forall_intro("S:set[Obj]", antichain(G, S), card(S) <= card(dom(G)) - len(m), "antichain_match(G, C, S, m)", card(S))
""")
