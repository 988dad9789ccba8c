"""C25: degeneracy, cores and triangles."""
from pydv.lib import REG, Loop

DG = "pads.graphdegeneracy"

# number of neighbours of x in S
REG.macro("deg", "G, S, x", "card(G[x] & S)")

REG.lemma("deg_without", "A:set[Obj], S:set[Obj], v:Obj",
          ensures=["card(A & without(S, v)) == card(A & S) - "
                   "ite(v in A and v in S, 1, 0)"], body="""
assert same(A & without(S, v), without(A & S, v))
""")

REG.lemma("deg_mono", "A:set[Obj], S:set[Obj], U:set[Obj]",
          requires=["subset(S, U)"],
          ensures=["card(A & S) <= card(A & U)"], body="""
card_subset(A & S, A & U)
""")

# U[i] is the set of vertices not listed before step i
LISTING = [
    ("all vertices are to be listed", "U[0] == dom(G)"),
    ("each step lists one of the remaining vertices",
     "forall('i:int', imp(0 <= i and i < len(out), out[i][0] in U[i] and "
     "same(U[i + 1], without(U[i], out[i][0]))), (out[i],), (U[i + 1],))"),
    ("positions of the listed vertices",
     "forall('i:int', imp(0 <= i and i < len(out), pos[out[i][0]] == i), "
     "out[i])"),
    ("the remaining vertices come later",
     "forall('i:int, x:Obj', imp(0 <= i and i <= len(out), iff(x in U[i], "
     "x in G and not (0 <= pos[x] and pos[x] < i))), x in U[i])"),
    ("the number of remaining neighbours",
     "forall('i:int', imp(0 <= i and i < len(out), "
     "out[i][1] == deg(G, U[i], out[i][0])), out[i])"),
    ("the smallest number of remaining neighbours",
     "forall('i:int, x:Obj', imp(0 <= i and i < len(out) and x in U[i], "
     "out[i][1] <= deg(G, U[i], x)), (out[i], G[x] & U[i]))")]

OUTS = {"U": "map[int,set[Obj]]", "pos": "map[Obj,int]"}
NOTSIMPLE = {"TypeError": "not simple(G)"}

REG.fn(DG + ".degeneracySequence", props=["C25"],
       params="G:dict[Obj,set[Obj]]", yields="tuple[Obj,int]",
       requires=["graph(G)"], raises=NOTSIMPLE, outs=OUTS, ghost=OUTS,
       ensures=LISTING + [
           ("every vertex is listed once", "forall('x:Obj', imp(x in G, "
            "0 <= pos[x] and pos[x] < len(out) and out[pos[x]][0] == x), "
            "(pos[x],))")],
       loops={1: Loop(inv=[
           "forall('x:Obj', iff(x in Q, exists('i:int', 0 <= i and i < _k "
           "and _seq[i] == x, _seq[i])), x in Q)",
           "forall('x:Obj', imp(x in Q, x in G and Q[x] == card(G[x])), "
           "Q[x])"]),
           2: Loop(before="""
pos = lam('x:Obj', -1)
U[0] = dom(Q)
forall_intro("x:Obj", x in G, card(G[x] & dom(G)) == card(G[x]), "assert same(G[x] & dom(G), G[x])")
""", inv=[t for _, t in LISTING] + [
               "same(U[len(out)], dom(Q))",
               "forall('x:Obj', imp(x in G, pos[x] == -1 or "
               "0 <= pos[x] and pos[x] < len(out) and out[pos[x]][0] == x), "
               "pos[x])",
               "forall('x:Obj', imp(x in Q, Q[x] == deg(G, U[len(out)], x)), "
               "Q[x])"],
               start="""
pos[v] = len(out)
U[len(out) + 1] = dom(Q)
forall_intro("x:Obj", x in U[len(out)], deg(G, U[len(out) + 1], x) == deg(G, U[len(out)], x) - ite(v in G[x], 1, 0), "deg_without(G[x], U[len(out)], v)")
"""),
           3: Loop(inv=[
               "dom(Q) == entry(dom(Q))",
               "forall('x:Obj', imp(x in Q, Q[x] == entry(Q)[x] - "
               "ite(exists('i:int', 0 <= i and i < _k and _seq[i] == x, "
               "_seq[i]), 1, 0)), Q[x])"])})

# all vertices in S have at least k neighbours in S
REG.macro("mindeg", "G, S, k", "forall('x:Obj', imp(x in S, "
          "deg(G, S, x) >= k), card(G[x] & S))")

FACTS = [t for _, t in LISTING]
PARAMS = ("G:dict[Obj,set[Obj]], U:map[int,set[Obj]], pos:map[Obj,int], "
          "out:list[tuple[Obj,int]]")

# as long as no vertex with k or more remaining neighbours is listed, no
# vertex of a set of minimum degree k is
REG.lemma("mindeg_stays", PARAMS + ", S:set[Obj], k:int, i:int",
          requires=["subset(S, dom(G))", "mindeg(G, S, k)", "0 <= i",
                    "i <= len(out)", "forall('j:int', imp(0 <= j and j < i, "
                    "out[j][1] < k), out[j])"] + FACTS,
          ensures=["subset(S, U[i])"], decreases="i", body="""
if i > 0:
    mindeg_stays(G, U, pos, out, S, k, i - 1)
    deg_mono(G[out[i - 1][0]], S, U[i - 1])
""")

# k is the largest minimum degree of a nonempty subgraph
REG.fun("isdegeneracy", "G:dict[Obj,set[Obj]], k:int", "bool",
        "exists('S:set[Obj]', subset(S, dom(G)) and card(S) > 0 and "
        "mindeg(G, S, k), card(S)) and "
        "forall('S:set[Obj]', imp(subset(S, dom(G)) and card(S) > 0, "
        "not mindeg(G, S, k + 1)), card(S))")

ALLBELOW = """
forall_intro("S:set[Obj]", subset(S, dom(G)) and card(S) > 0, not mindeg(G, S, %(k)s + 1), "if mindeg(G, S, %(k)s + 1):\\n    mindeg_stays(G, U, pos, %(out)s, S, %(k)s + 1, len(%(out)s))")
"""

REG.fn(DG + ".degeneracy", props=["C25"], params="G:dict[Obj,set[Obj]]",
       returns="int", requires=["graph(G)"],
       raises=dict(NOTSIMPLE, ValueError="card(dom(G)) == 0"),
       ghost=dict(OUTS, L="list[tuple[Obj,int]]"),
       after={"degeneracySequence": "L = result"},
       ensures=[("the largest minimum degree of a subgraph",
                 "isdegeneracy(G, result)"),
                ("the largest number in a listing",
                 "exists('i:int', 0 <= i and i < len(L) and "
                 "L[i][1] == result) and forall('i:int', imp(0 <= i and "
                 "i < len(L), L[i][1] <= result))")],
       exit=ALLBELOW % {"k": "result", "out": "L"} + """
obtain("i:int", 0 <= i and i < len(L) and L[i][1] == result)
trigger(U[i])
assert mindeg(G, U[i], result)
assert subset(U[i], dom(G))
assert card(U[i]) > 0
unfold(isdegeneracy(G, result))
""")

REG.fn(DG + ".degeneracyOrientation", props=["C25"],
       params="G:dict[Obj,set[Obj]]", returns="dict[Obj,set[Obj]]",
       requires=["graph(G)"], raises=NOTSIMPLE,
       outs={"pos": "map[Obj,int]"}, ghost=OUTS,
       ensures=[("vertices", "dom(result) == dom(G)"),
                ("edges to later vertices",
                 "forall('v:Obj, w:Obj', imp(v in G, iff(w in result[v], "
                 "w in G[v] and pos[v] < pos[w])), w in result[v])"),
                ("positions differ",
                 "forall('v:Obj, w:Obj', imp(v in G and w in G and v != w, "
                 "pos[v] != pos[w]), (pos[v], pos[w]))"),
                ("each edge once", "forall('v:Obj, w:Obj', imp(v in G and "
                 "w in G, iff(w in G[v], (w in result[v]) != "
                 "(v in result[w]))), w in G[v])"),
                ("at most degeneracy many edges out of a vertex",
                 "forall('v:Obj', imp(v in G, exists('S:set[Obj]', "
                 "subset(S, dom(G)) and v in S and "
                 "mindeg(G, S, card(result[v])))))")],
       locals={"D": "dict[Obj,set[Obj]]"},
       loops={1: Loop(inv=[
           "forall('v:Obj', iff(v in D, v in G and v not in U[_k]), "
           "v in D)",
           "forall('v:Obj', imp(v in D, same(D[v], G[v] & U[pos[v]])), "
           "D[v])"],
           end="assert same(D[v], G[v] & U[_k])")},
       exit="""
forall_intro("v:Obj", v in G, mindeg(G, U[pos[v]], card(result[v])), "trigger(U[pos[v]])")
""")

# C is the largest set of minimum degree k
REG.macro("iscore", "G, C, k", "subset(C, dom(G)) and mindeg(G, C, k) and "
          "forall('S:set[Obj]', imp(subset(S, dom(G)) and "
          "mindeg(G, S, k), subset(S, C)), card(S), subset(S, C))")

REG.fn(DG + ".core", props=["C25"],
       params="G:dict[Obj,set[Obj]], k:opt[int]", returns="set[Obj]",
       requires=["graph(G)"], raises=NOTSIMPLE,
       ghost=dict(OUTS, L="list[tuple[Obj,int]]", s="int", lev="int"),
       after={"degeneracySequence": "L = result"},
       locals={"coreset": "set[Obj]"},
       ensures=[("the given core",
                 "imp(k is not None, iscore(G, result, the(k)))"),
                ("or the deepest one", "imp(k is None and card(dom(G)) > 0, "
                 "card(result) > 0 and exists('d:int', "
                 "isdegeneracy(G, d) and iscore(G, result, d), "
                 "isdegeneracy(G, d)))"),
                ("of vertices", "subset(result, dom(G))")],
       loops={1: Loop(before="s = 0", start="lev = level", end="""
if level > lev:
    s = _k
""", inv=[
           "L == _seq", "0 <= s and s <= _k",
           "forall('v:Obj', iff(v in coreset, v in U[s] and "
           "v not in U[_k]), v in coreset)",
           "mindeg(G, U[s], level)",
           "imp(k is None or level < the(k), forall('i:int', imp(0 <= i and "
           "i < _k, L[i][1] <= level), L[i]))",
           "forall('i:int', imp(0 <= i and i < s, L[i][1] < "
           "ite(k is None, level, the(k))), L[i])",
           "level >= 0", "imp(s > 0, s < _k)",
           "imp(_k == 0, level == 0)"])},
       exit="""
lev = level
if k is None:
    assert same(U[s], result)
    forall_intro("S:set[Obj]", subset(S, dom(G)) and mindeg(G, S, lev), subset(S, result), "mindeg_stays(G, U, pos, L, S, lev, s)")
""" + ALLBELOW.replace("\nforall", "    forall")
       % {"k": "lev", "out": "L"} + """
    if card(dom(G)) > 0:
        obtain("x:Obj", x in G, x in G)
        assert result == U[s]
        if card(U[s]) == 0:
            assert s <= len(L)
            trigger(U[s], L[s])
        obtain("x:Obj", x in U[s], x in U[s])
        unfold(isdegeneracy(G, lev))
        assert isdegeneracy(G, lev)
        assert iscore(G, result, lev)
else:
    if level < the(k):
        forall_intro("S:set[Obj]", subset(S, dom(G)) and mindeg(G, S, the(k)), subset(S, result), "mindeg_stays(G, U, pos, L, S, the(k), len(L))")
    else:
        assert same(U[s], result)
        forall_intro("S:set[Obj]", subset(S, dom(G)) and mindeg(G, S, the(k)), subset(S, result), "mindeg_stays(G, U, pos, L, S, the(k), s)")
""")

REG.macro("triple", "t, x, y, z", "(x == t[0] or x == t[1] or x == t[2]) and "
          "(y == t[0] or y == t[1] or y == t[2]) and "
          "(z == t[0] or z == t[1] or z == t[2])")

REG.fn(DG + ".triangles", props=["C25"], params="G:dict[Obj,set[Obj]]",
       returns="list[tuple[Obj,Obj,Obj]]", requires=["graph(G)"],
       raises=NOTSIMPLE, ghost={"pos": "map[Obj,int]"},
       ensures=[("pairwise adjacent",
                 "forall('i:int', imp(0 <= i and i < len(result), "
                 "adj(G, result[i][0], result[i][1]) and "
                 "adj(G, result[i][0], result[i][2]) and "
                 "adj(G, result[i][1], result[i][2])), result[i])"),
                ("every triangle", "forall('x:Obj, y:Obj, z:Obj', imp("
                 "adj(G, x, y) and adj(G, x, z) and adj(G, y, z), "
                 "exists('i:int', 0 <= i and i < len(result) and "
                 "triple(result[i], x, y, z), result[i])), "
                 "(y in G[x], z in G[y]))"),
                ("no triangle twice", "forall('i:int, j:int', imp(0 <= i and "
                 "i < j and j < len(result), not triple(result[i], "
                 "result[j][0], result[j][1], result[j][2])), "
                 "(result[i], result[j]))")])
