"""C18: two-colouring."""
from pydv.lib import REG, Loop
from contracts.dfs import WHOLE, GHOST

BI = "pads.bipartite"

# ends of the walks of k steps from u
REG.fun("walk", "G:dict[Obj,set[Obj]], u:Obj, k:int", "set[Obj]",
        "ite(k < 0, emptyset('Obj'), ite(k == 0, setof('v:Obj', v == u), "
        "setof('w:Obj', exists('v:Obj', v in walk(G, u, k - 1) and v in G "
        "and w in G[v], w in G[v]))))")

REG.lemma("walk_step", "G:dict[Obj,set[Obj]], u:Obj, k:int, v:Obj, w:Obj",
          requires=["v in walk(G, u, k)", "v in G", "w in G[v]", "k >= 0"],
          ensures=["w in walk(G, u, k + 1)"], body="""
unfold(walk(G, u, k + 1))
""")

REG.lemma("walk_append", "G:dict[Obj,set[Obj]], u:Obj, i:int, v:Obj, j:int, "
          "w:Obj",
          requires=["v in walk(G, u, i)", "w in walk(G, v, j)", "i >= 0",
                    "j >= 0"],
          ensures=["w in walk(G, u, i + j)"], decreases="j", body="""
unfold(walk(G, v, j))
if j > 0:
    obtain("x:Obj", x in walk(G, v, j - 1) and x in G and w in G[x], w in G[x])
    walk_append(G, u, i, v, j - 1, x)
    walk_step(G, u, i + j - 1, x, w)
""")

REG.macro("undirected", "G", "forall('v:Obj, w:Obj', imp(v in G and "
          "w in G[v], w in G and v in G[w]), w in G[v])")

REG.lemma("walk_back", "G:dict[Obj,set[Obj]], u:Obj, k:int, v:Obj",
          requires=["undirected(G)", "v in walk(G, u, k)", "k >= 0"],
          ensures=["u in walk(G, v, k)"], decreases="k", body="""
unfold(walk(G, u, k))
unfold(walk(G, v, 0))
if k > 0:
    obtain("x:Obj", x in walk(G, u, k - 1) and x in G and v in G[x], v in G[x])
    walk_back(G, u, k - 1, x)
    walk_step(G, v, 0, v, x)
    walk_append(G, v, 1, x, k - 1, u)
""")

# every edge joins the two classes
REG.macro("proper", "G, c", "forall('v:Obj, w:Obj', imp(v in G and "
          "w in G[v], c[v] != c[w]), w in G[v])")

REG.lemma("walk_parity", "G:dict[Obj,set[Obj]], c:map[Obj,bool], u:Obj, "
          "k:int, v:Obj",
          requires=["proper(G, c)", "k >= 0", "v in walk(G, u, k)"],
          ensures=["iff(c[u] == c[v], k % 2 == 0)"], decreases="k", body="""
unfold(walk(G, u, k))
if k > 0:
    obtain("x:Obj", x in walk(G, u, k - 1) and x in G and v in G[x], v in G[x])
    walk_parity(G, c, u, k - 1, x)
""")

# there is a closed walk of odd length, hence an odd cycle
REG.fun("oddcycle", "G:dict[Obj,set[Obj]]", "bool",
        "exists('v:Obj, k:int', k >= 0 and k % 2 == 1 and "
        "v in walk(G, v, k), walk(G, v, k))")

REG.lemma("proper_even", "G:dict[Obj,set[Obj]], c:map[Obj,bool]",
          requires=["proper(G, c)"], ensures=["not oddcycle(G)"], body="""
unfold(oddcycle(G))
forall_intro("v:Obj, k:int", k >= 0 and v in walk(G, v, k), k % 2 == 0, "walk_parity(G, c, v, k, v)")
""")

GRAPH = ["graph(G)", "undirected(G)", "%s not in G" % WHOLE]

REG.fn(BI + ".two_color", props=["C18"], params="G:dict[Obj,set[Obj]]",
       returns="dict[Obj,bool]", requires=GRAPH,
       raises={"NonBipartite": "oddcycle(G)"},
       ensures=[("all vertices are coloured", "dom(result) == dom(G)"),
                ("edges join the two classes", "proper(G, vals(result))")],
       locals={"color": "dict[Obj,bool]"},
       ghost=dict(GHOST, dep="map[Obj,int]"),
       exit="""
proper_even(G, vals(result))
""",
       loops={1: Loop(
           start="""
if edgetype == 1:
    dep[w] = ite(v == w, 0, dep[v] + 1)
    unfold(walk(G, root[w], 0))
    if v != w:
        walk_step(G, root[v], dep[v], v, w)
elif edgetype == 0:
    assert root[v] == root[w]
    walk_back(G, root[w], dep[w], w)
    walk_step(G, root[v], dep[v], v, w)
    walk_append(G, root[v], dep[v] + 1, w, dep[w], root[w])
    unfold(oddcycle(G))
    trigger(walk(G, root[v], dep[v] + 1 + dep[w]))
""",
           inv=["forall('x:Obj', iff(x in color, x in G and pre[x] < _k), "
                "(x in color,), (pre[x],))",
                "forall('x:Obj', imp(x in color, dep[x] >= 0 and "
                "color[x] == (dep[x] % 2 == 0) and "
                "x in walk(G, root[x], dep[x])), x in color)",
                "forall('x:Obj', imp(x in color and par[x] != x, "
                "color[x] != color[par[x]]), par[x])",
                "forall('i:int', imp(0 <= i and i < _k and _seq[i][2] == 0, "
                "color[_seq[i][0]] != color[_seq[i][1]]), _seq[i])"])})

REG.fn(BI + ".is_bipartite", props=["C18"], params="G:dict[Obj,set[Obj]]",
       returns="bool", requires=GRAPH,
       ensures=[("no odd cycle", "result == (not oddcycle(G))")])

REG.fn(BI + ".bipartition", props=["C18"], params="G:dict[Obj,set[Obj]]",
       yields="Obj", requires=GRAPH, raises={"NonBipartite": "oddcycle(G)"},
       ensures=[("vertices, each once", "forall('i:int, j:int', imp(0 <= i "
                 "and i < j and j < len(out), out[i] != out[j]), "
                 "(out[i], out[j])) and forall('i:int', imp(0 <= i and "
                 "i < len(out), out[i] in G), out[i])"),
                ("one end of every edge", "forall('v:Obj, w:Obj', imp(v in G "
                 "and w in G[v], (v in out) != (w in out)), w in G[v])")],
       loops={1: Loop(inv=[
           "forall('i:int', imp(0 <= i and i < len(out), out[i] in G and "
           "color[out[i]] and exists('j:int', 0 <= j and j < _k and "
           "_seq[j] == out[i], _seq[j])), out[i])",
           "forall('i:int, j:int', imp(0 <= i and i < j and j < len(out), "
           "out[i] != out[j]), (out[i], out[j]))",
           "forall('j:int', imp(0 <= j and j < _k, "
           "iff(color[_seq[j]], _seq[j] in out)), _seq[j])"])})

REG.fn(BI + ".bipartite_orientation", props=["C18"],
       params="G:dict[Obj,set[Obj]]", returns="dict[Obj,set[Obj]]",
       requires=GRAPH, raises={"NonBipartite": "oddcycle(G)"},
       ensures=[("edges of the graph", "forall('v:Obj, w:Obj', "
                 "imp(v in result, v in G and iff(w in result[v], "
                 "w in G[v])), (v in result, w in result[v]))"),
                ("one end of every edge", "forall('v:Obj, w:Obj', imp(v in G "
                 "and w in G[v], (v in result) != (w in result)), "
                 "w in G[v])")],
       locals={"_out": "dict[Obj,set[Obj]]"},
       loops={"c1": Loop(inv=[
           "forall('v:Obj', iff(v in _out, exists('i:int', 0 <= i and "
           "i < _k and _seq[i] == v, _seq[i])), v in _out)",
           "forall('v:Obj, w:Obj', imp(v in _out, iff(w in _out[v], "
           "w in G[v])), w in _out[v])"])})
