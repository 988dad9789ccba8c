"""C12: breadth-first levels."""
from pydv.lib import REG, Loop

# vertices at distance at most k from r
REG.fun("ball", "G:dict[Obj,set[Obj]], r:Obj, k:int", "set[Obj]",
        "ite(k < 0, emptyset('Obj'), ite(k == 0, setof('v:Obj', v == r), "
        "setof('v:Obj', v in ball(G, r, k-1) or exists('u:Obj', "
        "u in ball(G, r, k-1) and u in G and v in G[u]))))")

# v is at distance d
REG.macro("atdist", "G, r, d, v",
          "v in ball(G, r, d) and v not in ball(G, r, d - 1)")

# if there is no vertex at distance k, there is none further away
REG.lemma("ball_stable", "G:dict[Obj,set[Obj]], r:Obj, k:int, m:int",
          requires=["0 <= k", "k <= m",
                    "forall('v:Obj', not atdist(G, r, k, v), "
                    "v in ball(G, r, k))"],
          ensures=["forall('v:Obj', imp(v in ball(G, r, m), "
                   "v in ball(G, r, k-1)), v in ball(G, r, m))"],
          decreases="m", body="""
if m > k:
    ball_stable(G, r, k, m - 1)
    unfold(ball(G, r, m))
    unfold(ball(G, r, k))
    unfold(ball(G, r, k - 1))
""")

REG.lemma("ball_mono", "G:dict[Obj,set[Obj]], r:Obj, k:int, m:int",
          requires=["k <= m"],
          ensures=["forall('v:Obj', imp(v in ball(G, r, k), "
                   "v in ball(G, r, m)), v in ball(G, r, k))"],
          decreases="m - k", body="""
if m > k:
    ball_mono(G, r, k, m - 1)
    unfold(ball(G, r, m))
    unfold(ball(G, r, m - 1))
""")

REG.fn("pads.bfs.breadth_first_levels", props=["C12"],
       params="G:dict[Obj,set[Obj]], root:Obj", yields="dict[Obj,set[Obj]]",
       requires=["graph(G)", "root in G"],
       ensures=[("keys of a level are the vertices at its distance",
                 "forall('i:int, v:Obj', imp(0 <= i and i < len(out), "
                 "iff(v in out[i], atdist(G, root, i, v))), v in out[i])"),
                ("levels hold the neighbours one step further",
                 "forall('i:int, v:Obj, w:Obj', imp(0 <= i and i < len(out) "
                 "and v in out[i], iff(w in out[i][v], w in G[v] and "
                 "atdist(G, root, i + 1, w))), w in out[i][v])"),
                ("no vertex is further away",
                 "forall('m:int, v:Obj', imp(m >= len(out), "
                 "not atdist(G, root, m, v)))")],
       locals={"currentLevel": "list[Obj]", "levelGraph":
               "dict[Obj,set[Obj]]", "_comp": "dict[Obj,set[Obj]]",
               "visited": "set[Obj]", "nextLevel": "set[Obj]"},
       ghost={"vis0": "set[Obj]"},
       exit="""
forall_intro("m:int", m >= len(out), forall('v:Obj', imp(v in ball(G, root, m), v in ball(G, root, m - 1))), "ball_stable(G, root, len(out), m)\\nball_mono(G, root, len(out) - 1, m - 1)")
""",
       loops={1: Loop(start="vis0 = visited\n"
                            "unfold(ball(G, root, len(out) + 1))\n"
                            "unfold(ball(G, root, len(out)))",
                      before="unfold(ball(G, root, 0))\n"
                             "unfold(ball(G, root, 0 - 1))",
                      inv=["visited == ball(G, root, len(out) - 1)",
                           "forall('v:Obj', iff(v in currentLevel, "
                           "atdist(G, root, len(out), v)))",
                           "forall('v:Obj', imp(v in ball(G, root, len(out)),"
                           " v in G), v in ball(G, root, len(out)))",
                           "forall('i:int, v:Obj', imp(0 <= i and "
                           "i < len(out), iff(v in out[i], "
                           "atdist(G, root, i, v))), v in out[i])",
                           "forall('i:int, v:Obj, w:Obj', imp(0 <= i and "
                           "i < len(out) and v in out[i], "
                           "iff(w in out[i][v], w in G[v] and "
                           "atdist(G, root, i + 1, w))), w in out[i][v])"],
                      end="card_subset(visited, dom(G))\n"
                          "card_subset(vis0, visited)\n"
                          "assert exists('x:Obj', x in visited and "
                          "x not in vis0)",
                      decreases="card(dom(G)) - card(visited)"),
              2: Loop(inv=["forall('v:Obj', iff(v in visited, "
                           "v in entry(visited) or exists('i:int', 0 <= i "
                           "and i < _k and _seq[i] == v, _seq[i])), "
                           "v in visited)"]),
              3: Loop(inv=["dom(levelGraph) == entry(dom(levelGraph))",
                           "forall('w:Obj', iff(w in nextLevel, "
                           "exists('i:int', 0 <= i and i < _k and "
                           "w in G[_seq[i]] and w not in visited, "
                           "_seq[i])), w in nextLevel)",
                           "forall('u:Obj, w:Obj', imp(u in levelGraph, "
                           "iff(w in levelGraph[u], w in G[u] and "
                           "w not in visited and exists('i:int', 0 <= i and "
                           "i < _k and _seq[i] == u, _seq[i]))), "
                           "w in levelGraph[u])"]),
              4: Loop(inv=["dom(levelGraph) == entry(dom(levelGraph))",
                           "forall('w:Obj', iff(w in nextLevel, "
                           "w in entry(nextLevel) or w not in visited and "
                           "exists('i:int', 0 <= i and i < _k and "
                           "_seq[i] == w, _seq[i])), w in nextLevel)",
                           "forall('u:Obj, w:Obj', imp(u in levelGraph, "
                           "iff(w in levelGraph[u], "
                           "w in entry(levelGraph)[u] or u == v and "
                           "w not in visited and "
                           "exists('i:int', 0 <= i and i < _k and "
                           "_seq[i] == w, _seq[i]))), w in levelGraph[u])"])})
