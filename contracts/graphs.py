"""C10: graph utilities.

A graph is a mapping from vertices to sets of neighbours."""
from pydv.lib import REG, Loop

GR = "pads.graphs"

# neighbours are vertices
REG.macro("graph", "G", "forall('v:Obj, w:Obj', imp(v in G and w in G[v], "
          "w in G), (v in G, w in G[v]))")
REG.macro("adj", "G, v, w", "v in G and w in G[v]")
REG.macro("simple", "G", "forall('v:Obj, w:Obj', imp(adj(G, v, w), "
          "v != w and adj(G, w, v)))")

REG.fn(GR + ".is_undirected", props=["C10"], params="G:dict[Obj,set[Obj]]",
       returns="bool", requires=["graph(G)"],
       ensures=[("symmetric without loops", "result == simple(G)")],
       loops={1: Loop(inv=["forall('i:int, w:Obj', imp(0 <= i and i < _k and "
                           "w in G[_seq[i]], w != _seq[i] and "
                           "_seq[i] in G[w]), (_seq[i], w in G[_seq[i]]))"]),
              2: Loop(inv=["forall('i:int', imp(0 <= i and i < _k, "
                           "v in G[_seq[i]]), _seq[i])"])})

REG.fn(GR + ".max_degree", props=["C10"], params="G:dict[Obj,set[Obj]]",
       returns="int", raises={"ValueError": "card(dom(G)) == 0"},
       ensures=[("attained", "exists('v:Obj', v in G and "
                 "card(G[v]) == result)"),
                ("largest", "forall('v:Obj', imp(v in G, "
                 "card(G[v]) <= result))")])

REG.fn(GR + ".min_degree", props=["C10"], params="G:dict[Obj,set[Obj]]",
       returns="int", raises={"ValueError": "card(dom(G)) == 0"},
       ensures=[("attained", "exists('v:Obj', v in G and "
                 "card(G[v]) == result)"),
                ("smallest", "forall('v:Obj', imp(v in G, "
                 "card(G[v]) >= result))")])

REG.fn(GR + ".copy_graph", props=["C10"], params="G:dict[Obj,set[Obj]]",
       returns="dict[Obj,set[Obj]]",
       ensures=[("same graph", "result == G")])

REG.fn(GR + ".induced_subgraph", props=["C10"],
       params="V:set[Obj], G:dict[Obj,set[Obj]]",
       returns="dict[Obj,set[Obj]]",
       ensures=[("vertices", "forall('v:Obj', iff(v in result, "
                 "v in G and v in V))"),
                ("edges", "forall('v:Obj, w:Obj', imp(v in result, "
                 "iff(w in result[v], w in G[v] and w in V)))")])

REG.fn(GR + ".union", props=["C10"], params="graphs:list[dict[Obj,set[Obj]]]",
       returns="dict[Obj,set[Obj]]",
       ensures=[("vertices", "forall('v:Obj', iff(v in result, "
                 "exists('i:int', 0 <= i and i < len(graphs) and "
                 "v in graphs[i])))"),
                ("edges", "forall('v:Obj, w:Obj', iff(adj(result, v, w), "
                 "exists('i:int', 0 <= i and i < len(graphs) and "
                 "adj(graphs[i], v, w))))")],
       locals={"out": "dict[Obj,set[Obj]]"},
       loops={1: Loop(inv=["forall('v:Obj', iff(v in out, "
                           "exists('i:int', 0 <= i and i < _k and "
                           "v in graphs[i])))",
                           "forall('v:Obj, w:Obj', iff(adj(out, v, w), "
                           "exists('i:int', 0 <= i and i < _k and "
                           "adj(graphs[i], v, w))))"]),
              2: Loop(inv=["forall('v:Obj', iff(v in out, "
                           "v in entry(out) or exists('i:int', 0 <= i and "
                           "i < _k and v == _seq[i])))",
                           "forall('v:Obj, w:Obj', iff(adj(out, v, w), "
                           "adj(entry(out), v, w) or "
                           "exists('i:int', 0 <= i and i < _k and "
                           "v == _seq[i] and w in G[v])))"])})

REG.fn(GR + ".is_independent_set", props=["C10"],
       params="V:set[Obj], G:dict[Obj,set[Obj]]", returns="bool",
       inline=[GR + ".induced_subgraph"], locals={"_out": "dict[Obj,Obj]"},
       ensures=[("no edges inside", "result == forall('v:Obj, w:Obj', "
                 "not (v in V and adj(G, v, w) and w in V), w in G[v])")],
       loops={"c1": Loop(inv=["forall('i:int, w:Obj', imp(0 <= i and i < _k "
                              "and _seq[i] in V and w in G[_seq[i]], "
                              "w not in V), w in G[_seq[i]])"]),
              "test_independent.1": Loop(inv=["_k == 0"],
                                         start="trigger(_seq[0])")})
