"""C13, C14: topological orders, reachability and transitive closure."""
from pydv.lib import REG, Loop
from contracts.dfs import WHOLE

PO = "pads.partial_order"

# L lists every vertex once and every edge goes forward
REG.macro("istopo", "G, L",
          "forall('i:int', imp(0 <= i and i < len(L), L[i] in G), L[i]) and "
          "forall('i:int, j:int', imp(0 <= i and i < j and j < len(L), "
          "L[i] != L[j]), (L[i], L[j])) and "
          "forall('v:Obj', imp(v in G, exists('i:int', 0 <= i and "
          "i < len(L) and L[i] == v, L[i])), v in G) and "
          "forall('i:int, j:int', imp(0 <= i and i < len(L) and 0 <= j and "
          "j < len(L) and L[j] in G[L[i]], i < j), (L[i], L[j]))")

# there is a directed cycle
REG.macro("cyclic", "G", "exists('v:Obj, w:Obj', v in G and w in G[v] and "
          "v in reach(G, w), (reach(G, w), w in G[v]))")

REG.lemma("topo_acyclic", "G:dict[Obj,set[Obj]], L:list[Obj], a:int, b:int",
          requires=["graph(G)", "istopo(G, L)", "0 <= a", "a < len(L)",
                    "0 <= b", "b < len(L)", "L[b] in G[L[a]]"],
          ensures=["L[a] not in reach(G, L[b])"], body="""
reach_least(G, L[b], setof('x:Obj', exists('i:int', b <= i and i < len(L) and L[i] == x, L[i])))
""")

REG.fn(PO + ".isTopologicalOrder", props=["C13"],
       params="G:dict[Obj,set[Obj]], L:list[Obj]", returns="bool",
       requires=["graph(G)"],
       ensures=[("orders all vertices with edges going forward",
                 "iff(result, istopo(G, L))")],
       locals={"vnum": "dict[Obj,int]"},
       loops={1: Loop(inv=["forall('j:int', imp(0 <= j and j < _k, "
                           "L[j] in G and L[j] in vnum and "
                           "vnum[L[j]] == j), L[j])",
                           "forall('v:Obj', imp(v in vnum, 0 <= vnum[v] and "
                           "vnum[v] < _k and L[vnum[v]] == v), v in vnum)"]),
              2: Loop(inv=["forall('j:int, w:Obj', imp(0 <= j and j < _k, "
                           "_seq[j] in vnum and imp(w in G[_seq[j]], "
                           "w in vnum and vnum[_seq[j]] < vnum[w])), "
                           "(_seq[j], w in G[_seq[j]]))",
                           "forall('j:int', imp(0 <= j and j < _k, "
                           "_seq[j] in vnum), _seq[j])"]),
              3: Loop(inv=["forall('j:int', imp(0 <= j and j < _k, "
                           "_seq[j] in vnum and vnum[v] < vnum[_seq[j]]), "
                           "_seq[j])"])})

# acyclic exactly if the reversed postorder is a topological order
REG.lemma("postorder_topo", "G:dict[Obj,set[Obj]], P:list[Obj], "
          "L:list[Obj], pos:map[Obj,int]",
          requires=["graph(G)", "len(P) == len(L)",
                    "forall('i:int', imp(0 <= i and i < len(L), "
                    "L[i] == P[len(L) - 1 - i]), L[i])",
                    "forall('i:int', imp(0 <= i and i < len(P), P[i] in G "
                    "and pos[P[i]] == i), P[i])",
                    "forall('x:Obj', imp(x in G, 0 <= pos[x] and pos[x] < "
                    "len(P) and P[pos[x]] == x), pos[x])",
                    "forall('x:Obj, w:Obj', imp(x in G and w in G[x], "
                    "pos[w] < pos[x] or x in reach(G, w)), "
                    "(pos[x], w in G[x]))"],
          ensures=["iff(istopo(G, L), not cyclic(G))"], body="""
forall_intro("v:Obj, w:Obj", istopo(G, L) and v in G and w in G[v], v not in reach(G, w), "topo_acyclic(G, L, len(L) - 1 - pos[v], len(L) - 1 - pos[w])")
forall_intro("v:Obj", v in G, exists('i:int', 0 <= i and i < len(L) and L[i] == v, L[i]), "trigger(L[len(L) - 1 - pos[v]])")
if istopo(G, L):
    pass
else:
    pass
""")

REVERSED = {"isTopologicalOrder": "postorder_topo(G, rev(L), L, pos)"}

REG.fn(PO + ".TopologicalOrder", props=["C13"],
       params="G:dict[Obj,set[Obj]]", returns="list[Obj]",
       requires=["graph(G)", "%s not in G" % WHOLE],
       ensures=[("every vertex once with edges going forward",
                 "istopo(G, result)")],
       raises={"ValueError": "cyclic(G)"}, ghost={"pos": "map[Obj,int]"},
       after=REVERSED)

REG.fn(PO + ".isAcyclic", props=["C13"],
       params="G:dict[Obj,set[Obj]]", returns="bool",
       requires=["graph(G)", "%s not in G" % WHOLE],
       ensures=[("no directed cycle", "result == (not cyclic(G))")],
       ghost={"pos": "map[Obj,int]"}, after=REVERSED)

# the first step of a path
REG.lemma("reach_first", "G:dict[Obj,set[Obj]], v:Obj, x:Obj",
          requires=["v in G"],
          ensures=["iff(x in reach(G, v), x == v or exists('w:Obj', "
                   "w in G[v] and x in reach(G, w), reach(G, w)))"],
          pattern="x in reach(G, v)", body="""
use("reach_refl")
use("reach_step")
use("reach_via")
reach_least(G, v, setof('y:Obj', y == v or exists('w:Obj', w in G[v] and y in reach(G, w), reach(G, w))))
""")

REG.fn(PO + ".TransitiveClosure", props=["C14"],
       params="G:dict[Obj,set[Obj]]", returns="dict[Obj,set[Obj]]",
       requires=["graph(G)", "%s not in G" % WHOLE],
       ensures=[("same vertices", "dom(result) == dom(G)"),
                ("the other reachable vertices",
                 "forall('v:Obj, w:Obj', imp(v in G, iff(w in result[v], "
                 "w != v and w in reach(G, v))), w in result[v])"),
                ("ends of nonempty paths in an acyclic graph",
                 "imp(not cyclic(G), forall('v:Obj, w:Obj', imp(v in G, "
                 "iff(w in result[v], exists('u:Obj', u in G[v] and "
                 "w in reach(G, u), reach(G, u)))), w in result[v]))")],
       locals={"_out": "dict[Obj,set[Obj]]"}, ghost={"pos": "map[Obj,int]"},
       after={"preorder": """
assert forall('x:Obj', imp(x in reach(G, initial_vertex), 0 <= pos[x] and pos[x] < len(result) and result[pos[x]] == x), x in reach(G, initial_vertex))
"""},
       exit="""
use("reach_refl")
use("reach_first")
""",
       loops={"c1": Loop(inv=["forall('v:Obj', iff(v in _out, "
                              "exists('i:int', 0 <= i and i < _k and "
                              "_seq[i] == v, _seq[i])), v in _out)",
                              "forall('v:Obj, x:Obj', imp(v in _out, "
                              "iff(x in _out[v], x in reach(G, v))), "
                              "x in _out[v])"]),
              1: Loop(inv=["dom(TC) == dom(G)",
                           "forall('v:Obj, w:Obj', imp(v in G, "
                           "iff(w in TC[v], w in reach(G, v) and not ("
                           "w == v and exists('i:int', 0 <= i and i < _k "
                           "and _seq[i] == v, _seq[i])))), w in TC[v])"],
                      before='use("reach_refl")')})

RE = "pads.acyclic_reachability.Reachability"

# seen from outside: the vertices reachable from every vertex
REG.klass("Reachability", RE, "dict[Obj,set[Obj]]",
          fields="key:dict[Obj,int], canReach:list[int]",
          ghost="R:dict[Obj,set[Obj]]", abs="self.R",
          inv=["dom(self.R) == dom(self.key)",
               "forall('v:Obj', imp(v in self.key, 0 <= self.key[v] and "
               "self.key[v] < len(self.canReach)), self.key[v])",
               "forall('v:Obj, w:Obj', imp(v in self.key and w in self.key, "
               "iff(w in self.R[v], bit(self.canReach[self.key[v]], "
               "self.key[w]))), w in self.R[v])"])

REG.fn(RE + ".__init__", props=["C14"],
       params="self:Reachability, G:dict[Obj,set[Obj]]",
       requires=["graph(G)", "%s not in G" % WHOLE],
       raises={"ValueError": "cyclic(G)"},
       ensures=[("vertices", "dom(self) == dom(G)"),
                ("reachable vertices", "forall('v:Obj, w:Obj', imp(v in G, "
                 "iff(w in self[v], w in reach(G, v))), w in self[v])")],
       ghost={"T": "list[Obj]"},
       after={"TopologicalOrder": "T = result"},
       exit="self.R = mkdict(dom(G), lam('v:Obj', reach(G, v)))",
       loops={1: Loop(before='use("reach_refl")\nuse("reach_first")', inv=[
           "L == rev(T)",
           "len(self.canReach) == _k",
           "forall('v:Obj', iff(v in self.key, exists('i:int', 0 <= i and "
           "i < _k and L[i] == v, L[i])), v in self.key)",
           "forall('i:int', imp(0 <= i and i < _k, self.key[L[i]] == i and "
           "self.canReach[i] >= 0), L[i])",
           "forall('x:Obj, y:Obj', imp(x in self.key and y in reach(G, x), "
           "y in self.key), y in reach(G, x))",
           "forall('i:int, j:int', imp(0 <= i and i < _k and 0 <= j, "
           "iff(bit(self.canReach[i], j), j < _k and "
           "L[j] in reach(G, L[i]))), bit(self.canReach[i], j))"],
           end="""
assert forall('w:Obj', imp(w in G[v], w in self.key and self.key[w] < _k), w in G[v])
assert forall('x:Obj', imp(x in reach(G, v), x in self.key), x in reach(G, v))
"""),
           2: Loop(before="""
forall_intro("w:Obj", w in G[v], exists('i:int', 0 <= i and i < _k1 and L[i] == w, L[i]), "obtain('q:int', 0 <= q and q < len(T) and T[q] == w, T[q])\\ntrigger(L[len(T) - 1 - q])\\ntrigger(T[len(T) - 1 - _k1])\\nassert L[len(T) - 1 - q] == w\\nassert len(T) - 1 - q < _k1")
""", inv=[
               "bits >= 0",
               "forall('j:int', imp(0 <= j, iff(bit(bits, j), j == k or "
               "exists('i:int', 0 <= i and i < _k and "
               "bit(self.canReach[self.key[_seq[i]]], j), _seq[i]))), "
               "bit(bits, j))"])})

# testing one bit
REG.lemma("and_bit", "x:int, k:int", requires=["0 <= k"],
          ensures=["iff((1 << k) & x != 0, bit(x, k))"], body="""
d = diffbit((1 << k) & x, 0)
trigger(bit((1 << k) & x, k), bit(0, k))
if (1 << k) & x != 0:
    assert bit((1 << k) & x, d)
    assert bit(1 << k, d)
    assert d == k
""")

REG.fn(RE + ".reachable", props=["C14"],
       params="self:Reachability, source:Obj, destination:Obj",
       returns="bool",
       raises={"KeyError": "source not in self or destination not in self"},
       ensures=[("a directed path leads there",
                 "result == (destination in self[source])")],
       exit="""
and_bit(self.canReach[self.key[source]], self.key[destination])
assert bit(self.canReach[self.key[source]], self.key[destination]) == (destination in self[source])
""")
