"""C16: strongly connected components and the condensation."""
from pydv.lib import REG, Loop
from contracts.dfs import GHOST, WHOLE

SC = "pads.strong_connectivity"
CLS = SC + ".StronglyConnectedComponents"

MAPS = ("G:dict[Obj,set[Obj]], pre:map[Obj,int], post:map[Obj,int], "
        "par:map[Obj,Obj], root:map[Obj,Obj], ev:map[Obj,map[Obj,int]]")
TREE = "treefacts(G, pre, post, par, root, ev)"

INJ = ("forall('x:Obj, z:Obj', imp(x in G and z in G and "
       "pre[x] == pre[z], x == z), (pre[x], pre[z]))")

# what the search says about first and last visits
REG.macro("treefacts", "G, pre, post, par, root, ev",
          "forall('x:Obj', imp(x in G and par[x] != x, par[x] in G and "
          "pre[par[x]] < pre[x] and x in G[par[x]] and "
          "ev[par[x]][x] == pre[x] and post[x] < post[par[x]]), par[x]) and "
          "forall('x:Obj', imp(x in G, 0 <= pre[x] and pre[x] < post[x] and "
          "root[x] == ite(par[x] == x, x, root[par[x]])), (root[x],), "
          "(par[x],)) and "
          "forall('x:Obj, y:Obj', imp(x in G and y in G and "
          "root[x] != root[y] and pre[x] < pre[y], post[x] < pre[y]), "
          "(root[x], root[y])) and "
          "forall('x:Obj, y:Obj', imp(x in G and y in G and "
          "pre[x] < pre[y], post[x] < pre[y] or post[y] < post[x]), "
          "(pre[x], pre[y])) and "
          "forall('x:Obj, w:Obj, z:Obj', imp(x in G and z in G and "
          "pre[x] < pre[z] and pre[z] < ev[x][w], post[z] < ev[x][w]), "
          "(ev[x][w], pre[z]))")

# the root of a tree is visited first and left last
REG.lemma("tree_root", MAPS + ", x:Obj",
          requires=[TREE, "x in G"],
          ensures=["root[x] in G and pre[root[x]] <= pre[x] and "
                   "post[x] <= post[root[x]] and "
                   "root[root[x]] == root[x] and par[root[x]] == root[x]"],
          decreases="pre[x]", body="""
if par[x] != x:
    tree_root(G, pre, post, par, root, ev, par[x])
""")

# parents of vertices visited during the visit of c
REG.lemma("tree_parent", MAPS + ", c:Obj, y:Obj",
          requires=[TREE, "c in G", "y in G", "pre[c] < pre[y]",
                    "pre[y] < post[c]"],
          ensures=["par[y] != y and pre[c] <= pre[par[y]] and "
                   "pre[par[y]] < post[c] and post[y] < post[c]"], body="""
tree_root(G, pre, post, par, root, ev, c)
tree_root(G, pre, post, par, root, ev, y)
trigger(ev[par[y]][y], pre[c])
""")

REG.lemma("tree_reach", MAPS + ", c:Obj, y:Obj",
          requires=[TREE, "c in G", "y in G", "pre[c] <= pre[y]",
                    "pre[y] < post[c]", INJ],
          ensures=["y in reach(G, c)"], decreases="pre[y]", body="""
reach_refl(G, c)
if y != c:
    trigger(pre[c], pre[y])
    tree_parent(G, pre, post, par, root, ev, c, y)
    tree_reach(G, pre, post, par, root, ev, c, par[y])
    reach_step(G, c, par[y], y)
""")

# low values do not decrease from the vertex being left to the later ones
TAIL = ["c in G", "y in G", "c not in done", "y not in done",
        "pre[c] <= pre[y]", "pre[y] < post[c]",
        "forall('x:Obj', imp(x in G and x not in done and x != c and "
        "pre[c] < pre[x] and pre[x] < post[c], low[par[x]] <= low[x] and "
        "par[x] not in done), par[x])",
        INJ]
LOW = ", done:set[Obj], low:dict[Obj,int], c:Obj, y:Obj"

REG.lemma("tree_low", MAPS + LOW, requires=[TREE] + TAIL,
          ensures=["low[c] <= low[y]"], decreases="pre[y]", body="""
if y != c:
    trigger(pre[c], pre[y])
    tree_parent(G, pre, post, par, root, ev, c, y)
    tree_low(G, pre, post, par, root, ev, done, low, c, par[y])
""")

REG.lemma("tree_back", MAPS + LOW + ", num:dict[Obj,int], tgt:map[Obj,Obj]",
          requires=[TREE] + TAIL + [
              "low[c] == num[c]",
              "forall('x:Obj', imp(x in G and x not in done and x != c and "
              "pre[c] < pre[x] and pre[x] < post[c], low[x] < num[x]), "
              "num[x])",
              "forall('x:Obj', imp(x in G and x not in done and "
              "pre[x] < post[c], tgt[x] in G and pre[tgt[x]] < post[c] and "
              "tgt[x] not in done and num[tgt[x]] == low[x] and "
              "tgt[x] in reach(G, x) and num[x] >= 0), tgt[x])",
              "forall('x:Obj, z:Obj', imp(x in G and z in G and "
              "pre[x] < post[c] and pre[z] < post[c], "
              "(num[x] <= num[z]) == (pre[x] <= pre[z])), "
              "(num[x], num[z]))"],
          ensures=["c in reach(G, y)"], decreases="num[y]", body="""
if y == c:
    reach_refl(G, c)
else:
    trigger(pre[c], pre[y])
    tree_low(G, pre, post, par, root, ev, done, low, c, y)
    tree_back(G, pre, post, par, root, ev, done, low, c, tgt[y], num, tgt)
    reach_via(G, y, tgt[y], c)
""")

ARGS = "G, pre, post, par, root, ev"

REG.klass("SCC", CLS, "list[dict[Obj,set[Obj]]]",
          fields="_components:list[dict[Obj,set[Obj]]]",
          temps="_dfsnumber:dict[Obj,int], _activelen:dict[Obj,int], "
          "_active:list[Obj], _low:dict[Obj,int]",
          abs="self._components")

# the component of each vertex
REG.macro("parts", "C, cno, S, G",
          "forall('x:Obj', imp(x in S, 0 <= cno[x] and cno[x] < len(C) and "
          "x in C[cno[x]]), (cno[x],)) and "
          "forall('i:int, x:Obj', imp(0 <= i and i < len(C) and x in C[i], "
          "x in S and cno[x] == i), x in C[i]) and "
          "forall('i:int', imp(0 <= i and i < len(C), "
          "exists('x:Obj', x in C[i], x in C[i])), C[i]) and "
          "forall('i:int, x:Obj, w:Obj', imp(0 <= i and i < len(C) and "
          "x in C[i], iff(w in C[i][x], w in G[x] and w in C[i])), "
          "w in C[i][x])")
REG.macro("mutual", "G, x, y", "y in reach(G, x) and x in reach(G, y)")

REG.fn(CLS + ".__init__", props=["C16"],
       params="self:SCC, G:dict[Obj,set[Obj]]",
       requires=["graph(G)", "%s not in G" % WHOLE],
       outs={"cno": "map[Obj,int]"},
       ensures=[("every vertex in one component, with the edges inside",
                 "parts(self, cno, dom(G), G)"),
                ("together exactly if each reaches the other",
                 "forall('x:Obj, y:Obj', imp(x in G and y in G, "
                 "iff(cno[x] == cno[y], mutual(G, x, y))), "
                 "(cno[x], cno[y]))")],
       ghost=dict(GHOST, cno="map[Obj,int]", tgt="map[Obj,Obj]",
                  done="set[Obj]", done0="set[Obj]", c0="Obj",
                  low0="dict[Obj,int]", act0="list[Obj]",
                  len0="dict[Obj,int]", n0="int", tail="set[Obj]"),
       loops={1: Loop(before="""
done = setof('x:Obj', False)
use("reach_refl")
use("reach_step")
use("reach_via")
forall_intro("x:Obj", x in G, root[x] in G and pre[root[x]] <= pre[x] and post[x] <= post[root[x]] and root[root[x]] == root[x] and par[root[x]] == root[x], "tree_root(G, pre, post, par, root, ev, x)", (root[x],))
assert %s
""" % INJ,
           start="""
card_subset(dom(self._dfsnumber), dom(G))
done0 = done
low0 = self._low
act0 = self._active
len0 = self._activelen
n0 = len(self._components)
c0 = _seq[_k][1]
if _seq[_k][2] == -1 and self._low[c0] == self._dfsnumber[c0]:
    tail = setof('x:Obj', x in self._dfsnumber and x not in done and pre[c0] <= pre[x])
    assert forall('x:Obj', imp(x in tail, x in G and pre[x] < post[c0]), x in tail)
    forall_intro("y:Obj", y in tail, c0 in reach(G, y) and y in reach(G, c0) and self._low[c0] <= self._low[y], "tree_low(G, pre, post, par, root, ev, done, self._low, c0, y)\\ntree_back(G, pre, post, par, root, ev, done, self._low, c0, y, self._dfsnumber, tgt)\\ntree_reach(G, pre, post, par, root, ev, c0, y)", (y in tail,))
    forall_intro("y:Obj", y in done, subset(reach(G, y), done), "reach_least(G, y, done)", (reach(G, y),))
""",
           end="""
if _seq[_k][2] == 1:
    tgt[c0] = c0
elif _seq[_k][2] == 0:
    if low0[c0] < low0[_seq[_k][0]]:
        tgt[_seq[_k][0]] = tgt[c0]
elif len(self._components) > n0:
    assert forall('x:Obj', imp(x in tail, len0[c0] <= len0[x]), x in tail)
    assert forall('x:Obj', imp(x in tail, act0[len0[x]] == x), x in tail)
    assert forall('x:Obj', imp(x in tail, act0[len0[c0]:][len0[x] - len0[c0]] == x), x in tail)
    assert forall('i:int', imp(0 <= i and i < len(act0) - len0[c0], act0[len0[c0]:][i] in tail), act0[len0[c0]:][i])
    assert forall('x:Obj', imp(x in self._components[n0], x in tail), (x in self._components[n0],))
    assert forall('x:Obj', iff(x in self._components[n0], x in tail), (x in self._components[n0],), (x in tail,))
    forall_intro("x:Obj", x in self._dfsnumber, self._low[x] == ite(x in tail, self._biglow, low0[x]), "if x in tail:\\n    assert x in self._components[n0]\\nelse:\\n    assert x not in self._components[n0]", (self._low[x],))
    done = setof('x:Obj', x in done0 or x in tail)
    cno = lam('x:Obj', ite(x in tail, n0, cno[x]))
elif low0[c0] < low0[_seq[_k][0]]:
    tgt[_seq[_k][0]] = tgt[c0]
""",
           inv=[
               ("visited so far", "forall('x:Obj', iff(x in "
                "self._dfsnumber, x in G and pre[x] < _k), "
                "(x in self._dfsnumber,), (pre[x],))"),
               ("same keys", "dom(self._low) == dom(self._dfsnumber) and "
                "dom(self._activelen) == dom(self._dfsnumber)"),
               ("numbers", "forall('x:Obj', imp(x in self._dfsnumber, "
                "0 <= self._dfsnumber[x] and self._dfsnumber[x] < "
                "len(self._dfsnumber)), self._dfsnumber[x])"),
               "self._biglow == card(dom(G))",
               ("numbers in order of first visits",
                "forall('x:Obj, y:Obj', imp(x in self._dfsnumber and "
                "y in self._dfsnumber, (self._dfsnumber[x] < "
                "self._dfsnumber[y]) == (pre[x] < pre[y])), "
                "(self._dfsnumber[x], self._dfsnumber[y]))"),
               ("active vertices", "forall('i:int', imp(0 <= i and "
                "i < len(self._active), self._active[i] in "
                "self._dfsnumber and self._active[i] not in done and "
                "self._activelen[self._active[i]] == i), "
                "self._active[i])"),
               ("vertices without component are active",
                "forall('x:Obj', imp(x in self._dfsnumber and x not in "
                "done, 0 <= self._activelen[x] and self._activelen[x] < "
                "len(self._active) and "
                "self._active[self._activelen[x]] == x), "
                "self._activelen[x])"),
               ("active in order of first visits",
                "forall('i:int, j:int', imp(0 <= i and i < j and "
                "j < len(self._active), pre[self._active[i]] < "
                "pre[self._active[j]]), "
                "(self._active[i], self._active[j]))"),
               ("active vertices are in the open tree",
                "forall('x:Obj', imp(x in self._dfsnumber and x not in "
                "done, post[root[x]] >= _k), (root[x],), "
                "(self._activelen[x],))"),
               ("vertices with a component", "forall('x:Obj', imp(x in "
                "done, x in self._dfsnumber and self._low[x] == "
                "self._biglow and post[x] < _k), x in done)"),
               ("low values", "forall('x:Obj', imp(x in self._dfsnumber "
                "and x not in done, self._low[x] <= self._dfsnumber[x] and "
                "self._dfsnumber[tgt[x]] == self._low[x]), (tgt[x],), "
                "(self._low[x],))"),
               ("low vertices are active", "forall('x:Obj', imp(x in "
                "self._dfsnumber and x not in done, tgt[x] in "
                "self._dfsnumber and tgt[x] not in done), (tgt[x],), "
                "(self._low[x],))"),
               ("low vertices are reachable", "forall('x:Obj', imp(x in "
                "self._dfsnumber and x not in done, tgt[x] in "
                "reach(G, x)), (tgt[x],), (self._low[x],))"),
               ("vertices left without component", "forall('x:Obj', imp("
                "x in self._dfsnumber and x not in done and "
                "post[x] < _k, self._low[x] < self._dfsnumber[x] and "
                "par[x] not in done and par[x] != x and "
                "self._low[par[x]] <= self._low[x]), "
                "(par[x],), (post[x],))"),
               ("edges seen so far", "forall('x:Obj, w:Obj', imp("
                "x in self._dfsnumber and w in G[x] and ev[x][w] < _k and "
                "x not in done and w not in done, self._low[x] <= "
                "self._dfsnumber[w]), (ev[x][w],), (x in self._dfsnumber, w in G[x]))"),
               ("components have no way out", "forall('x:Obj, w:Obj', "
                "imp(x in done and w in G[x], w in done), "
                "(x in done, w in G[x]))"),
               ("components", "parts(self._components, cno, done, G)"),
               ("mutually reachable vertices", "forall('x:Obj, y:Obj', "
                "imp(x in done and y in done, iff(cno[x] == cno[y], "
                "mutual(G, x, y))), (cno[x], cno[y]))"),
           ]),
           "postorder.1": Loop(inv=[
               "dom(self._low) == dom(self._dfsnumber)",
               "forall('x:Obj', imp(x in self._dfsnumber, "
               "self._low[x] == ite(exists('i:int', 0 <= i and i < _k and "
               "_seq[i] == x, _seq[i]), self._biglow, low0[x])), "
               "self._low[x])"], exit="""
assert forall('x:Obj', imp(x in self._dfsnumber, self._low[x] == ite(x in self._components[n0], self._biglow, low0[x])), self._low[x])
""")})

REG.fn(CLS + ".__iter__", props=["C16"], params="self:SCC",
       returns="iter[dict[Obj,set[Obj]]]",
       ensures=["seqof(result) == self and posof(result) == 0"])

REG.fn(CLS + ".__len__", props=["C16"], params="self:SCC", returns="int",
       ensures=["result == len(self)"])

CLASSES = [
    "forall('x:Obj', imp(x in GtoC, isfset(GtoC[x]) and "
    "GtoC[x] in components and x in members(GtoC[x])), GtoC[x])",
    "forall('x:Obj, y:Obj', imp(x in GtoC, iff("
    "y in members(GtoC[x]), y in G and cno[x] == cno[y])), "
    "y in members(GtoC[x]))",
    "forall('x:Obj, y:Obj', imp(x in GtoC and y in GtoC and "
    "cno[x] == cno[y], GtoC[x] == GtoC[y]), (GtoC[x], GtoC[y]))"]

EDGES = [
    "dom(components) == keys",
    "forall('c:Obj, d:Obj', imp(c in components and d in components[c], "
    "c != d and exists('x:Obj, w:Obj', x in G and w in G[x] and "
    "GtoC[x] == c and GtoC[w] == d, (GtoC[x], w in G[x]))), "
    "d in components[c])"]

REG.fn(SC + ".Condensation", props=["C16"],
       params="G:dict[Obj,set[Obj]]", returns="dict[Obj,set[Obj]]",
       requires=["graph(G)", "%s not in G" % WHOLE],
       outs={"comp": "map[Obj,Obj]"},
       ensures=[("a component of every vertex", "forall('x:Obj', imp("
                 "x in G, comp[x] in result and isfset(comp[x]) and "
                 "x in members(comp[x])), comp[x])"),
                ("only components", "forall('c:Obj', imp(c in result, "
                 "isfset(c) and exists('x:Obj', x in G and comp[x] == c, "
                 "comp[x])), c in result)"),
                ("components are mutual reachability classes",
                 "forall('x:Obj, y:Obj', imp(x in G, iff("
                 "y in members(comp[x]), y in G and mutual(G, x, y))), "
                 "y in members(comp[x]))"),
                ("different components are different sets",
                 "forall('x:Obj, y:Obj', imp(x in G and y in G, "
                 "iff(comp[x] == comp[y], mutual(G, x, y))), "
                 "(comp[x], comp[y]))"),
                ("edges between components", "forall('c:Obj, d:Obj', imp("
                 "c in result, iff(d in result[c], c != d and "
                 "exists('x:Obj, w:Obj', x in G and w in G[x] and "
                 "comp[x] == c and comp[w] == d, "
                 "(comp[x], w in G[x])))), d in result[c])")],
       ghost={"cno": "map[Obj,int]", "comp": "map[Obj,Obj]",
              "g0": "dict[Obj,Obj]", "keys": "set[Obj]"},
       locals={"components": "dict[Obj,set[Obj]]", "GtoC": "dict[Obj,Obj]"},
       exit="comp = lam('x:Obj', GtoC[x])",
       loops={1: Loop(start="g0 = GtoC", inv=[
           "forall('x:Obj', iff(x in GtoC, x in G and cno[x] < _k), "
           "(x in GtoC,))"] + CLASSES + [
           "forall('c:Obj', imp(c in components, isfset(c) and "
           "exists('x:Obj', x in GtoC and GtoC[x] == c, GtoC[x])), "
           "c in components)",
           "forall('c:Obj, d:Obj', imp(c in components, "
           "d not in components[c]), d in components[c])"],
           end="""
assert forall('x:Obj', imp(x in members(C), cno[x] == _k and GtoC[x] == C), x in members(C))
assert exists('x:Obj', x in members(C), x in members(C))
"""),
           2: Loop(before="assert forall('x:Obj', iff(x in members(C), "
                   "x in G and cno[x] == _k1), x in members(C))", inv=[
               "forall('x:Obj', iff(x in GtoC, x in G and cno[x] < _k1 or "
               "exists('i:int', 0 <= i and i < _k and _seq[i] == x, "
               "_seq[i])), (x in GtoC,))",
               "forall('x:Obj', imp(x in GtoC, GtoC[x] == "
               "ite(cno[x] < _k1, g0[x], C)), GtoC[x])"]),
           3: Loop(before="keys = dom(components)", inv=EDGES + [
               "forall('i:int, w:Obj', imp(0 <= i and i < _k and "
               "w in G[_seq[i]] and GtoC[_seq[i]] != GtoC[w], "
               "GtoC[w] in components[GtoC[_seq[i]]]), "
               "w in G[_seq[i]])"]),
           4: Loop(inv=EDGES + [
               "forall('i:int, w:Obj', imp(0 <= i and i < _k3 and "
               "w in G[_seq3[i]] and GtoC[_seq3[i]] != GtoC[w], "
               "GtoC[w] in components[GtoC[_seq3[i]]]), "
               "w in G[_seq3[i]])",
               "forall('i:int', imp(0 <= i and i < _k and GtoC[v] != "
               "GtoC[_seq[i]], GtoC[_seq[i]] in components[GtoC[v]]), "
               "_seq[i])"]),
       })
