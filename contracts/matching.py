"""C19: bipartite matching and independent sets."""
from pydv.lib import REG, Loop
import contracts.mst

BM = "pads.bipartite_matching.matching"

# M maps vertices of the right side to different neighbours on the left
REG.macro("ismatch", "G, M", "forall('v:Obj', imp(v in M, M[v] in G and "
          "v in G[M[v]]), (v in M,), (M[v],)) and forall('v:Obj, w:Obj', "
          "imp(v in M and w in M and M[v] == M[w], v == w), (M[v], M[w]))")

REG.fun("rights", "G:dict[Obj,set[Obj]]", "set[Obj]",
        "setof('v:Obj', exists('u:Obj', u in G and v in G[u], v in G[u]))")

REG.macro("indep", "G, A, B", "forall('u:Obj, v:Obj', imp(u in A and "
          "u in G and v in G[u], v not in B), v in G[u])")

REG.lemma("cover", "D:set[Obj], m:map[Obj,Obj], P:set[Obj], C:set[Obj]",
          requires=["forall('v:Obj', imp(v in D, m[v] in P or v in C), "
                    "v in D)",
                    "forall('v:Obj, w:Obj', imp(v in D and w in D and "
                    "m[v] == m[w], v == w), (m[v], m[w]))"],
          ensures=["card(D) <= card(P) + card(C)"], decreases="card(D)",
          body="""
if card(D) > 0:
    obtain("x:Obj", x in D)
    if x in C:
        cover(without(D, x), m, P, without(C, x))
    else:
        cover(without(D, x), m, without(P, m[x]), C)
""")

REG.lemma("card_split", "V:set[Obj], P:set[Obj]",
          requires=["subset(P, V)"],
          ensures=["card(V - P) == card(V) - card(P)"], decreases="card(P)",
          body="""
if card(P) > 0:
    obtain("x:Obj", x in P)
    card_split(V, without(P, x))
    assert same(V - P, without(V - without(P, x), x))
else:
    card_subset(P, emptyset('Obj'))
    assert same(V - P, V)
""")

# no matching is larger than a set of vertices meeting all edges
REG.lemma("duality", "G:dict[Obj,set[Obj]], M:dict[Obj,Obj], A:set[Obj], "
          "B:set[Obj]",
          requires=["ismatch(G, M)", "indep(G, A, B)", "subset(A, dom(G))",
                    "subset(B, rights(G))"],
          ensures=["card(dom(M)) + card(A) + card(B) <= card(dom(G)) + "
                   "card(rights(G))"], body="""
unfold(rights(G))
card_split(dom(G), A)
card_split(rights(G), B)
cover(dom(M), vals(M), dom(G) - A, rights(G) - B)
""")

# u in pred: free, or matched with pred[u]
REG.macro("tops", "G, M, pred, tok, lv, lu",
          "forall('u:Obj', imp(u in pred, u in G and ite(pred[u] == tok, "
          "forall('x:Obj', imp(x in M, M[x] != u), M[x]), "
          "pred[u] in M and M[pred[u]] == u and lv[pred[u]] == lu[u])), "
          "(u in pred,), (pred[u],))")

# preds: neighbours in the layer before
REG.macro("bottoms", "G, preds, lv, lu",
          "forall('w:Obj, i:int', imp(w in preds and 0 <= i and "
          "i < len(preds[w]), preds[w][i] in G and w in G[preds[w][i]] and "
          "lu[preds[w][i]] == lv[w] - 1), preds[w][i])")

# the layers up to a level are complete
REG.macro("whole", "preds, pred, tok, lv, lu, n",
          "forall('w:Obj', imp(w in preds and lv[w] <= n, "
          "len(preds[w]) > 0), (w in preds,), (len(preds[w]),)) and "
          "forall('w:Obj, i:int', imp(w in preds and lv[w] <= n and 0 <= i "
          "and i < len(preds[w]), preds[w][i] in pred), preds[w][i]) and "
          "forall('u:Obj', imp(u in pred and lu[u] <= n and "
          "pred[u] != tok, pred[u] in preds), (u in pred,), (pred[u],))")

REG.macro("within", "D, E", "forall('x:Obj', imp(x in D, x in E and "
          "D[x] == E[x]), (x in D,), (D[x],))")

STATE = "graph, matching, pred, ident(unmatched), lv, lu"

REG.fn(BM + ".recurse", props=["C19"], params="v:Obj", returns="bool",
       captures="graph:dict[Obj,set[Obj]], matching:dict[Obj,Obj], "
       "preds:dict[Obj,list[Obj]], pred:dict[Obj,Obj], "
       "unmatched:list[Obj], lv:map[Obj,int], lu:map[Obj,int]",
       marks=True, modifies=["matching", "preds", "pred"],
       requires=["ismatch(graph, matching)", "tops(%s)" % STATE,
                 "bottoms(graph, preds, lv, lu)",
                 "v not in matching or matching[v] not in pred"],
       ensures=[
           ("a matching", "ismatch(graph, matching)"),
           ("tops", "tops(%s)" % STATE),
           ("visited parts are removed", "within(pred, old(pred)) and "
            "within(preds, old(preds)) and len(preds) <= len(old(preds))"),
           ("changes", "forall('x:Obj', imp(x in matching, x in old(matching) "
            "and matching[x] == old(matching)[x] or "
            "matching[x] in old(pred) and matching[x] not in pred and "
            "(x not in old(matching) or old(matching)[x] not in pred)), "
            "(x in matching,), (matching[x],))"),
           ("success", "ite(result, v in matching and matching[v] in "
            "old(pred) and same(dom(matching), store(dom(old(matching)), v, "
            "True)), matching == old(matching))"),
           ("progress", "imp(old(v in preds and "
            "whole(preds, pred, ident(unmatched), lv, lu, lv[v])), result)")],
       decreases="len(preds)",
       loops={1: Loop(inv=[
           "matching == old(matching)",
           "within(pred, old(pred)) and within(preds, old(preds))",
           "tops(%s)" % STATE, "len(preds) < len(old(preds))",
           "v not in preds",
           "imp(old(whole(preds, pred, ident(unmatched), lv, lu, lv[v])), "
           "_k == 0 and whole(preds, pred, ident(unmatched), lv, lu, "
           "lv[v] - 1) and forall('i:int', imp(0 <= i and i < len(L), "
           "L[i] in pred), L[i]) and len(L) > 0)"])})

LAYERS = [
    "forall('u:Obj', imp(u in pred, u in graph and ite(pred[u] == "
    "ident(unmatched), lu[u] == 0 and forall('x:Obj', imp(x in matching, "
    "matching[x] != u), matching[x]), pred[u] in matching and "
    "matching[pred[u]] == u and lv[pred[u]] == lu[u] and "
    "pred[u] in preds)), (u in pred,), (pred[u],))",
    "forall('w:Obj, i:int', imp(w in preds and 0 <= i and "
    "i < len(preds[w]), preds[w][i] in graph and w in graph[preds[w][i]] and "
    "lu[preds[w][i]] == lv[w] - 1 and preds[w][i] in pred), preds[w][i])",
    "forall('w:Obj', imp(w in preds, len(preds[w]) > 0 and "
    "w in rights(graph) and ite(w in matching, matching[w] in pred, "
    "w in unmatched)), (w in preds,))",
    "forall('i:int', imp(0 <= i and i < len(unmatched), unmatched[i] in "
    "preds and unmatched[i] not in matching), unmatched[i])",
    "forall('i:int, j:int', imp(0 <= i and i < j and j < len(unmatched), "
    "unmatched[i] != unmatched[j]), (unmatched[i], unmatched[j]))",
    "forall('u:Obj', imp(u in graph and u not in pred, exists('x:Obj', "
    "x in matching and matching[x] == u, matching[x])), (u in pred,))",
]

REG.fn(BM, props=["C19"], params="graph:dict[Obj,set[Obj]]", marks=True,
       returns="tuple[dict[Obj,Obj],list[Obj],list[Obj]]",
       requires=["forall('u:Obj, v:Obj', imp(u in graph and v in graph[u], "
                 "not listobj(v)), v in graph[u])"],
       ensures=[
           ("a matching of the graph", "ismatch(graph, result[0])"),
           ("no matching is larger", "forall('m:dict[Obj,Obj]', imp("
            "ismatch(graph, m), len(m) <= len(result[0])))"),
           ("vertices of the two sides, each once",
            "forall('i:int', imp(0 <= i and i < len(result[1]), "
            "result[1][i] in graph), result[1][i]) and "
            "forall('i:int', imp(0 <= i and i < len(result[2]), "
            "result[2][i] in rights(graph)), result[2][i]) and "
            "forall('i:int, j:int', imp(0 <= i and i < j and "
            "j < len(result[1]), result[1][i] != result[1][j]), "
            "(result[1][i], result[1][j])) and "
            "forall('i:int, j:int', imp(0 <= i and i < j and "
            "j < len(result[2]), result[2][i] != result[2][j]), "
            "(result[2][i], result[2][j]))"),
           ("no edges between them", "forall('i:int, j:int', imp(0 <= i and "
            "i < len(result[1]) and 0 <= j and j < len(result[2]), "
            "result[2][j] not in graph[result[1][i]]), "
            "(result[1][i], result[2][j]))"),
           ("as large as the rest of the vertices", "len(result[0]) + "
            "len(result[1]) + len(result[2]) == card(dom(graph)) + "
            "card(rights(graph))"),
           ("no independent set is larger", "forall('A:set[Obj], "
            "B:set[Obj]', imp(subset(A, dom(graph)) and subset(B, "
            "rights(graph)) and indep(graph, A, B), card(A) + card(B) <= "
            "len(result[1]) + len(result[2])), (card(A), card(B)))")],
       locals={"matching": "dict[Obj,Obj]", "preds": "dict[Obj,list[Obj]]",
               "unmatched": "list[Obj]", "pred": "dict[Obj,Obj]",
               "_comp": "dict[Obj,Obj]", "newLayer": "dict[Obj,list[Obj]]",
               "layer": "list[Obj]", "unlayered": "dict[Obj,Obj]"},
       ghost={"lv": "map[Obj,int]", "lu": "map[Obj,int]", "n": "int",
              "m0": "int", "p0": "dict[Obj,list[Obj]]", "A": "set[Obj]",
              "B": "set[Obj]"},
       entry="unfold(rights(graph))",
       loops={
           1: Loop(inv=["ismatch(graph, matching)",
                        "forall('v:Obj', imp(v in matching, exists('i:int', "
                        "0 <= i and i < _k and _seq[i] == matching[v], "
                        "_seq[i])), matching[v])"]),
           2: Loop(inv=["matching == entry(matching)"]),
           3: Loop(inv=["ismatch(graph, matching)"],
                   start="""
cover(dom(matching), vals(matching), dom(graph), emptyset('Obj'))
""",
                   decreases="card(dom(graph)) - len(matching)"),
           4: Loop(inv=[
               "forall('u:Obj', imp(u in pred, u in graph and "
               "pred[u] == ident(unmatched)), (u in pred,), (pred[u],))",
               "forall('i:int', imp(0 <= i and i < _k, "
               "matching[_seq[i]] not in pred), _seq[i])",
               "forall('u:Obj', imp(u in graph and u not in pred, "
               "exists('i:int', 0 <= i and i < _k and matching[_seq[i]] == "
               "u, _seq[i])), (u in pred,))"]),
           5: Loop(before="lu = lam('x:Obj', 0)\nn = 0", inv=LAYERS + [
               "n >= 0",
               "forall('i:int', imp(0 <= i and i < len(layer), "
               "layer[i] in pred and lu[layer[i]] == n), layer[i])",
               "forall('u:Obj, v:Obj', imp(u in pred and v in graph[u] and "
               "v not in preds, u in layer), (v in graph[u],))"],
               decreases="2 * (card(rights(graph)) - len(preds)) + "
               "ite(len(layer) > 0, 1, 0)",
               start="p0 = preds\ncard_subset(dom(preds), rights(graph))",
               end="""
n = n + 1
card_subset(dom(preds), rights(graph))
"""),
           6: Loop(inv=[
               "forall('w:Obj', imp(w in newLayer, w not in preds and "
               "w in rights(graph) and not listobj(w) and "
               "len(newLayer[w]) > 0), (w in newLayer,))",
               "forall('w:Obj, i:int', imp(w in newLayer and 0 <= i and "
               "i < len(newLayer[w]), newLayer[w][i] in layer and "
               "newLayer[w][i] in graph and "
               "w in graph[newLayer[w][i]]), newLayer[w][i])",
               "forall('i:int, v:Obj', imp(0 <= i and i < _k and "
               "v in graph[_seq[i]], v in preds or v in newLayer), "
               "v in graph[_seq[i]])"]),
           7: Loop(inv=[
               "forall('w:Obj', imp(w in newLayer, w not in preds and "
               "w in rights(graph) and not listobj(w) and "
               "len(newLayer[w]) > 0), (w in newLayer,))",
               "forall('w:Obj, i:int', imp(w in newLayer and 0 <= i and "
               "i < len(newLayer[w]), newLayer[w][i] in layer and "
               "newLayer[w][i] in graph and "
               "w in graph[newLayer[w][i]]), newLayer[w][i])",
               "forall('w:Obj', imp(w in entry(newLayer), w in newLayer), "
               "w in entry(newLayer))",
               "forall('i:int', imp(0 <= i and i < _k, _seq[i] in preds or "
               "_seq[i] in newLayer), _seq[i])"]),
           8: Loop(inv=LAYERS + [
               "forall('i:int', imp(0 <= i and i < _k, _seq[i] in preds), "
               "_seq[i])",
               "forall('i:int', imp(_k <= i and i < len(_seq), "
               "_seq[i] not in preds), _seq[i])",
               "len(preds) == len(p0) + _k", "len(layer) <= _k",
               "forall('w:Obj', imp(w in newLayer, w in rights(graph) and "
               "not listobj(w) and len(newLayer[w]) > 0), (w in newLayer,))",
               "forall('w:Obj, i:int', imp(w in newLayer and 0 <= i and "
               "i < len(newLayer[w]), newLayer[w][i] in pred and "
               "lu[newLayer[w][i]] == n and newLayer[w][i] in graph and "
               "w in graph[newLayer[w][i]]), newLayer[w][i])",
               "forall('i:int', imp(0 <= i and i < len(layer), "
               "layer[i] in pred and lu[layer[i]] == n + 1), layer[i])",
               "forall('u:Obj, v:Obj', imp(u in pred and v in graph[u] and "
               "v not in preds and v not in newLayer, u in layer), "
               "(v in graph[u],))"],
               start="""
if v in matching:
    assert matching[v] not in pred
    lu[matching[v]] = n + 1
lv[v] = n + 1
"""),
           9: Loop(inv=[
               "forall('w:Obj', imp(w in unlayered, w in rights(graph) and "
               "w not in preds), (w in unlayered,))",
               "forall('i:int, v:Obj', imp(0 <= i and i < _k and "
               "v in graph[_seq[i]], v in preds or v in unlayered), "
               "v in graph[_seq[i]])"]),
           10: Loop(inv=[
               "forall('w:Obj', imp(w in unlayered, w in rights(graph) and "
               "w not in preds), (w in unlayered,))",
               "forall('w:Obj', imp(w in entry(unlayered), "
               "w in unlayered), w in entry(unlayered))",
               "forall('i:int', imp(0 <= i and i < _k, _seq[i] in preds or "
               "_seq[i] in unlayered), _seq[i])"]),
           11: Loop(before="m0 = len(matching)", inv=[
               "ismatch(graph, matching)", "tops(%s)" % STATE,
               "bottoms(graph, preds, lv, lu)",
               "forall('i:int', imp(_k <= i and i < len(unmatched), "
               "unmatched[i] not in matching), unmatched[i])",
               "ite(_k == 0, len(matching) == m0 and "
               "unmatched[0] in preds and whole(preds, pred, "
               "ident(unmatched), lv, lu, lv[unmatched[0]]), "
               "len(matching) > m0)"]),
       },
       exit="""
card_split(dom(graph), dom(pred))
assert same(rights(graph) - dom(unlayered), dom(preds))
card_split(rights(graph), dom(unlayered))
unfold(image(vals(matching), dom(matching) - dom(preds)))
image_card(vals(matching), dom(matching) - dom(preds))
card_split(dom(matching), dom(preds))
card_subset(dom(graph) - dom(pred), image(vals(matching), dom(matching) - dom(preds)))
duality(graph, matching, dom(pred), dom(unlayered))
forall_intro("m:dict[Obj,Obj]", ismatch(graph, m), len(m) <= len(matching), "duality(graph, m, dom(pred), dom(unlayered))")
forall_intro("A:set[Obj], B:set[Obj]", subset(A, dom(graph)) and subset(B, rights(graph)) and indep(graph, A, B), card(A) + card(B) <= len(result[1]) + len(result[2]), "duality(graph, matching, A, B)", (card(A), card(B)))
""")
