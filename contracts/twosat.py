"""C17: 2-satisfiability."""
from pydv.lib import REG, Loop
from contracts.dfs import WHOLE

TS = "pads.two_satisfiability"
G_ = "G:dict[Obj,set[Obj]]"
H_ = "H:dict[Obj,set[Obj]]"
C_ = "C:dict[Obj,set[Obj]]"
B_ = "B:map[Obj,bool]"

# the literals of an instance: its vertices, implicants and their negations
REG.macro("named", "G, x", "x in G or exists('v:Obj', v in G and "
          "x in G[v], x in G[v])")
REG.macro("literal", "G, x", "named(G, x) or named(G, neg(x))")

# an assignment gives opposite values to negations, and respects implications
REG.fun("model", G_ + ", " + B_, "bool",
        "forall('x:Obj', B[neg(x)] == (not B[x]), (B[neg(x)],), (neg(x),)) "
        "and forall('v:Obj, w:Obj', imp(v in G and w in G[v] and B[v], "
        "B[w]), (w in G[v],))")

REG.macro("symmetric", "H", "graph(H) and "
          "forall('x:Obj', imp(x in H, neg(x) in H and neg(neg(x)) == x), "
          "x in H) and "
          "forall('x:Obj, y:Obj', imp(x in H and y in H[x], "
          "neg(y) in H and neg(x) in H[neg(y)]), y in H[x])")

# the extension of an instance by contrapositives
REG.macro("extends", "H, G",
          "forall('x:Obj', iff(x in H, literal(G, x)), (x in H,)) and "
          "forall('x:Obj, y:Obj', imp(x in H, iff(y in H[x], "
          "x in G and y in G[x] or neg(y) in G and neg(x) in G[neg(y)])), "
          "y in H[x])")

REG.lemma("neg_twice", "x:Obj", ensures=["neg(neg(x)) == x"],
          pattern="neg(x)")

REG.lemma("extends_symmetric", H_ + ", " + G_,
          requires=["extends(H, G)"], ensures=["symmetric(H)"], body="""
use("neg_twice")
""")

REG.lemma("extends_model", H_ + ", " + G_ + ", " + B_,
          requires=["extends(H, G)"],
          ensures=["iff(model(H, B), model(G, B))"], body="""
use("neg_twice")
unfold(model(H, B))
unfold(model(G, B))
""")

# implications are respected along paths
REG.lemma("model_reach", H_ + ", " + B_ + ", x:Obj",
          requires=["model(H, B)", "B[x]"],
          ensures=["forall('y:Obj', imp(y in reach(H, x), B[y]), "
                   "y in reach(H, x))"], body="""
unfold(model(H, B))
reach_least(H, x, setof('y:Obj', B[y]))
""")

# the contrapositive of a path
REG.lemma("reach_contra", H_ + ", x:Obj, y:Obj",
          requires=["symmetric(H)", "x in H", "y in reach(H, x)"],
          ensures=["y in H and neg(x) in reach(H, neg(y))"], body="""
use("reach_refl")
use("reach_step")
use("reach_via")
use("neg_twice")
reach_least(H, x, setof('z:Obj', z in H and neg(x) in reach(H, neg(z))))
""")

REG.macro("nocontra", "H", "forall('v:Obj', imp(v in H, not ("
          "neg(v) in reach(H, v) and v in reach(H, neg(v)))), v in H)")
REG.macro("consistent", "H, S", "subset(S, dom(H)) and closed(H, S) and "
          "forall('x:Obj', imp(x in S, neg(x) not in S), x in S)")

# true literals can be added until every variable has a value
REG.lemma("sat_extend", H_ + ", S:set[Obj]",
          requires=["symmetric(H)", "nocontra(H)", "consistent(H, S)"],
          ensures=["exists('B:map[Obj,bool]', model(H, B) and "
                   "forall('x:Obj', imp(x in S, B[x]), x in S), "
                   "model(H, B))"],
          decreases="card(dom(H)) - card(S)",
          ghost={"y": "Obj", "T": "set[Obj]", "B": "map[Obj,bool]"}, body="""
use("neg_twice")
card_subset(S, dom(H))
if exists('x:Obj', x in H and x not in S and neg(x) not in S, x in H):
    obtain("x:Obj", x in H and x not in S and neg(x) not in S, x in H)
    y = x
    if neg(x) in reach(H, x):
        y = neg(x)
    T = setof('z:Obj', z in S or z in reach(H, y))
    reach_refl(H, y)
    use("reach_step")
    use("reach_via")
    reach_vertices(H, y)
    forall_intro("z:Obj", z in reach(H, y), neg(y) in reach(H, neg(z)), "reach_contra(H, y, z)", (z in reach(H, y),))
    forall_intro("z:Obj", z in S, subset(reach(H, z), S), "reach_least(H, z, S)", (reach(H, z),))
    assert y not in S and neg(y) not in S
    assert forall('z:Obj', imp(z in reach(H, y), neg(z) not in S), z in reach(H, y))
    assert forall('z:Obj', imp(z in reach(H, y), neg(z) not in reach(H, y)), z in reach(H, y))
    card_subset(S, T)
    card_subset(T, dom(H))
    sat_extend(H, T)
else:
    B = lam('x:Obj', ite(x in H, x in S, isinst('SymbolicNegation', x)))
    assert forall('x:Obj', B[neg(x)] == (not B[x]), neg(x))
    unfold(model(H, B))
    assert model(H, B)
""")

# what the condensation says (ensured by Condensation)
REG.macro("condenses", "C, H, comp",
          "forall('x:Obj', imp(x in H, comp[x] in C), comp[x]) and "
          "forall('c:Obj', imp(c in C, exists('x:Obj', x in H and "
          "comp[x] == c, comp[x])), c in C) and "
          "forall('x:Obj, y:Obj', imp(x in H and y in H, "
          "iff(comp[x] == comp[y], mutual(H, x, y))), (comp[x], comp[y])) "
          "and forall('c:Obj, d:Obj', imp(c in C, iff(d in C[c], c != d "
          "and exists('x:Obj, w:Obj', x in H and w in H[x] and "
          "comp[x] == c and comp[w] == d, (comp[x], w in H[x])))), "
          "d in C[c])")
CH = C_ + ", " + H_ + ", comp:map[Obj,Obj]"

REG.lemma("condense_reach", CH + ", x:Obj, y:Obj",
          requires=["graph(H)", "condenses(C, H, comp)", "x in H", "y in H"],
          ensures=["iff(comp[y] in reach(C, comp[x]), y in reach(H, x))"],
          ghost={"S": "set[Obj]", "T": "set[Obj]"}, body="""
use("reach_refl")
use("reach_step")
use("reach_via")
S = setof('z:Obj', z in H and comp[z] in reach(C, comp[x]))
forall_intro("z:Obj, w:Obj", z in S and w in H[z], w in S, "if comp[z] != comp[w]:\\n    assert comp[w] in C[comp[z]]", (z in S, w in H[z]))
reach_least(H, x, S)
T = setof('c:Obj', forall('z:Obj', imp(z in H and comp[z] == c, z in reach(H, x)), comp[z]))
forall_intro("c:Obj, d:Obj", c in T and c in C and d in C[c], d in T, "obtain('u:Obj, w:Obj', u in H and w in H[u] and comp[u] == c and comp[w] == d, (comp[u], w in H[u]))\\nassert w in reach(H, x)\\nassert forall('z:Obj', imp(z in H and comp[z] == d, z in reach(H, w)), comp[z])", (c in T, d in C[c]))
reach_least(C, comp[x], T)
""")

REG.lemma("condense_acyclic", CH,
          requires=["graph(H)", "condenses(C, H, comp)"],
          ensures=["graph(C)", "not cyclic(C)"], body="""
forall_intro("c:Obj, d:Obj", c in C and d in C[c], c not in reach(C, d), "obtain('x:Obj, w:Obj', x in H and w in H[x] and comp[x] == c and comp[w] == d, (comp[x], w in H[x]))\\ncondense_reach(C, H, comp, w, x)\\nreach_refl(H, x)\\nreach_step(H, x, x, w)")
""")

REG.fn(TS + ".Symmetrize", props=["C17"], params=G_,
       returns="dict[Obj,set[Obj]]",
       ensures=[("the literals and the implications with their "
                 "contrapositives", "extends(result, G)")],
       ghost={"h0": "dict[Obj,set[Obj]]"},
       loops={1: Loop(before="h0 = H", inv=[
           "forall('x:Obj', imp(x in H, literal(G, x)), x in H)",
           "forall('x:Obj', imp(x in G, x in H), x in G)",
           "forall('i:int', imp(0 <= i and i < _k, neg(_seq[i]) in H), "
           "_seq[i])",
           "forall('i:int, w:Obj', imp(0 <= i and i < _k and "
           "w in G[_seq[i]], w in H and neg(w) in H), w in G[_seq[i]])",
           "forall('x:Obj, y:Obj', imp(x in H, iff(y in H[x], x in G and "
           "y in G[x])), y in H[x])"]),
              2: Loop(inv=[
           "forall('x:Obj', imp(x in H, literal(G, x)), x in H)",
           "forall('x:Obj', imp(x in G, x in H), x in G)",
           "forall('i:int', imp(0 <= i and i <= _k1, neg(_seq1[i]) in H), "
           "_seq1[i])",
           "forall('i:int, w:Obj', imp(0 <= i and i < _k1 and "
           "w in G[_seq1[i]], w in H and neg(w) in H), w in G[_seq1[i]])",
           "forall('i:int', imp(0 <= i and i < _k, _seq[i] in H and "
           "neg(_seq[i]) in H), _seq[i])",
           "forall('x:Obj, y:Obj', imp(x in H, iff(y in H[x], x in G and "
           "y in G[x])), y in H[x])"]),
              3: Loop(before="""
h0 = H
use("neg_twice")
assert forall('x:Obj', iff(x in H, literal(G, x)), (x in H,))
""", inv=[
           "dom(H) == dom(h0)",
           "forall('x:Obj, y:Obj', imp(x in H, iff(y in H[x], x in G and "
           "y in G[x] or exists('i:int', 0 <= i and i < _k and "
           "y == neg(_seq[i]) and neg(x) in G[_seq[i]], _seq[i]))), "
           "y in H[x])"]),
              4: Loop(inv=[
           "dom(H) == dom(h0)",
           "forall('x:Obj, y:Obj', imp(x in H, iff(y in H[x], x in G and "
           "y in G[x] or exists('i:int', 0 <= i and i < _k3 and "
           "y == neg(_seq3[i]) and neg(x) in G[_seq3[i]], _seq3[i]) or "
           "y == neg(v) and exists('j:int', 0 <= j and j < _k and "
           "neg(x) == _seq[j], _seq[j]))), y in H[x])"])})

MODEL = "exists('B:map[Obj,bool]', model(%s, B)%s, model(%s, B))"
INSTANCE = {"h": "dict[Obj,set[Obj]]", "g0": "dict[Obj,set[Obj]]",
            "comp": "map[Obj,Obj]"}
AFTER = {"Symmetrize": """
h = result
extends_symmetric(h, g0)
""", "Condensation": """
assert condenses(result, h, comp)
"""}

# vertices implying each other's negation leave no assignment
REG.lemma("no_model", H_ + ", " + G_ + ", v:Obj",
          requires=["extends(H, G)", "v in H", "neg(v) in reach(H, v)",
                    "v in reach(H, neg(v))"],
          ensures=["forall('B:map[Obj,bool]', not model(G, B), "
                   "model(G, B))"], body="""
forall_intro("B:map[Obj,bool]", model(G, B), False, "extends_model(H, G, B)\\nunfold(model(H, B))\\ntrigger(B[neg(v)])\\nif B[v]:\\n    model_reach(H, B, v)\\nelse:\\n    model_reach(H, B, neg(v))", (model(G, B),))
""")

# a literal not implying its negation is true in some assignment
REG.lemma("some_model", H_ + ", " + G_ + ", v:Obj",
          requires=["extends(H, G)", "nocontra(H)", "v in H",
                    "neg(v) not in reach(H, v)"],
          ensures=[MODEL % ("G", " and B[v]", "G")], body="""
use("neg_twice")
use("reach_refl")
use("reach_step")
use("reach_via")
extends_symmetric(H, G)
reach_vertices(H, v)
forall_intro("z:Obj", z in reach(H, v), neg(v) in reach(H, neg(z)), "reach_contra(H, v, z)", (z in reach(H, v),))
sat_extend(H, reach(H, v))
obtain("B:map[Obj,bool]", model(H, B) and forall('x:Obj', imp(x in reach(H, v), B[x]), x in reach(H, v)), model(H, B))
extends_model(H, G, B)
assert B[v]
""")

REG.fn(TS + ".Satisfiable", props=["C17"], params=G_, returns="bool",
       requires=["not literal(G, %s)" % WHOLE],
       ensures=[("some assignment satisfies all implications",
                 "iff(result, %s)" % (MODEL % ("G", "", "G")))],
       ghost=INSTANCE, entry="g0 = G", after=AFTER,
       exit="""
if result:
    forall_intro("x:Obj", x in h, not mutual(h, x, neg(x)), "assert x in members(comp[x])\\nassert neg(x) not in members(comp[x])", (x in h,))
    assert nocontra(h)
    sat_extend(h, setof('x:Obj', False))
    obtain("B:map[Obj,bool]", model(h, B), model(h, B))
    extends_model(h, g0, B)
else:
    use("reach_via")
    obtain("x:Obj, y:Obj", x in h and y in members(comp[x]) and neg(y) in members(comp[x]), (comp[x], y in members(comp[x])))
    assert mutual(h, x, y) and mutual(h, x, neg(y))
    no_model(h, g0, y)
""",
       loops={1: Loop(inv=[
           "forall('i:int, x:Obj', imp(0 <= i and i < _k and "
           "x in members(_seq[i]), neg(x) not in members(_seq[i])), "
           "x in members(_seq[i]))"]),
              2: Loop(inv=["forall('i:int', imp(0 <= i and i < _k, "
                           "neg(_seq[i]) not in members(C)), _seq[i])"])})

REG.fn(TS + ".Forced", props=["C17"], params=G_,
       returns="opt[dict[Obj,bool]]",
       requires=["not literal(G, %s)" % WHOLE],
       ensures=[("None if nothing satisfies all implications",
                 "iff(result is None, not %s)" % (MODEL % ("G", "", "G"))),
                ("the variables with the same value everywhere",
                 "imp(result is not None, forall('v:Obj', imp("
                 "v in the(result), "
                 "literal(G, v) and not isinst('SymbolicNegation', v) and "
                 "forall('B:map[Obj,bool]', imp(model(G, B), "
                 "B[v] == the(result)[v]), model(G, B))), "
                 "v in the(result)))"),
                ("no others", "imp(result is not None, forall('v:Obj', imp("
                 "literal(G, v) and not isinst('SymbolicNegation', v) and "
                 "v not in the(result), %s and %s), neg(v)))" % (
                     MODEL % ("G", " and B[v]", "G"),
                     MODEL % ("G", " and not B[v]", "G")))],
       ghost=INSTANCE, entry="g0 = G",
       after=dict(AFTER, Condensation=AFTER["Condensation"] + """
condense_acyclic(result, h, comp)
"""),
       locals={"Force": "dict[Obj,bool]", "Map": "dict[Obj,Obj]"},
       exit="""
use("neg_twice")
if result is None:
    no_model(h, g0, v)
else:
    assert nocontra(h)
    sat_extend(h, setof('x:Obj', False))
    obtain("A:map[Obj,bool]", model(h, A), model(h, A))
    extends_model(h, g0, A)
    forall_intro("v:Obj, B:map[Obj,bool]", v in Force and model(G, B), B[v] == Force[v], "extends_model(h, g0, B)\\nunfold(model(h, B))\\ntrigger(B[neg(v)])\\nif B[v]:\\n    model_reach(h, B, v)\\nelse:\\n    model_reach(h, B, neg(v))", (v in Force, model(G, B)))
    forall_intro("v:Obj", literal(G, v) and not isinst('SymbolicNegation', v) and v not in Force, %s, "some_model(h, g0, v)", (neg(v),))
    forall_intro("v:Obj", literal(G, v) and not isinst('SymbolicNegation', v) and v not in Force, %s, "some_model(h, g0, neg(v))\\nobtain('B:map[Obj,bool]', model(G, B) and B[neg(v)], model(G, B))\\nunfold(model(G, B))\\ntrigger(B[neg(v)])", (neg(v),))
""" % (MODEL % ("G", " and B[v]", "G"), MODEL % ("G", " and not B[v]", "G")),
       loops={1: Loop(inv=[
           "forall('x:Obj', imp(x in Map, x in h and Map[x] == comp[x]), "
           "(x in Map,), (Map[x],))",
           "forall('i:int, x:Obj', imp(0 <= i and i < _k and "
           "x in members(_seq[i]), x in Map), x in members(_seq[i]))"]),
              2: Loop(inv=[
           "forall('x:Obj', imp(x in Map, x in h and Map[x] == comp[x]), "
           "(x in Map,), (Map[x],))",
           "forall('i:int, x:Obj', imp(0 <= i and i < _k1 and "
           "x in members(_seq1[i]), x in Map), x in members(_seq1[i]))",
           "forall('i:int', imp(0 <= i and i < _k, _seq[i] in Map), "
           "_seq[i])"]),
              3: Loop(before="""
use("neg_twice")
assert forall('x:Obj', imp(x in h, x in members(comp[x])), comp[x])
assert forall('x:Obj', imp(x in h, x in Map and Map[x] == comp[x] and Map[x] in Con), (x in h,), (Map[x],))
forall_intro("x:Obj, y:Obj", x in h and y in h, iff(comp[y] in reach(Con, comp[x]), y in reach(h, x)), "condense_reach(Con, h, comp, x, y)", (comp[y] in reach(Con, comp[x]),))
""", inv=[
           "forall('x:Obj', imp(x in Force, x in h and "
           "not isinst('SymbolicNegation', x) and ite(Force[x], "
           "x in reach(h, neg(x)), neg(x) in reach(h, x))), x in Force)",
           "forall('i:int', imp(0 <= i and i < _k and "
           "neg(_seq[i]) in reach(h, _seq[i]), "
           "ite(isinst('SymbolicNegation', _seq[i]), "
           "neg(_seq[i]) in Force and Force[neg(_seq[i])], "
           "_seq[i] in Force and not Force[_seq[i]])), _seq[i])",
           "forall('x:Obj', imp(x in Force, exists('i:int', 0 <= i and "
           "i < _k and _seq[i] == ite(Force[x], neg(x), x), _seq[i])), "
           "x in Force)"])})
