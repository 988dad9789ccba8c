"""C23: perfect elimination orderings."""
from pydv.lib import REG, Loop

CH = "pads.chordal"

REG.fn("pads.lex_bfs.lex_bfs", trusted=True, params="G:dict[Obj,set[Obj]]",
       yields="Obj", requires=["graph(G)"],
       ensures=[("every vertex once", "permutation(out, G)")])

# each vertex of G once
REG.macro("permutation", "L, G", "forall('i:int', imp(0 <= i and "
          "i < len(L), L[i] in G), L[i]) and "
          "forall('i:int, j:int', imp(0 <= i and i < j and j < len(L), "
          "L[i] != L[j]), (L[i], L[j])) and "
          "forall('x:Obj', imp(x in G, exists('i:int', 0 <= i and "
          "i < len(L) and L[i] == x, L[i])), x in G)")

# the later neighbours of every vertex are neighbours of each other
REG.macro("elimination", "L, G", "permutation(L, G) and "
          "forall('i:int, j:int, k:int', imp(0 <= i and i < j and j < k and "
          "k < len(L) and L[j] in G[L[i]] and L[k] in G[L[i]], "
          "L[k] in G[L[j]]), (L[i], L[j], L[k]))")

REG.fn(CH + ".perfect_elimination_ordering", props=["C23"],
       params="G:dict[Obj,set[Obj]]", returns="list[Obj]",
       requires=["graph(G)", "undirected(G)"],
       raises={"ValueError": None},
       ensures=[("a perfect elimination ordering", "elimination(result, G)")],
       ghost={"L": "list[Obj]"},
       exit="""
assert len(result) == len(L)
assert forall('i:int', imp(0 <= i and i < len(L), result[i] == L[len(L) - 1 - i]), result[i])
forall_intro("x:Obj", x in G, exists('i:int', 0 <= i and i < len(result) and result[i] == x, result[i]), "obtain('i:int', 0 <= i and i < len(L) and L[i] == x, L[i])\\ntrigger(result[len(L) - 1 - i])", (x in G,))
forall_intro("i:int, j:int", 0 <= i and i < j and j < len(result), result[i] != result[j], "trigger(L[len(L) - 1 - j], L[len(L) - 1 - i])", (result[i], result[j]))
forall_intro("i:int, j:int, k:int", 0 <= i and i < j and j < k and k < len(result) and result[j] in G[result[i]] and result[k] in G[result[i]], result[k] in G[result[j]], "trigger(L[len(L) - 1 - i], L[len(L) - 1 - j], L[len(L) - 1 - k])\\nassert result[j] in leftNeighbors[result[i]]\\nassert result[k] in leftNeighbors[result[i]]\\nassert result[j] != result[k]", (result[i], result[j], result[k]))
""",
       loops={1: Loop(inv=[
           "forall('i:int', imp(0 <= i and i < len(B), B[i] in position and "
           "position[B[i]] == i), B[i])",
           "forall('x:Obj', iff(x in alreadyProcessed, x in position and "
           "position[x] < _k), x in alreadyProcessed)",
           "forall('x:Obj, y:Obj', imp(x in alreadyProcessed, "
           "x in leftNeighbors and iff(y in leftNeighbors[x], y in G[x] and "
           "y in position and position[y] < position[x])), "
           "y in leftNeighbors[x])",
           "forall('x:Obj, y:Obj, z:Obj', imp(x in alreadyProcessed and "
           "y in leftNeighbors[x] and z in leftNeighbors[x] and y != z, "
           "z in G[y]), (y in leftNeighbors[x], z in leftNeighbors[x]))"],
           exit="L = B")})

REG.fn(CH + ".is_chordal", props=["C23"], params="G:dict[Obj,set[Obj]]",
       returns="bool", requires=["graph(G)"],
       raises={"ValueError": "not simple(G)"},
       outs={"order": "list[Obj]"}, ghost={"order": "list[Obj]"},
       after={"perfect_elimination_ordering": "order = result"},
       ensures=[("only graphs with an elimination ordering",
                 "imp(result, elimination(order, G))")])
