"""C48: families of named graphs."""
import re

from pydv.lib import REG, Loop

M = "pads.graph_examples."
V = "tuple[int,bool]"

# remainders are determined by their defining equation
REG.lemma("mod_unique", "a:int, q:int, r:int, n:int",
          requires=["0 <= r", "r < n", "a == q * n + r"],
          ensures=["a % n == r"],
          body="""
assert a == (a // n) * n + a % n
assert (q - a // n) * n == a % n - r
if q - a // n >= 1:
    assert (q - a // n) * n >= n
if q - a // n <= -1:
    assert (q - a // n) * n <= -n
""")
# stepping by k around a cycle is undone by stepping by -k
REG.lemma("mod_step", "i:int, j:int, k:int, n:int",
          requires=["0 <= i", "i < n", "0 <= j", "j < n",
                    "j == (i - k) % n"],
          ensures=["i == (j + k) % n"],
          body="""
assert i - k == ((i - k) // n) * n + (i - k) % n
assert j + k == (0 - (i - k) // n) * n + i
mod_unique(j + k, 0 - (i - k) // n, i, n)
""")
REG.lemma("mod_back", "i:int, j:int, k:int, n:int",
          requires=["0 <= i", "i < n", "0 <= j", "j < n",
                    "i == (j + k) % n"],
          ensures=["j == (i - k) % n"],
          body="""
assert j - (0 - k) == j + k
mod_step(j, i, 0 - k, n)
""")
# steps around a cycle, kept opaque where quantifiers range over them
REG.fun("nxt", "i:int, k:int, n:int", "int", "(i + k) % n")
REG.fun("prv", "i:int, k:int, n:int", "int", "(i - k) % n")
# j follows i on the cycle with steps of k, or the other way round
REG.macro("steps", "i, j, k, n", "j == nxt(i, k, n) or i == nxt(j, k, n)")
REG.macro("among", "x, t", "x == t[0] or x == t[1] or x == t[2]")
REG.macro("same3", "t, p, q, r", "among(p, t) and among(q, t) and among(r, t) "
          "and among(t[0], (p, q, r)) and among(t[1], (p, q, r)) "
          "and among(t[2], (p, q, r))")
REG.lemma("step_range", "i:int, k:int, n:int", requires=["n > 0"],
          ensures=["0 <= nxt(i, k, n) and nxt(i, k, n) < n",
                   "0 <= prv(i, k, n) and prv(i, k, n) < n"],
          body="unfold(nxt(i, k, n))\nunfold(prv(i, k, n))")
REG.lemma("step_back", "i:int, j:int, k:int, n:int",
          requires=["0 <= i", "i < n", "0 <= j", "j < n"],
          ensures=["(j == prv(i, k, n)) == (i == nxt(j, k, n))"],
          body="""
unfold(prv(i, k, n))
unfold(nxt(j, k, n))
if j == (i - k) % n:
    mod_step(i, j, k, n)
if i == (j + k) % n:
    mod_back(i, j, k, n)
""")


def swap(edge):
    """The condition with the ends exchanged."""
    return re.sub(r"\b[ijlm]\b", lambda x: dict(zip("ijlm", "jiml"))[x.group()],
                  edge)


def family(name, params, layer, dom, edge, inv, steps):
    """Contract of a family of graphs with vertices (i, layer)."""
    v = "tuple[int,%s]" % layer
    reveal = "".join("unfold(nxt(i, %s, n))\nunfold(prv(i, %s, n))\n" % (k, k)
                     for k in steps)
    exit = ""
    for k in steps:
        exit += """
forall_intro('i:int', n > 0, 0 <= nxt(i, K, n) and nxt(i, K, n) < n,
    'step_range(i, K, n)', (nxt(i, K, n),))
forall_intro('i:int', n > 0, 0 <= prv(i, K, n) and prv(i, K, n) < n,
    'step_range(i, K, n)', (prv(i, K, n),))
forall_intro('i:int, j:int', 0 <= i and i < n and 0 <= j and j < n,
    (j == prv(i, K, n)) == (i == nxt(j, K, n)),
    'step_back(i, j, K, n)', (prv(i, K, n), nxt(j, K, n)))
""".replace("K", k)
    exit += """
assert forall('i:int, l:%s, j:int, m:%s', imp((i, l) in result and (j, m) in result, (among((j, m), result[(i, l)])) == (%s)), ((i, l) in result, (j, m) in result))
forall_intro('i:int, l:%s, j:int, m:%s', (i, l) in result and (j, m) in result,
    (among((j, m), result[(i, l)])) == (among((i, l), result[(j, m)])),
    'assert (among((j, m), result[(i, l)])) == (%s)\\nassert (among((i, l), result[(j, m)])) == (%s)\\nassert (%s) == (%s)',
    ((i, l) in result, (j, m) in result))
""" % (layer, layer, edge, layer, layer, edge, swap(edge), edge, swap(edge))
    REG.fn(M + name, props=["C48"], params=params,
           returns="dict[%s,tuple[%s,%s,%s]]" % (v, v, v, v),
           ensures=[
               ("the vertices are those of the definition",
                "forall('i:int, l:%s', ((i, l) in result) == (%s))" %
                (layer, dom)),
               ("the neighbours are vertices",
                "forall('i:int, l:%s', imp((i, l) in result, "
                "result[(i, l)][0] in result and "
                "result[(i, l)][1] in result and "
                "result[(i, l)][2] in result))" % layer),
               ("the edges are those of the definition",
                "forall('i:int, l:%s, j:int, m:%s', imp((i, l) in result "
                "and (j, m) in result, "
                "(among((j, m), result[(i, l)])) == (%s)))" %
                (layer, layer, edge)),
               ("the graph is undirected",
                "forall('i:int, l:%s, j:int, m:%s', imp((i, l) in result "
                "and (j, m) in result, (among((j, m), result[(i, l)])) == "
                "(among((i, l), result[(j, m)]))))" % (layer, layer))],
           loops={1: Loop(start=reveal,
                          inv=["forall('i:int, l:%s', ((i, l) in G) == "
                               "(%s))" % (layer,
                                          dom.replace("i < n", "i < _k"))]
                          + ["forall('i:int', imp(0 <= i and i < _k, "
                             "same3(G[(i, %s)], %s)), G[(i, %s)])"
                             % (b, adj, b) for b, adj in inv])},
           exit=exit)


family("GeneralizedPetersenGraph", "n:int, k:int", "bool",
       "0 <= i and i < n",
       "ite(l, ite(m, steps(i, j, 1, n), i == j), "
       "ite(m, i == j, steps(i, j, k, n)))",
       [("True", "(i, False), (prv(i, 1, n), True), (nxt(i, 1, n), True)"),
        ("False", "(i, True), (prv(i, k, n), False), (nxt(i, k, n), False)")],
       ["1", "k"])

family("GeneralizedCoxeterGraph", "n:int, a:int, b:int", "int",
       "0 <= i and i < n and 0 <= l and l <= 3",
       "ite(l == m, l > 0 and steps(i, j, ite(l == 1, 1, ite(l == 2, a, b)), "
       "n), i == j and (l == 0 or m == 0))",
       [("0", "(i, 1), (i, 2), (i, 3)"),
        ("1", "(i, 0), (prv(i, 1, n), 1), (nxt(i, 1, n), 1)"),
        ("2", "(i, 0), (prv(i, a, n), 2), (nxt(i, a, n), 2)"),
        ("3", "(i, 0), (prv(i, b, n), 3), (nxt(i, b, n), 3)")],
       ["1", "a", "b"])

REG.fn(M + "LCFNotation", props=["C48"], params="L:list[int], n:int",
       returns="dict[int,tuple[int,int,int]]",
       ghost={"N": "int"}, outs={"N": "int"}, entry="N = n * len(L)",
       ensures=[
           "N == n * len(L)",
           ("the vertices are the positions of the repeated list",
            "forall('i:int', (i in result) == (0 <= i and i < N))"),
           ("every vertex is joined to its neighbours on the cycle and by "
            "its chord",
            "forall('i:int', imp(0 <= i and i < N, same3(result[i], "
            "prv(i, 1, N), nxt(i, 1, N), nxt(i, L[i % len(L)], N))), "
            "result[i])")],
       locals={"_out": "dict[int,tuple[int,int,int]]"},
       loops={"c1": Loop(
           start="unfold(prv(i, 1, N))\nunfold(nxt(i, 1, N))\n"
                 "unfold(nxt(i, L[i % len(L)], N))",
           inv=["forall('i:int', (i in _out) == (0 <= i and i < _k))",
                "forall('i:int', imp(0 <= i and i < _k, same3(_out[i], "
                "prv(i, 1, N), nxt(i, 1, N), nxt(i, L[i % len(L)], N))), "
                "_out[i])"])})

# flipping a bit of a number
REG.lemma("flip", "x:int, y:int, n:int",
          requires=["0 <= x", "x < (1 << n)", "0 <= y", "y < n"],
          ensures=["0 <= x ^ (1 << y)", "x ^ (1 << y) < (1 << n)",
                   "(x ^ (1 << y)) ^ (1 << y) == x"],
          body="""
d = diffbit((x ^ (1 << y)) ^ (1 << y), x)
assert bit((x ^ (1 << y)) ^ (1 << y), d) == bit(x, d)
z = x ^ (1 << y)
if z > 0:
    t = topbit(z)
    assert bit(z, t) == (bit(x, t) != (t == y))
    if t >= n:
        assert bit(x, t)
        assert topbit(x) >= t
        assert (1 << n) <= (1 << t)
        assert (1 << t) <= (1 << topbit(x))
    else:
        assert 2 * (1 << t) <= (1 << n)
""")
CORNER = ("0 <= x and x < (1 << n) and 0 <= y and y < n")
REG.fn(M + "CubeConnectedCycles", props=["C48"], params="n:int",
       returns="dict[tuple[int,int],list[tuple[int,int]]]",
       requires=["n >= 0"],
       ensures=[
           ("the vertices are a corner of the cube and a direction",
            "forall('x:int, y:int', ((x, y) in result) == (%s))" % CORNER),
           ("the neighbours are those of the definition",
            "forall('x:int, y:int', imp((x, y) in result, "
            "len(result[(x, y)]) == 3 and same3(result[(x, y)], "
            "(x, nxt(y, 1, n)), (x, prv(y, 1, n)), (x ^ (1 << y), y))), "
            "(x, y) in result)"),
           ("the neighbours are vertices",
            "forall('x:int, y:int', imp((x, y) in result, "
            "result[(x, y)][0] in result and result[(x, y)][1] in result "
            "and result[(x, y)][2] in result))"),
           ("the graph is undirected",
            "forall('x:int, y:int, u:int, v:int', imp((x, y) in result and "
            "(u, v) in result and among((u, v), result[(x, y)]), "
            "among((x, y), result[(u, v)])))")],
       locals={"_out": "dict[tuple[int,int],list[tuple[int,int]]]"},
       loops={"c1": Loop(inv=[
           "forall('x:int, y:int', ((x, y) in _out) == (0 <= x and x < _k "
           "and 0 <= y and y < n))",
           "forall('x:int, y:int', imp((x, y) in _out, "
           "len(_out[(x, y)]) == 3 and same3(_out[(x, y)], "
           "(x, nxt(y, 1, n)), (x, prv(y, 1, n)), (x ^ (1 << y), y))), "
           "(x, y) in _out)"]),
           "c1.2": Loop(start="unfold(nxt(y, 1, n))\nunfold(prv(y, 1, n))",
                      inv=[
           "forall('u:int, y:int', ((u, y) in _out) == (0 <= y and (0 <= u "
           "and u < x and y < n or u == x and y < _k)))",
           "forall('x:int, y:int', imp((x, y) in _out, "
           "len(_out[(x, y)]) == 3 and same3(_out[(x, y)], "
           "(x, nxt(y, 1, n)), (x, prv(y, 1, n)), (x ^ (1 << y), y))), "
           "(x, y) in _out)"])},
       exit="""
forall_intro('x:int, y:int', 0 <= x and x < (1 << n) and 0 <= y and y < n,
    0 <= x ^ (1 << y) and x ^ (1 << y) < (1 << n) and
    (x ^ (1 << y)) ^ (1 << y) == x, 'flip(x, y, n)', ((x, y) in result,))
forall_intro('i:int, j:int', 0 <= i and i < n and 0 <= j and j < n,
    (j == prv(i, 1, n)) == (i == nxt(j, 1, n)),
    'step_back(i, j, 1, n)', (prv(i, 1, n), nxt(j, 1, n)))
forall_intro('y:int', n > 0, 0 <= nxt(y, 1, n) and nxt(y, 1, n) < n,
    'step_range(y, 1, n)', (nxt(y, 1, n),))
forall_intro('y:int', n > 0, 0 <= prv(y, 1, n) and prv(y, 1, n) < n,
    'step_range(y, 1, n)', (prv(y, 1, n),))
""")
