"""C11: depth-first search."""
from pydv.lib import REG, Loop

DFS = "pads.dfs"

# vertices reachable from u by a directed path, possibly empty
REG.fun("reach", "G:dict[Obj,set[Obj]], u:Obj", "set[Obj]",
        "setof('v:Obj', exists('k:int', k >= 0 and v in ball(G, u, k), "
        "ball(G, u, k)))")

REG.lemma("reach_refl", "G:dict[Obj,set[Obj]], u:Obj",
          ensures=["u in reach(G, u)"], pattern="reach(G, u)", body="""
unfold(reach(G, u))
unfold(ball(G, u, 0))
""")

REG.lemma("reach_step", "G:dict[Obj,set[Obj]], u:Obj, v:Obj, w:Obj",
          requires=["v in reach(G, u)", "v in G", "w in G[v]"],
          ensures=["w in reach(G, u)"],
          pattern="(v in reach(G, u), w in G[v])", body="""
unfold(reach(G, u))
obtain("k:int", k >= 0 and v in ball(G, u, k), ball(G, u, k))
unfold(ball(G, u, k + 1))
""")

REG.macro("closed", "G, S", "forall('v:Obj, w:Obj', imp(v in S and v in G "
          "and w in G[v], w in S), (v in S, w in G[v]))")

REG.lemma("ball_least", "G:dict[Obj,set[Obj]], u:Obj, k:int, S:set[Obj]",
          requires=["u in S", "closed(G, S)"],
          ensures=["subset(ball(G, u, k), S)"], decreases="k", body="""
unfold(ball(G, u, k))
if k > 0:
    ball_least(G, u, k - 1, S)
""")

# reach is the least set with the vertex that is closed under edges
REG.lemma("reach_least", "G:dict[Obj,set[Obj]], u:Obj, S:set[Obj]",
          requires=["u in S", "closed(G, S)"],
          ensures=["subset(reach(G, u), S)"], body="""
unfold(reach(G, u))
forall_intro("k:int", True, subset(ball(G, u, k), S), "ball_least(G, u, k, S)")
""")

REG.lemma("reach_trans", "G:dict[Obj,set[Obj]], u:Obj, v:Obj",
          requires=["v in reach(G, u)"],
          ensures=["subset(reach(G, v), reach(G, u))"], body="""
use("reach_step")
reach_least(G, v, reach(G, u))
""")

REG.lemma("reach_via", "G:dict[Obj,set[Obj]], u:Obj, v:Obj, w:Obj",
          requires=["v in reach(G, u)", "w in reach(G, v)"],
          ensures=["w in reach(G, u)"],
          pattern="(v in reach(G, u), w in reach(G, v))", body="""
reach_trans(G, u, v)
""")

REG.lemma("reach_vertices", "G:dict[Obj,set[Obj]], u:Obj",
          requires=["graph(G)", "u in G"],
          ensures=["subset(reach(G, u), dom(G))"], body="""
reach_least(G, u, dom(G))
""")

WHOLE = "glob('pads.dfs.whole_graph')"

# the vertices a search visits
REG.macro("seen", "G, s", "ite(s == %s, dom(G), reach(G, s))" % WHOLE)

GHOST = {"pre": "map[Obj,int]", "post": "map[Obj,int]",
         "par": "map[Obj,Obj]", "ev": "map[Obj,map[Obj,int]]",
         "root": "map[Obj,Obj]"}

# the event of the edge x-w
REG.macro("edgeevent", "out, ev, x, w",
          "0 <= ev[x][w] and ev[x][w] < len(out) and "
          "out[ev[x][w]][0] == x and out[ev[x][w]][1] == w and "
          "(out[ev[x][w]][2] == 0 or out[ev[x][w]][2] == 1 and x != w)")


def events(V, tail="False"):
    """Facts about the events so far; V: the visited vertices; tail: x is
    the root whose reverse event comes next."""
    return [
        ("roots of the trees",
         "forall('x:Obj', imp(x in %s, root[x] == ite(par[x] == x, x, "
         "root[par[x]])), (root[x],), (par[x],))" % V),
        ("one tree after the other",
         "forall('x:Obj, y:Obj', imp(x in %s and y in %s and "
         "root[x] != root[y] and pre[x] < pre[y], post[x] != -1 and "
         "post[x] < pre[y]), (root[x], root[y]))" % (V, V)),
        ("one forward event each",
         "forall('x:Obj', imp(x in %s, 0 <= pre[x] and pre[x] < len(out) "
         "and out[pre[x]][0] == par[x] and out[pre[x]][1] == x and "
         "out[pre[x]][2] == 1), (x in %s,), (pre[x],))" % (V, V)),
        ("forward events are first visits",
         "forall('i:int', imp(0 <= i and i < len(out) and out[i][2] == 1, "
         "out[i][1] in %s and pre[out[i][1]] == i), out[i])" % V),
        ("one reverse event each",
         "forall('x:Obj', imp(x in %s and post[x] != -1, pre[x] < post[x] "
         "and (post[x] < len(out) and out[post[x]][0] == par[x] and "
         "out[post[x]][1] == x and out[post[x]][2] == -1 or %s)), "
         "(post[x],))" % (V, tail)),
        ("reverse events are last",
         "forall('i:int', imp(0 <= i and i < len(out) and out[i][2] == -1, "
         "out[i][1] in %s and post[out[i][1]] == i), out[i])" % V),
        ("kinds of events",
         "forall('i:int', imp(0 <= i and i < len(out), out[i][2] == 1 or "
         "out[i][2] == -1 or out[i][2] == 0), out[i])"),
        ("nontree events are edges to visited vertices",
         "forall('i:int', imp(0 <= i and i < len(out) and out[i][2] == 0, "
         "out[i][0] in %s and out[i][1] in %s and "
         "out[i][1] in G[out[i][0]] and pre[out[i][0]] < i and "
         "pre[out[i][1]] < i and (post[out[i][0]] == -1 or "
         "i < post[out[i][0]]) and ev[out[i][0]][out[i][1]] == i), "
         "out[i])" % (V, V)),
        ("forward events follow edges from the vertex being explored",
         "forall('x:Obj', imp(x in %s and par[x] != x, par[x] in %s and "
         "pre[par[x]] < pre[x] and x in G[par[x]] and "
         "ev[par[x]][x] == pre[x] and (post[par[x]] == -1 or "
         "post[x] != -1 and post[x] < post[par[x]])), (par[x],))" % (V, V)),
        ("events come from the innermost open vertex",
         "forall('x:Obj, w:Obj, z:Obj', imp(x in %s and z in %s and "
         "pre[x] < pre[z] and pre[z] < ev[x][w], post[z] != -1 and "
         "post[z] < ev[x][w]), (ev[x][w], pre[z]))" % (V, V)),
        ("every edge of a finished vertex has its event",
         "forall('x:Obj, w:Obj', imp(x in %s and post[x] != -1 and "
         "w in G[x], w in %s and edgeevent(out, ev, x, w) and "
         "pre[x] < ev[x][w] and pre[w] <= ev[x][w] and "
         "ev[x][w] < post[x]), (x in %s, w in G[x]))"
         % (V, V, V)),
        ("edges lead to finished vertices or back",
         "forall('x:Obj, w:Obj', imp(x in %s and post[x] != -1 and "
         "w in G[x], post[w] != -1 and post[w] < post[x] or "
         "x in reach(G, w)), (x in %s, w in G[x]))" % (V, V)),
        ("properly nested",
         "forall('x:Obj, y:Obj', imp(x in %s and y in %s and "
         "pre[x] < pre[y] and post[x] != -1, post[x] < pre[y] or "
         "post[y] != -1 and post[y] < post[x]), (pre[x], pre[y]))"
         % (V, V)),
    ]


COMMON = [
    "forall('x:Obj', imp(x in visited, x in G), x in visited)",
    "imp(initial_vertex != %s, subset(visited, reach(G, initial_vertex)))"
    % WHOLE,
    "forall('x:Obj, w:Obj', imp(x not in visited, ev[x][w] == -1), "
    "ev[x][w])",
    "forall('x:Obj', imp(x not in visited, post[x] == -1), post[x])",
    "forall('x:Obj', post[x] >= -1, post[x])",
    "forall('x:Obj, w:Obj', ev[x][w] < len(out), ev[x][w])",
]

REG.fn(DFS + ".search", props=["C11"],
       params="G:dict[Obj,set[Obj]], initial_vertex:Obj",
       yields="tuple[Obj,Obj,int]", outs=GHOST,
       requires=["graph(G)", "%s not in G" % WHOLE,
                 "imp(initial_vertex != %s, initial_vertex in G)" % WHOLE],
       ghost=dict(GHOST, n0="int", h0="int", spos="map[Obj,int]",
                  w0="Obj", p0="Obj"),
       ensures=events("seen(G, initial_vertex)") + [
           ("every visited vertex is left",
            "forall('x:Obj', imp(x in seen(G, initial_vertex), "
            "post[x] != -1), post[x])")],
       locals={"initials": "list[Obj]", "visited": "set[Obj]",
               "stack": "list[tuple[Obj,iter[Obj]]]"},
       entry="""
post = lam('x:Obj', -1)
ev = lam('x:Obj', lam('w:Obj', -1))
use("reach_refl")
use("reach_step")
use("reach_via")
""",
       exit="""
if initial_vertex != glob('pads.dfs.whole_graph'):
    reach_least(G, initial_vertex, visited)
""",
       loops={
           1: Loop(start="n0 = len(out)",
                   inv=COMMON + [t for _, t in events("visited")] + [
                       "forall('x:Obj', imp(x in visited, post[x] != -1), "
                       "(x in visited,), (post[x],))",
                       "forall('i:int', imp(0 <= i and i < _k, "
                       "_seq[i] in visited), _seq[i])"]),
           2: Loop(before="""
pre[v] = len(out) - 1
par[v] = v
root[v] = v
spos[v] = 0
""",
                   start="""
n0 = len(out)
h0 = len(stack)
p0 = stack[len(stack) - 1][0]
assert forall('z:Obj', imp(z in visited and pre[p0] < pre[z], post[z] != -1 and post[z] < n0), (pre[z],))
""",
                   end="""
if len(out) > n0:
    w0 = out[n0][1]
    if out[n0][2] == 1:
        pre[w0] = n0
        par[w0] = p0
        root[w0] = v
        spos[w0] = h0
        ev[p0][w0] = n0
    elif out[n0][2] == 0:
        ev[p0][w0] = n0
    else:
        post[w0] = n0
else:
    post[v] = len(out)
""",
                   inv=COMMON + [t for _, t in events(
                       "visited", "x == v and len(stack) == 0 and "
                       "post[x] == len(out)")] + [
                       "forall('i:int', imp(0 <= i and i < _k1, "
                       "_seq1[i] in visited), _seq1[i])",
                       "v in visited and par[v] == v and root[v] == v",
                       "ite(len(stack) == 0, post[v] == len(out), "
                       "stack[0][0] == v)",
                       # the stack holds the vertices being explored
                       "forall('i:int', imp(0 <= i and i < len(stack), "
                       "stack[i][0] in visited and post[stack[i][0]] == -1 "
                       "and root[stack[i][0]] == v and "
                       "spos[stack[i][0]] == i), stack[i])",
                       "forall('x:Obj', imp(x in visited and post[x] == -1, "
                       "0 <= spos[x] and spos[x] < len(stack) and "
                       "stack[spos[x]][0] == x), (post[x],))",
                       "forall('i:int', imp(0 < i and i < len(stack), "
                       "par[stack[i][0]] == stack[i - 1][0] and "
                       "par[stack[i][0]] != stack[i][0]), stack[i])",
                       "forall('i:int, j:int', imp(0 <= i and i < j and "
                       "j < len(stack), pre[stack[i][0]] < "
                       "pre[stack[j][0]]), (stack[i], stack[j]))",
                       "forall('i:int, j:int', imp(0 <= i and i <= j and "
                       "j < len(stack), stack[j][0] in "
                       "reach(G, stack[i][0])), (stack[i], stack[j]))",
                       # with an enumeration of the neighbours
                       "forall('i:int', imp(0 <= i and i < len(stack), "
                       "0 <= posof(stack[i][1]) and posof(stack[i][1]) <= "
                       "len(seqof(stack[i][1]))), stack[i])",
                       "forall('i:int, j:int', imp(0 <= i and "
                       "i < len(stack) and 0 <= j and j < "
                       "len(seqof(stack[i][1])), seqof(stack[i][1])[j] in "
                       "G[stack[i][0]]), seqof(stack[i][1])[j])",
                       "forall('i:int, w:Obj', imp(0 <= i and "
                       "i < len(stack) and w in G[stack[i][0]], "
                       "exists('j:int', 0 <= j and j < "
                       "len(seqof(stack[i][1])) and "
                       "seqof(stack[i][1])[j] == w, "
                       "seqof(stack[i][1])[j])), w in G[stack[i][0]])",
                       "forall('i:int, j:int, k:int', imp(0 <= i and "
                       "i < len(stack) and 0 <= j and j < k and "
                       "k < len(seqof(stack[i][1])), "
                       "seqof(stack[i][1])[j] != seqof(stack[i][1])[k]), "
                       "(seqof(stack[i][1])[j], seqof(stack[i][1])[k]))",
                       # handled as far as the position
                       "forall('i:int, j:int', imp(0 <= i and "
                       "i < len(stack) and 0 <= j and "
                       "j < posof(stack[i][1]), "
                       "seqof(stack[i][1])[j] in visited and "
                       "edgeevent(out, ev, stack[i][0], "
                       "seqof(stack[i][1])[j]) and pre[stack[i][0]] < "
                       "ev[stack[i][0]][seqof(stack[i][1])[j]] and "
                       "pre[seqof(stack[i][1])[j]] <= "
                       "ev[stack[i][0]][seqof(stack[i][1])[j]]), "
                       "seqof(stack[i][1])[j])",
                       "forall('i:int, j:int', imp(0 <= i and "
                       "i < len(stack) and posof(stack[i][1]) <= j and "
                       "j < len(seqof(stack[i][1])), "
                       "ev[stack[i][0]][seqof(stack[i][1])[j]] == -1), "
                       "seqof(stack[i][1])[j])"])})

ORDER = [
    ("only visited vertices, each once",
     "forall('i:int', imp(0 <= i and i < len(out), "
     "out[i] in seen(G, initial_vertex) and pos[out[i]] == i), out[i])"),
    ("every visited vertex",
     "forall('x:Obj', imp(x in seen(G, initial_vertex), 0 <= pos[x] and "
     "pos[x] < len(out) and out[pos[x]] == x), pos[x])")]

# relative to the tree of first visits (par)
TREE = ("the tree of first visits", "forall('x:Obj', imp("
        "x in seen(G, initial_vertex) and par[x] != x, "
        "par[x] in seen(G, initial_vertex) and x in G[par[x]]), par[x])")


def order(fn, num, kind, extra):
    REG.fn(DFS + "." + fn, props=["C11"],
           params="G:dict[Obj,set[Obj]], initial_vertex:Obj", yields="Obj",
           requires=["graph(G)", "%s not in G" % WHOLE,
                     "imp(initial_vertex != %s, initial_vertex in G)"
                     % WHOLE],
           outs={"pos": "map[Obj,int]", "par": "map[Obj,Obj]"},
           ghost=dict(GHOST, pos="map[Obj,int]", n0="int"),
           ensures=ORDER + [TREE] + extra,
           loops={1: Loop(
               start="n0 = len(out)",
               end="if len(out) > n0:\n    pos[out[n0]] = n0",
               inv=["forall('i:int', imp(0 <= i and i < len(out), out[i] in "
                    "seen(G, initial_vertex) and %s[out[i]] < _k and "
                    "pos[out[i]] == i), out[i])" % num,
                    "forall('x:Obj', imp(x in seen(G, initial_vertex) and "
                    "%s[x] < _k, 0 <= pos[x] and pos[x] < len(out) and "
                    "out[pos[x]] == x), (pos[x],), (%s[x],))" % (num, num),
                    "forall('i:int, j:int', imp(0 <= i and i < j and "
                    "j < len(out), %s[out[i]] < %s[out[j]]), "
                    "(out[i], out[j]))" % (num, num)])})


order("preorder", "pre", 1, [
    ("after the vertex it is first reached from",
     "forall('x:Obj', imp(x in seen(G, initial_vertex) and par[x] != x, "
     "pos[par[x]] < pos[x]), par[x])")])

order("postorder", "post", -1, [
    ("after the vertices first reached through it",
     "forall('x:Obj', imp(x in seen(G, initial_vertex) and par[x] != x, "
     "pos[x] < pos[par[x]]), par[x])"),
    ("edges lead to earlier vertices or back",
     "forall('x:Obj, w:Obj', imp(x in seen(G, initial_vertex) and x in G and "
     "w in G[x], pos[w] < pos[x] or x in reach(G, w)), "
     "(pos[x], w in G[x]))")])

REG.fn(DFS + ".reachable", props=["C11"],
       params="G:dict[Obj,set[Obj]], v:Obj, w:Obj", returns="bool",
       requires=["graph(G)", "%s not in G" % WHOLE, "v in G"],
       ensures=[("a directed path exists", "result == (w in reach(G, v))")])
