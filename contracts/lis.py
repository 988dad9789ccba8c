"""C27: longest increasing subsequences."""
from pydv.lib import REG, Loop

LIS = "pads.longest_increasing_subsequence.longest_increasing_subsequence"

REG.linked("Chain", "x:Obj, rest:Chain")

# I are the positions of a strictly increasing subsequence of S
REG.macro("increasing", "S, I",
          "forall('i:int', imp(0 <= i and i < len(I), 0 <= I[i] and "
          "I[i] < len(S)), I[i]) and "
          "forall('i:int, j:int', imp(0 <= i and i < j and j < len(I), "
          "I[i] < I[j] and S[I[i]] < S[I[j]]), (I[i], I[j]))")

# d grows along increasing subsequences
REG.macro("grows", "S, d", "forall('i:int, j:int', imp(0 <= i and i < j and "
          "j < len(S) and S[i] < S[j], d[i] < d[j]), (d[i], d[j]))")

REG.lemma("rank_bound", "S:list[Obj], d:map[int,int], I:list[int], k:int",
          requires=["increasing(S, I)", "grows(S, d)",
                    "forall('i:int', imp(0 <= i and i < len(S), d[i] >= 0), "
                    "d[i])", "0 <= k", "k < len(I)"],
          ensures=["d[I[k]] >= k"], decreases="k", body="""
if k > 0:
    rank_bound(S, d, I, k - 1)
    trigger(I[k])
""")

REG.fn(LIS, props=["C27"], params="S:list[Obj]", returns="list[Obj]",
       locals={"head": "list[Obj]", "tail": "list[Chain]", "pair": "Chain"},
       # d: length of the subsequence ended by each item, less one;
       # prev: the item before it; link: its chain; hp: positions of heads
       ghost={"d": "map[int,int]", "prev": "map[int,int]",
              "link": "map[int,Chain]", "hp": "map[int,int]",
              "P": "list[int]", "j": "int",
              "h0": "list[Obj]", "B": "list[int]"},
       outs={"P": "list[int]"},
       ensures=[("an increasing subsequence", "increasing(S, P) and "
                 "len(P) == len(result) and forall('i:int', imp(0 <= i and "
                 "i < len(P), result[i] == S[P[i]]), result[i])"),
                ("of maximum length", "forall('I:list[int]', imp("
                 "increasing(S, I), len(I) <= len(result)))"),
                ("ending with the smallest possible value",
                 "forall('I:list[int]', imp(increasing(S, I) and "
                 "len(I) == len(result) and len(I) > 0, "
                 "not S[I[len(I) - 1]] < result[len(result) - 1]))")],
       loops={1: Loop(start="h0 = head", end="""
d[_k] = i
prev[_k] = ite(i > 0, hp[i - 1], -1)
link[_k] = ite(i > 0, con('Chain.pair', S[hp[i - 1]], link[hp[i - 1]]), con('Chain.none'))
if i >= len(h0) or x < h0[i]:
    hp[i] = _k
""", inv=[
           "len(tail) == max(1, len(head))",
           "forall('i:int, j:int', imp(0 <= i and i < j and "
           "j < len(head), head[i] < head[j]), (head[i], head[j]))",
           "forall('i:int', imp(0 <= i and i < len(head), 0 <= hp[i] and "
           "hp[i] < _k and S[hp[i]] == head[i] and d[hp[i]] == i and "
           "tail[i] == link[hp[i]]), (head[i],), (hp[i],), (tail[i],))",
           "imp(len(head) == 0, tail[0] is None)",
           "forall('i:int', imp(0 <= i and i < _k, 0 <= d[i] and "
           "d[i] < len(head) and not S[i] < head[d[i]]), d[i])",
           "forall('i:int, j:int', imp(0 <= i and i < j and "
           "j < _k and S[i] < S[j], d[i] < d[j]), (d[i], d[j]))",
           "forall('i:int', imp(0 <= i and i < _k and d[i] > 0, "
           "0 <= prev[i] and prev[i] < i and d[prev[i]] == d[i] - 1 and "
           "S[prev[i]] < S[i] and link[i] == con('Chain.pair', "
           "S[prev[i]], link[prev[i]])), link[i])",
           "forall('i:int', imp(0 <= i and i < _k and d[i] == 0, "
           "link[i] is None), link[i])"]),
              2: Loop(before="""
j = hp[len(head) - 1]
B = append(emptylist('int'), j)
""", start="j = prev[j]", end="B = append(B, j)", inv=[
           "0 <= j and j < len(S) and pair == link[j]",
           "d[j] == len(head) - len(output)",
           "len(B) == len(output) and len(B) > 0 and B[len(B) - 1] == j",
           "output[0] == head[len(head) - 1]",
           "forall('i:int', imp(0 <= i and i < len(B), 0 <= B[i] and "
           "B[i] < len(S) and output[i] == S[B[i]]), (B[i],), (output[i],))",
           "forall('i:int, k:int', imp(0 <= i and i < k and k < len(B), "
           "B[k] < B[i] and S[B[k]] < S[B[i]]), (B[i], B[k]))"],
                      decreases="d[j]",
                      exit="P = rev(B)")},
       exit="""
if len(result) == 0:
    P = emptylist('int')
forall_intro("I:list[int]", increasing(S, I) and len(I) > 0, d[I[len(I) - 1]] >= len(I) - 1 and 0 <= I[len(I) - 1] and I[len(I) - 1] < len(S), "rank_bound(S, d, I, len(I) - 1)\\ntrigger(I[len(I) - 1])")
""")
