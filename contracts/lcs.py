"""C26: longest common subsequences."""
from pydv.lib import REG, Loop

# length of a longest common subsequence of the prefixes A[:i], B[:j]
REG.fun("L", "A:list[Obj], B:list[Obj], i:int, j:int", "int",
        "ite(i <= 0 or j <= 0, 0, ite(A[i-1] == B[j-1], "
        "L(A, B, i-1, j-1) + 1, max(L(A, B, i-1, j), L(A, B, i, j-1))))")

# n matched pairs of positions, increasing in both sequences
REG.macro("matching", "A, B, x, y, n, i, j",
          "n >= 0 and forall('k:int', imp(0 <= k and k < n, "
          "0 <= x[k] and x[k] < i and 0 <= y[k] and y[k] < j and "
          "A[x[k]] == B[y[k]]), (x[k], y[k])) and "
          "forall('k:int, l:int', imp(0 <= k and k < l and l < n, "
          "x[k] < x[l] and y[k] < y[l]), (x[k], x[l]), (y[k], y[l]))")

REG.lemma("L_mono", "A:list[Obj], B:list[Obj], i:int, j:int",
          ensures=["L(A, B, i, j) >= 0",
                   "L(A, B, i, j) <= L(A, B, i-1, j) + 1",
                   "L(A, B, i, j) <= L(A, B, i, j-1) + 1",
                   "L(A, B, i, j) >= L(A, B, i-1, j)",
                   "L(A, B, i, j) >= L(A, B, i, j-1)",
                   "L(A, B, i, j) <= L(A, B, i-1, j-1) + 1"],
          decreases="max(0, i) + max(0, j)",
          body="""
unfold(L(A, B, i, j))
unfold(L(A, B, i-1, j))
unfold(L(A, B, i, j-1))
unfold(L(A, B, i-1, j-1))
if i > 0 and j > 0:
    L_mono(A, B, i-1, j)
    L_mono(A, B, i, j-1)
    L_mono(A, B, i-1, j-1)
""")

# no common subsequence of the prefixes is longer than L
REG.lemma("L_upper", "A:list[Obj], B:list[Obj], x:map[int,int], "
          "y:map[int,int], n:int, i:int, j:int",
          requires=["i >= 0", "j >= 0", "matching(A, B, x, y, n, i, j)"],
          ensures=["n <= L(A, B, i, j)"],
          decreases="i + j",
          body="""
unfold(L(A, B, i, j))
L_mono(A, B, i, j)
if n > 0:
    assert i > 0 and j > 0
    if A[i-1] == B[j-1]:
        L_upper(A, B, x, y, n-1, i-1, j-1)
    else:
        if x[n-1] < i-1:
            L_upper(A, B, x, y, n, i-1, j)
        else:
            L_upper(A, B, x, y, n, i, j-1)
""")

REG.fn("pads.lcs.longest_common_subsequence", props=["C26"],
       params="A:list[Obj], B:list[Obj]", returns="list[Obj]",
       ghost={"P": "map[int,int]", "Q": "map[int,int]"},
       outs={"X": "map[int,int]", "Y": "map[int,int]"},
       ensures=[
           ("result is a common subsequence",
            "matching(A, B, X, Y, len(result), len(A), len(B)) and "
            "forall('k:int', imp(0 <= k and k < len(result), "
            "result[k] == A[X[k]]), result[k])"),
           ("no common subsequence is longer",
            "forall('x:map[int,int], y:map[int,int], n:int', "
            "imp(matching(A, B, x, y, n, len(A), len(B)), "
            "n <= len(result)))")],
       loops={
           1: Loop(inv=["forall('a:int, b:int', imp(0 <= a and a < _k and "
                        "0 <= b and b <= len(B), (a, b) in lcsLen and "
                        "lcsLen[a, b] == L(A, B, a, b)), L(A, B, a, b), "
                        "(a, b) in lcsLen)"]),
           2: Loop(inv=["forall('a:int, b:int', imp(0 <= a and a < i and "
                        "0 <= b and b <= len(B), (a, b) in lcsLen and "
                        "lcsLen[a, b] == L(A, B, a, b)), L(A, B, a, b), "
                        "(a, b) in lcsLen)",
                        "forall('b:int', imp(0 <= b and b < _k, "
                        "(i, b) in lcsLen and "
                        "lcsLen[i, b] == L(A, B, i, b)), L(A, B, i, b), "
                        "(i, b) in lcsLen)"],
                   start="unfold(L(A, B, i, j))\n"
                         "trigger(L(A,B,i-1,j-1), L(A,B,i-1,j), "
                         "L(A,B,i,j-1))"),
           3: Loop(inv=["0 <= i and i <= len(A) and 0 <= j and j <= len(B)",
                        "len(LCS) + L(A, B, i, j) == L(A, B, len(A), len(B))",
                        "forall('k:int', imp(0 <= k and k < len(LCS), "
                        "i <= P[k] and P[k] < len(A) and j <= Q[k] and "
                        "Q[k] < len(B) and A[P[k]] == B[Q[k]] and "
                        "LCS[k] == A[P[k]]))",
                        "forall('k:int, l:int', imp(0 <= k and k < l and "
                        "l < len(LCS), P[k] > P[l] and Q[k] > Q[l]))"],
                   start="unfold(L(A, B, i, j))\nL_mono(A, B, i, j)",
                   end="P[len(LCS)-1] = i\nQ[len(LCS)-1] = j\n",
                   decreases="i + j"),
           4: Loop(inv=["0 < i and i <= entry(i) and 0 < j",
                        "L(A, B, i, j) == L(A, B, entry(i), j)",
                        "L(A, B, i, j) > 0"],
                   end="unfold(L(A, B, i, j))",
                   exit="L_mono(A, B, i, j)",
                   decreases="i"),
           5: Loop(inv=["0 < i and 0 < j and j <= entry(j)",
                        "L(A, B, i, j) == L(A, B, i, entry(j))",
                        "L(A, B, i, j) > 0",
                        "L(A, B, i-1, j) < L(A, B, i, j)"],
                   end="unfold(L(A, B, i, j))\n"
                       "L_mono(A, B, i-1, j+1)\n",
                   exit="unfold(L(A, B, i, j))",
                   decreases="j")},
       exit="""
X = lam('k:int', P[len(result)-1-k])
Y = lam('k:int', Q[len(result)-1-k])
unfold(L(A, B, 0, 0))
unfold(L(A, B, i, j))
assert matching(A, B, X, Y, len(result), len(A), len(B))
assert len(result) == L(A, B, len(A), len(B))
forall_intro('x:map[int,int], y:map[int,int], n:int',
    matching(A, B, x, y, n, len(A), len(B)), n <= len(result),
    'L_upper(A, B, x, y, n, len(A), len(B))')
""")
