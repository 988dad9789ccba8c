"""C30: minima of totally monotone matrices."""
from pydv.lib import REG, Loop

SM = "pads.smawk"

# the entry of row r and column c
REG.fun("matf", "f:Mat, r:int, c:int", "Obj")

# the entry of row r is smaller, or as large and earlier, or r is s
REG.macro("lexle", "f, r, s, c", "matf(f, r, c) < matf(f, s, c) or "
          "(matf(f, r, c) == matf(f, s, c) and r <= s)")

REG.fun("lex", "f:Mat, r:int, s:int, c:int", "bool", "lexle(f, r, s, c)")
REG.lemma("lex_def", "f:Mat, r:int, s:int, c:int",
          ensures=["iff(lex(f, r, s, c), lexle(f, r, s, c))"],
          body="unfold(lex(f, r, s, c))")
REG.lemma("lex_trans", "f:Mat, r:int, s:int, t:int, c:int",
          requires=["lex(f, r, s, c)", "lex(f, s, t, c)"],
          ensures=["lex(f, r, t, c)"], body="""
unfold(lex(f, r, s, c))
unfold(lex(f, s, t, c))
unfold(lex(f, r, t, c))
""")

REG.macro("rising", "R", "forall('i:int, j:int', imp(0 <= i and i < j "
          "and j < len(R), R[i] < R[j]), (R[i], R[j]))")
REG.macro("alldifferent", "C", "forall('a:int, b:int', imp(0 <= a and a < b "
          "and b < len(C), C[a] != C[b]), (C[a], C[b]))")

# smaller below stays smaller further right
REG.fun("monotone", "f:Mat, R:list[int], C:list[int]", "bool",
        "forall('i:int, j:int, a:int, b:int', "
        "imp(0 <= i and i < j and j < len(R) and 0 <= a and a < b and "
        "b < len(C) and matf(f, R[j], C[a]) < matf(f, R[i], C[a]), "
        "matf(f, R[j], C[b]) < matf(f, R[i], C[b])), "
        "(matf(f, R[i], C[a]), matf(f, R[j], C[b])))")

REG.lemma("mono_at", "f:Mat, R:list[int], C:list[int], i:int, j:int, a:int, "
          "b:int", requires=["monotone(f, R, C)", "0 <= i", "i < j",
                             "j < len(R)", "0 <= a", "a < b", "b < len(C)",
                             "matf(f, R[j], C[a]) < matf(f, R[i], C[a])"],
          ensures=["matf(f, R[j], C[b]) < matf(f, R[i], C[b])"],
          body="unfold(monotone(f, R, C))")

# some of the rows and columns
REG.lemma("mono_sub", "f:Mat, R:list[int], C:list[int], S:list[int], "
          "D:list[int], x:map[int,int], y:map[int,int]",
          requires=["monotone(f, R, C)", "forall('i:int', imp(0 <= i and "
                    "i < len(S), 0 <= x[i] and x[i] < len(R) and "
                    "S[i] == R[x[i]]), S[i])", "forall('i:int, j:int', "
                    "imp(0 <= i and i < j and j < len(S), x[i] < x[j]), "
                    "(S[i], S[j]))", "forall('i:int', imp(0 <= i and "
                    "i < len(D), 0 <= y[i] and y[i] < len(C) and "
                    "D[i] == C[y[i]]), D[i])", "forall('i:int, j:int', "
                    "imp(0 <= i and i < j and j < len(D), y[i] < y[j]), "
                    "(D[i], D[j]))"],
          ensures=["monotone(f, S, D)"], body="""
unfold(monotone(f, S, D))
forall_intro("i:int, j:int, a:int, b:int", 0 <= i and i < j and j < len(S) and 0 <= a and a < b and b < len(D) and matf(f, S[j], D[a]) < matf(f, S[i], D[a]), matf(f, S[j], D[b]) < matf(f, S[i], D[b]), "mono_at(f, R, C, x[i], x[j], y[a], y[b])", (matf(f, S[i], D[a]), matf(f, S[j], D[b])))
""")

# r is the first row with the smallest entry of column c
REG.fun("best", "f:Mat, R:list[int], c:int, r:int", "bool",
        "exists('i:int', 0 <= i and i < len(R) and R[i] == r, R[i]) and "
        "forall('j:int', imp(0 <= j and j < len(R), lex(f, r, R[j], c)), "
        "R[j])")

REG.lemma("best_of_all", "f:Mat, S:list[int], x:int, c:int, r:int",
          requires=["best(f, S, c, r)", "exists('i:int', 0 <= i and "
                    "i < len(S) and lex(f, S[i], x, c), S[i])"],
          ensures=["lex(f, r, x, c)"], body="""
unfold(best(f, S, c, r))
obtain('i:int', 0 <= i and i < len(S) and lex(f, S[i], x, c), S[i])
lex_trans(f, r, S[i], x, c)
""")

STACK = ["len(stack) <= len(ColIndices)",
         "forall('i:int', imp(0 <= i and i < len(stack), "
         "0 <= pr[stack[i]] and pr[stack[i]] < %s and "
         "R0[pr[stack[i]]] == stack[i]), stack[i])",
         "rising(stack)",
         "forall('i:int, j:int', imp(0 <= i and j == i + 1 and "
         "j < len(stack), not (matf(Matrix, stack[j], ColIndices[i]) < "
         "matf(Matrix, stack[i], ColIndices[i]))), (stack[i], stack[j]))"]
COVER = ("forall('j:int, a:int', imp(0 <= j and j < %s and 0 <= a and "
         "a < len(ColIndices), %s exists('i:int', 0 <= i and i < len(stack) "
         "and lex(Matrix, stack[i], R0[j], ColIndices[a]), stack[i])), "
         "(R0[j], ColIndices[a]))")
RNEW = "lex(Matrix, r, R0[j], ColIndices[a]) or"
FILLED = ("forall('a:int', imp(0 <= a and a < len(ColIndices) and "
          "(a % 2 == 1 or a < 2 * _k), ColIndices[a] in minima and "
          "minima[ColIndices[a]][0] == matf(Matrix, minima[ColIndices[a]][1], "
          "ColIndices[a]) and "
          "best(Matrix, S0, ColIndices[a], minima[ColIndices[a]][1])), "
          "ColIndices[a])")

REG.fn(SM + ".ConcaveMinima", props=["C30"],
       params="RowIndices:list[int], ColIndices:list[int], Matrix:Mat",
       returns="dict[int,tuple[Obj,int]]",
       requires=["len(RowIndices) > 0", "rising(RowIndices)",
                 "alldifferent(ColIndices)",
                 "monotone(Matrix, RowIndices, ColIndices)"],
       decreases="len(ColIndices)",
       ghost={"R0": "list[int]", "pr": "map[int,int]", "q": "int",
              "p": "int", "p0": "int", "r0": "int", "t": "int", "s": "int", "m": "int",
              "S0": "list[int]", "gx": "map[int,int]", "gy": "map[int,int]", "M0": "dict[int,tuple[Obj,int]]", "odd": "list[int]"},
       ensures=[("every column", "forall('a:int', imp(0 <= a and "
                 "a < len(ColIndices), ColIndices[a] in result), "
                 "ColIndices[a]) and forall('x:int', imp(x in result, "
                 "exists('a:int', 0 <= a and a < len(ColIndices) and "
                 "ColIndices[a] == x, ColIndices[a])), x in result)"),
                ("the entry of the row", "forall('x:int', imp(x in result, "
                 "result[x][0] == matf(Matrix, result[x][1], x)), "
                 "x in result)"),
                ("first row with the minimum", "forall('a:int', imp(0 <= a "
                 "and a < len(ColIndices), best(Matrix, RowIndices, "
                 "ColIndices[a], result[ColIndices[a]][1])), "
                 "ColIndices[a])")],
       locals={"stack": "list[int]"},
       entry="R0 = RowIndices", exit="""
if len(ColIndices) > 0:
    forall_intro("a:int", 0 <= a and a < len(ColIndices), best(Matrix, R0, ColIndices[a], result[ColIndices[a]][1]), "unfold(best(Matrix, S0, ColIndices[a], result[ColIndices[a]][1]))\\nunfold(best(Matrix, R0, ColIndices[a], result[ColIndices[a]][1]))\\nobtain('i:int', 0 <= i and i < len(S0) and S0[i] == result[ColIndices[a]][1], S0[i])\\ntrigger(R0[pr[S0[i]]])\\nforall_intro('j:int', 0 <= j and j < len(R0), lex(Matrix, result[ColIndices[a]][1], R0[j], ColIndices[a]), 'best_of_all(Matrix, S0, R0[j], ColIndices[a], result[ColIndices[a]][1])', (R0[j],))", (ColIndices[a],))
""",
       after={"ConcaveMinima": "odd = ColIndices"},
       loops={
           1: Loop(inv=[x.replace("%s", "_k") for x in STACK] + [
               "forall('i:int', imp(0 <= i and i < _k, pr[R0[i]] == i), "
               "R0[i])",
               "imp(_k > 0, len(stack) > 0)", COVER % ("_k", "")],
               start="pr[r] = _k",
               exit="""
S0 = stack
gx = lam('i:int', pr[S0[i]])
gy = lam('i:int', i)
mono_sub(Matrix, R0, ColIndices, S0, ColIndices, gx, gy)
gy = lam('i:int', 2 * i + 1)
forall_intro("D:list[int]", len(D) == len(ColIndices) // 2 and forall('a:int', imp(0 <= a and a < len(D), D[a] == ColIndices[2 * a + 1]), D[a]), monotone(Matrix, stack, D), "mono_sub(Matrix, R0, ColIndices, stack, D, gx, gy)", monotone(Matrix, stack, D))
""",
               end="""
if m < len(stack):
    trigger(stack[m])
    forall_intro("j:int, a:int", 0 <= j and j <= _k and 0 <= a and a < len(ColIndices), exists('i:int', 0 <= i and i < len(stack) and lex(Matrix, stack[i], R0[j], ColIndices[a]), stack[i]), "lex_def(Matrix, r, r, ColIndices[a])\\nif lex(Matrix, r, R0[j], ColIndices[a]):\\n    assert lex(Matrix, stack[m], R0[j], ColIndices[a])\\nelse:\\n    assert j < _k\\n    obtain('i:int', 0 <= i and i < m and lex(Matrix, S0[i], R0[j], ColIndices[a]), S0[i])\\n    assert lex(Matrix, stack[i], R0[j], ColIndices[a])", (R0[j], ColIndices[a]))
else:
    t = stack[m - 1]
    trigger(R0[pr[t]])
    assert t < r
    forall_intro("a:int", 0 <= a and a < m, not (matf(Matrix, r, ColIndices[a]) < matf(Matrix, t, ColIndices[a])), "if a < m - 1 and matf(Matrix, r, ColIndices[a]) < matf(Matrix, t, ColIndices[a]):\\n    mono_at(Matrix, R0, ColIndices, pr[t], _k, a, m - 1)", (ColIndices[a],))
    forall_intro("j:int, a:int", 0 <= j and j <= _k and 0 <= a and a < len(ColIndices), exists('i:int', 0 <= i and i < len(stack) and lex(Matrix, stack[i], R0[j], ColIndices[a]), stack[i]), "lex_def(Matrix, r, r, ColIndices[a])\\nif lex(Matrix, r, R0[j], ColIndices[a]):\\n    lex_def(Matrix, t, r, ColIndices[a])\\n    lex_trans(Matrix, t, r, R0[j], ColIndices[a])\\n    assert lex(Matrix, stack[m - 1], R0[j], ColIndices[a])\\nelse:\\n    assert j < _k\\n    obtain('i:int', 0 <= i and i < m and lex(Matrix, S0[i], R0[j], ColIndices[a]), S0[i])\\n    assert lex(Matrix, stack[i], R0[j], ColIndices[a])", (R0[j], ColIndices[a]))
"""),
           2: Loop(inv=[x.replace("%s", "_k1") for x in STACK] + [
               COVER % ("_k1", RNEW)],
               decreases="len(stack)",
               start="""
S0 = stack
m = len(stack)
t = stack[m - 1]
trigger(R0[pr[t]])
assert t < r
forall_intro("a:int", m - 1 <= a and a < len(ColIndices), matf(Matrix, r, ColIndices[a]) < matf(Matrix, t, ColIndices[a]), "if a > m - 1:\\n    mono_at(Matrix, R0, ColIndices, pr[t], _k1, m - 1, a)", (ColIndices[a],))
if m > 1:
    s = stack[m - 2]
    trigger(R0[pr[s]])
    assert s < t
    forall_intro("a:int", 0 <= a and a < m - 1, not (matf(Matrix, t, ColIndices[a]) < matf(Matrix, s, ColIndices[a])), "if a < m - 2 and matf(Matrix, t, ColIndices[a]) < matf(Matrix, s, ColIndices[a]):\\n    mono_at(Matrix, R0, ColIndices, pr[s], pr[t], a, m - 2)", (ColIndices[a],))
""",
               end="""
forall_intro("j:int, a:int", 0 <= j and j < _k1 and 0 <= a and a < len(ColIndices), lex(Matrix, r, R0[j], ColIndices[a]) or exists('i:int', 0 <= i and i < len(stack) and lex(Matrix, stack[i], R0[j], ColIndices[a]), stack[i]), "if not lex(Matrix, r, R0[j], ColIndices[a]):\\n    obtain('i:int', 0 <= i and i < m and lex(Matrix, S0[i], R0[j], ColIndices[a]), S0[i])\\n    if i == m - 1:\\n        if a >= m - 1:\\n            lex_def(Matrix, r, t, ColIndices[a])\\n            lex_trans(Matrix, r, t, R0[j], ColIndices[a])\\n        else:\\n            lex_def(Matrix, s, t, ColIndices[a])\\n            lex_trans(Matrix, s, t, R0[j], ColIndices[a])\\n            assert lex(Matrix, stack[m - 2], R0[j], ColIndices[a])\\n    else:\\n        assert lex(Matrix, stack[i], R0[j], ColIndices[a])", (R0[j], ColIndices[a]))
""", exit="""
S0 = stack
m = len(stack)
"""),
           3: Loop(before="""
S0 = RowIndices
M0 = minima
forall_intro("a:int", 0 <= a and a < len(ColIndices) and a % 2 == 1, ColIndices[a] in minima and minima[ColIndices[a]][0] == matf(Matrix, minima[ColIndices[a]][1], ColIndices[a]) and best(Matrix, S0, ColIndices[a], minima[ColIndices[a]][1]), "trigger(odd[(a - 1) // 2])", (ColIndices[a],))
""", inv=["0 <= r and r < len(S0)", "S0 == RowIndices",
          "imp(_k == 0, r == 0)",
          "imp(_k > 0 and 2 * _k - 1 < len(ColIndices), "
          "S0[r] == minima[ColIndices[2 * _k - 1]][1])",
          "forall('x:int', imp(x in minima, exists('a:int', 0 <= a and "
          "a < len(ColIndices) and ColIndices[a] == x, ColIndices[a])), "
          "x in minima)", FILLED],
               start="""
r0 = r
M0 = minima
assert forall('a:int', imp(0 <= a and a < len(ColIndices) and (a % 2 == 1 or a < 2 * _k), ColIndices[a] in M0 and M0[ColIndices[a]][0] == matf(Matrix, M0[ColIndices[a]][1], ColIndices[a]) and best(Matrix, S0, ColIndices[a], M0[ColIndices[a]][1])), ColIndices[a])
""",
               end="""
assert col == ColIndices[c]
unfold(best(Matrix, S0, col, S0[p]))
forall_intro("i:int", 0 <= i and i < len(S0), lex(Matrix, S0[p], S0[i], col), "if i < r0:\\n    lex_def(Matrix, S0[r0], S0[i], ColIndices[c - 1])\\n    assert matf(Matrix, S0[r0], ColIndices[c - 1]) < matf(Matrix, S0[i], ColIndices[c - 1])\\n    mono_at(Matrix, S0, ColIndices, i, r0, c - 1, c)\\n    lex_def(Matrix, S0[r0], S0[i], col)\\n    lex_trans(Matrix, S0[p], S0[r0], S0[i], col)\\nelif i > q:\\n    lex_def(Matrix, S0[q], S0[i], col)\\n    lex_def(Matrix, S0[q], S0[i], ColIndices[c + 1])\\n    if matf(Matrix, S0[i], col) < matf(Matrix, S0[q], col):\\n        mono_at(Matrix, S0, ColIndices, q, i, c, c + 1)\\n    lex_trans(Matrix, S0[p], S0[q], S0[i], col)", (S0[i],))
assert best(Matrix, S0, col, S0[p])
forall_intro("a:int", 0 <= a and a < len(ColIndices) and (a % 2 == 1 or a < 2 * _k + 2), ColIndices[a] in minima and minima[ColIndices[a]][0] == matf(Matrix, minima[ColIndices[a]][1], ColIndices[a]) and best(Matrix, S0, ColIndices[a], minima[ColIndices[a]][1]), "if a == c:\\n    assert minima[ColIndices[a]][1] == S0[p]\\n    assert best(Matrix, S0, ColIndices[a], minima[ColIndices[a]][1])\\nelse:\\n    assert a % 2 == 1 or a < 2 * _k\\n    assert best(Matrix, S0, ColIndices[a], M0[ColIndices[a]][1])\\n    if a < c:\\n        assert ColIndices[a] != ColIndices[c]\\n    else:\\n        assert ColIndices[c] != ColIndices[a]\\n    assert minima[ColIndices[a]] == M0[ColIndices[a]]", (ColIndices[a],))
"""),
           4: Loop(before="""
if c == len(ColIndices) - 1:
    q = len(S0) - 1
else:
    unfold(best(Matrix, S0, ColIndices[c + 1], lastrow))
    obtain("q:int", 0 <= q and q < len(S0) and S0[q] == lastrow, S0[q])
if c > 0:
    unfold(best(Matrix, S0, ColIndices[c - 1], S0[r]))
if q < r:
    lex_def(Matrix, S0[r], S0[q], ColIndices[c - 1])
    lex_def(Matrix, S0[q], S0[r], ColIndices[c + 1])
    assert matf(Matrix, S0[r], ColIndices[c - 1]) < matf(Matrix, S0[q], ColIndices[c - 1])
    mono_at(Matrix, S0, ColIndices, q, r, c - 1, c + 1)
assert r <= q
p = r
lex_def(Matrix, S0[p], S0[p], col)
""", inv=["r0 <= r and r <= q and q < len(S0) and row == S0[r]",
          "r0 <= p and p <= r and pair[1] == S0[p] and "
          "pair[0] == matf(Matrix, S0[p], col)",
          "forall('i:int', imp(r0 <= i and i <= r, "
          "lex(Matrix, S0[p], S0[i], col)), S0[i])"],
               decreases="q - r", start="p0 = p",
               end="""
lex_def(Matrix, S0[r], S0[r], col)
if pair[1] == row:
    lex_def(Matrix, S0[r], S0[p], col)
    p = r
else:
    lex_def(Matrix, S0[p], S0[r], col)
forall_intro("i:int", r0 <= i and i <= r, lex(Matrix, S0[p], S0[i], col), "if i < r:\\n    assert lex(Matrix, S0[p0], S0[i], col)\\n    if p != p0:\\n        lex_trans(Matrix, S0[p], S0[p0], S0[i], col)", (S0[i],))
""")})

OC = SM + ".OnlineConcaveMinima"

# entries (i, j) with i < j: smaller below stays smaller further right
REG.fun("concave", "f:Mat", "bool",
        "forall('i:int, j:int, a:int, b:int', imp(0 <= i and i < j and "
        "j < a and a < b and matf(f, j, a) < matf(f, i, a), "
        "matf(f, j, b) < matf(f, i, b)), (matf(f, i, a), matf(f, j, b)))")
REG.lemma("concave_at", "f:Mat, i:int, j:int, a:int, b:int",
          requires=["concave(f)", "0 <= i", "i < j", "j < a", "a < b",
                    "matf(f, j, a) < matf(f, i, a)"],
          ensures=["matf(f, j, b) < matf(f, i, b)"],
          body="unfold(concave(f))")
REG.lemma("concave_mono", "f:Mat, R:list[int], C:list[int]",
          requires=["concave(f)", "rising(R)", "rising(C)",
                    "forall('i:int', imp(0 <= i and i < len(R), 0 <= R[i] "
                    "and forall('a:int', imp(0 <= a and a < len(C), "
                    "R[i] < C[a]), C[a])), R[i])"],
          ensures=["monotone(f, R, C)"], body="""
unfold(monotone(f, R, C))
forall_intro("i:int, j:int, a:int, b:int", 0 <= i and i < j and j < len(R) and 0 <= a and a < b and b < len(C) and matf(f, R[j], C[a]) < matf(f, R[i], C[a]), matf(f, R[j], C[b]) < matf(f, R[i], C[b]), "concave_at(f, R[i], R[j], C[a], C[b])", (matf(f, R[i], C[a]), matf(f, R[j], C[b])))
""")

ENTRIES = ("forall('j:int', imp(1 <= j and j < len(self._values), "
           "self._indices[j] is not None and 0 <= the(self._indices[j]) and "
           "the(self._indices[j]) < j and the(self._indices[j]) < %s and "
           "self._values[j] == "
           "matf(self._matrix, the(self._indices[j]), j)), "
           "self._values[j])")

# Seen from outside, the matrix and the initial value
REG.klass("Online", OC, "tuple[Mat,Obj]",
          fields="_values:list[Obj], _indices:list[opt[int]], "
          "_finished:int, _matrix:Mat, _base:int, _tentative:int",
          abs="(self._matrix, self._values[0])",
          inv=[("concave", "concave(self._matrix)"),
               ("order", "0 <= self._base and self._base <= self._finished "
                "and self._finished <= self._tentative and "
                "self._tentative < len(self._values) and "
                "len(self._indices) == len(self._values)"),
               ("no index of the initial value", "self._indices[0] is None"),
               ("values are entries", ENTRIES % "self._finished"),
               ("finished values are minima",
                "forall('j:int, r:int', imp(1 <= j and j <= self._finished "
                "and 0 <= r and r < j, not (matf(self._matrix, r, j) < "
                "self._values[j])), "
                "(self._values[j], matf(self._matrix, r, j)))"),
               ("tentative values are minima over the finished rows",
                "forall('j:int, r:int', imp(self._finished < j and "
                "j <= self._tentative and 0 <= r and r < self._finished, "
                "not (matf(self._matrix, r, j) < self._values[j])), "
                "(self._values[j], matf(self._matrix, r, j)))"),
               ("rows above the base are not needed",
                "forall('j:int, r:int', imp(self._finished < j and "
                "0 <= r and r < self._base, "
                "(j < len(self._values) and not (matf(self._matrix, r, j) < "
                "self._values[j])) or not (matf(self._matrix, r, j) < "
                "matf(self._matrix, self._base, j))), "
                "(matf(self._matrix, r, j),))")])

REG.fn(OC + ".__init__", props=["C30"],
       params="self:Online, Matrix:Mat, initial:Obj",
       requires=["concave(Matrix)"],
       ensures=[("matrix and initial value",
                 "self == (Matrix, initial)")])

REG.fn(OC + "._advance", props=["C30"], params="self:Online",
       modifies=["self"],
       ensures=[("same matrix and initial value", "self == old(self)")],
       ensures_own=[("one more is finished",
                     "self._finished == old(self._finished) + 1")],
       ghost={"f": "Mat", "V": "list[Obj]", "n": "int", "b": "int",
              "t": "int", "s": "int"},
       entry="""
f = self._matrix
V = self._values
n = self._finished
b = self._base
t = self._tentative
forall_intro("R:list[int], C:list[int]", rising(R) and rising(C) and forall('i:int', imp(0 <= i and i < len(R), 0 <= R[i] and forall('a:int', imp(0 <= a and a < len(C), R[i] < C[a]), C[a])), R[i]), monotone(f, R, C), "concave_mono(f, R, C)", monotone(f, R, C))
if n < t:
    s = the(self._indices[t])
    if matf(f, n, n + 1) < V[n + 1]:
        forall_intro("j:int, r:int", n + 1 < j and 0 <= r and r < n, not (matf(f, r, j) < matf(f, n, j)), "concave_at(f, r, n, n + 1, j)", (matf(f, r, j),))
    elif matf(f, n, t) < V[t]:
        forall_intro("j:int, r:int", t <= j and 0 <= r and r < n, not (matf(f, r, j) < matf(f, n, j)), "if t < j:\\n    concave_at(f, r, n, t, j)", (matf(f, r, j),))
    else:
        forall_intro("j:int", n + 1 < j and j <= t, not (matf(f, n, j) < V[j]), "if j < t and matf(f, n, j) < V[j]:\\n    concave_at(f, s, n, j, t)", (matf(f, n, j),))
""",
       loops={1: Loop(inv=[
           "len(self._values) == len(self._indices)",
           "len(self._values) == ite(n + 1 + _k <= len(V), len(V), "
           "n + 1 + _k)",
           "self._values[0] == V[0]", "self._indices[0] is None", ENTRIES % "n + 1",
           "forall('j:int, r:int', imp(n < j and j <= n + _k and "
           "0 <= r and r <= n, not (matf(f, r, j) < self._values[j])), "
           "(self._values[j], matf(f, r, j)))",
           "forall('j:int', imp(0 <= j and j < len(V), "
           "not (V[j] < self._values[j]) and imp(j <= n or n + _k < j, "
           "self._values[j] == V[j])), self._values[j])"],
           start="""
assert col == n + 1 + _k and cols[_k] == col
assert col in minima
assert minima[col][0] == matf(f, minima[col][1], col)
unfold(best(f, rows, col, minima[col][1]))
forall_intro("r:int", b <= r and r <= n, not (matf(f, r, col) < minima[col][0]), "assert rows[r - b] == r\\nlex_def(f, minima[col][1], r, col)", (matf(f, r, col),))
""")})

REG.macro("column", "m, j, v", "ite(j == 0, v == m[1], exists('r:int', "
          "0 <= r and r < j and v == matf(m[0], r, j), matf(m[0], r, j)) and "
          "forall('r:int', imp(0 <= r and r < j, not (matf(m[0], r, j) < v)), "
          "matf(m[0], r, j)))")

REG.fn(OC + ".value", props=["C30"], params="self:Online, j:int",
       returns="Obj", requires=["0 <= j"], modifies=["self"],
       ensures=[("the column minimum", "column(self, j, result)"),
                ("same matrix and initial value", "self == old(self)")],
       loops={1: Loop(selfinv=True, inv=["self == old(self)"],
                      decreases="j - self._finished")})

REG.fn(OC + ".index", props=["C30"], params="self:Online, j:int",
       returns="opt[int]", requires=["0 <= j"], modifies=["self"],
       ensures=[("an index attaining it", "ite(j == 0, result is None, "
                 "result is not None and 0 <= the(result) and "
                 "the(result) < j and column(self, j, matf(self[0], "
                 "the(result), j)))"),
                ("same matrix and initial value", "self == old(self)")],
       loops={1: Loop(selfinv=True, inv=["self == old(self)"],
                      decreases="j - self._finished")})

REG.fn(OC + ".__iter__", props=["C30"], params="self:Online",
       yields="tuple[Obj,opt[int]]", modifies=["self"], interfere=True,
       ghost={"n": "int"}, entry="n = 0",
       each=[("same matrix and initial value", "self == _pre")],
       each_own=[("the pairs in order", "column(self, n, "
                  "yielded[0]) and ite(n == 0, yielded[1] is None, "
                  "yielded[1] is not None and column(self, n, "
                  "matf(self[0], the(yielded[1]), n)))")],
       ensures=[("iteration never ends", "False")],
       loops={1: Loop(selfinv=True, inv=["_pre == self", "0 <= i",
                                         "n == i"],
                      end="n = n + 1")})
