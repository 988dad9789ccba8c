"""C28: range minima."""
from pydv.lib import REG, Loop

LC = "pads.lca"

REG.macro("place", "n, k, back", "ite(back, n - 1 - k, k)")

REG.fn(LC + "._pairs", props=["C28"], params="X:list[Obj], reversed:bool",
       returns="list[tuple[Obj,int]]",
       ensures=[("every position once, in order", "len(result) == len(X) and "
                 "forall('k:int', imp(0 <= k and k < len(X), result[k][0] == "
                 "X[place(len(X), k, reversed)] and result[k][1] == "
                 "place(len(X), k, reversed)), result[k])")])

# the minimum of X from position a up to position b
REG.fun("smallest", "X:list[Obj], a:int, b:int, v:Obj", "bool",
        "exists('i:int', a <= i and i <= b and X[i] == v, X[i]) and "
        "forall('i:int', imp(a <= i and i <= b, not (X[i] < v)), X[i])")

REG.macro("from_to", "i, back, n", "ite(back, i, 0)")

REG.fn(LC + ".PrefixMinima", props=["C28"],
       params="X:list[Obj], reversed:bool", returns="list[Obj]",
       requires=["forall('i:int', imp(0 <= i and i < len(X), "
                 "X[i] is not None), X[i])"],
       ensures=[("minima of the prefixes, or suffixes",
                 "len(result) == len(X) and forall('i:int', imp(0 <= i and "
                 "i < len(X), smallest(X, ite(reversed, i, 0), "
                 "ite(reversed, len(X) - 1, i), result[i])), result[i])")],
       ghost={"c0": "Obj"}, locals={"output": "list[Obj]", "current": "Obj"},
       loops={1: Loop(inv=[
           "len(output) == len(X)", "iff(_k == 0, current is None)",
           "forall('i:int', imp(0 <= i and i < len(X) and ite(reversed, "
           "len(X) - _k <= i, i < _k), smallest(X, ite(reversed, i, 0), "
           "ite(reversed, len(X) - 1, i), output[i])), X[i])",
           "imp(_k > 0, smallest(X, ite(reversed, len(X) - _k, 0), "
           "ite(reversed, len(X) - 1, _k - 1), current))"],
           start="c0 = current",
           end="""
unfold(smallest(X, ite(reversed, len(X) - _k, 0), ite(reversed, len(X) - 1, _k - 1), c0))
unfold(smallest(X, ite(reversed, len(X) - _k - 1, 0), ite(reversed, len(X) - 1, _k), current))
trigger(X[i])
""")})

# the bounds of a slice of n items
REG.fun("slice_left", "it:Obj, n:int", "int")
REG.fun("slice_right", "it:Obj, n:int", "int")

PR = LC + ".PrecomputedRangeMin"
ROW = ("forall('j:int', imp(0 <= j and j < %s, len(%s[j]) == len(%s) - j and "
       "forall('i:int', imp(0 <= i and i < len(%s) - j, "
       "smallest(%s, j, j + i, %s[j][i])), %s[j][i])), %s[j])")

REG.klass("Precomputed", PR, "list[Obj]", fields="_minima:list[list[Obj]]",
          ghost="data:list[Obj]", abs="self.data",
          inv=[("minima from every position",
                "len(self._minima) == len(self.data) and " + ROW % (
                    "len(self.data)", "self._minima", "self.data",
                    "self.data", "self.data", "self._minima",
                    "self._minima", "self._minima"))])

REG.fn(LC + "._decode_slice", trusted=True, params="self:Precomputed, it:Obj",
       returns="tuple[int,int]", raises={"ValueError": None},
       ensures=[("bounds of the slice",
                 "result[0] == slice_left(it, len(self)) and "
                 "result[1] == slice_right(it, len(self)) and "
                 "0 <= result[0] and result[0] <= len(self) and "
                 "0 <= result[1] and result[1] <= len(self)")])

REG.lemma("smallest_shift", "X:list[Obj], j:int, Y:list[Obj], i:int, v:Obj",
          requires=["0 <= j", "j <= len(X)", "len(Y) == len(X) - j",
                    "0 <= i", "i < len(Y)",
                    "forall('k:int', imp(0 <= k and k < len(Y), "
                    "Y[k] == X[j + k]), Y[k])", "smallest(Y, 0, i, v)"],
          ensures=["smallest(X, j, j + i, v)"], body="""
unfold(smallest(Y, 0, i, v))
unfold(smallest(X, j, j + i, v))
obtain('k:int', 0 <= k and k <= i and Y[k] == v, Y[k])
trigger(X[j + k])
forall_intro("m:int", j <= m and m <= j + i, not (X[m] < v), "trigger(Y[m - j])", (X[m],))
""")

REG.fn(PR + ".__init__", props=["C28"], params="self:Precomputed, X:list[Obj]",
       requires=["forall('i:int', imp(0 <= i and i < len(X), "
                 "X[i] is not None), X[i])"],
       ensures=[("the data", "self == X")],
       exit="self.data = X", locals={"_out": "list[list[Obj]]"},
       loops={"c1": Loop(end="""
forall_intro("i:int", 0 <= i and i < len(X) - _k, smallest(X, _k, _k + i, _out[_k][i]), "smallest_shift(X, _k, X[_k:], i, _out[_k][i])", (_out[_k][i],))
""", inv=[ROW % ("_k", "_out", "X", "X", "X", "_out",
                                     "_out", "_out"), "len(_out) == _k"])})

REG.fn(PR + ".__len__", props=["C28"], params="self:Precomputed",
       returns="int", ensures=[("number of data", "result == len(self)")])

REG.fn(PR + ".__getitem__", props=["C28"], params="self:Precomputed, it:Obj",
       returns="Obj", raises={"ValueError": None},
       requires=["slice_left(it, len(self)) < slice_right(it, len(self))"],
       ensures=[("the minimum of the slice",
                 "smallest(self, slice_left(it, len(self)), "
                 "slice_right(it, len(self)) - 1, result)")])
