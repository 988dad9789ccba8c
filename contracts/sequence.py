"""C03: sequences."""
from pydv.lib import REG, Loop

SQ = "pads.sequence.Sequence"

# application of a key function
REG.fun("keyf", "k:KeyFn, x:Obj", "Obj")
REG.macro("kf", "k, x", "ite(k is None, x, keyf(the(k), x))")

# Seen from outside: the key function, if any, and the list of the items.
REG.data("SeqModel", mk="keyfn:opt[KeyFn], items:list[Obj]")

# s has an item with the key of x; it is at position i
REG.macro("keyat", "s, x, i", "0 <= i and i < len(s.items) and "
          "kf(s.keyfn, s.items[i]) == kf(s.keyfn, x)")
REG.macro("present", "s, x", "exists('i:int', keyat(s, x, i))")

# Ghost fields: the list of items, the list of their keys, and the position
# of every key.
REG.klass("Sequence", SQ, "SeqModel",
          fields="_key:opt[KeyFn], _items:dict[Obj,Obj], "
          "_next:dict[Obj,Obj], _prev:dict[Obj,Obj], _first:Obj",
          ghost="keyfn:opt[KeyFn], items:list[Obj], keys:list[Obj], "
          "pos:map[Obj,int]",
          abs="con('SeqModel.mk', self.keyfn, self.items)",
          inv=[("key function", "self.keyfn == self._key and "
                "len(self.keys) == len(self.items)"),
               ("keys have one position",
                "forall('i:int', imp(0 <= i and i < len(self.keys), "
                "self.pos[self.keys[i]] == i), self.keys[i])"),
               ("linked items are those of the sequence",
                "forall('k:Obj', iff(k in self._next, 0 <= self.pos[k] and "
                "self.pos[k] < len(self.keys) and "
                "self.keys[self.pos[k]] == k), k in self._next) and "
                "forall('k:Obj', iff(k in self._prev, k in self._next), "
                "k in self._prev, k in self._next)"),
               ("number of links",
                "card(dom(self._next)) == len(self.keys)"),
               ("forward links",
                "forall('i:int', imp(0 <= i and i < len(self.keys), "
                "self._next[self.keys[i]] == ite(i + 1 < len(self.keys), "
                "self.keys[i + 1], self.keys[0])), self.keys[i])"),
               ("backward links",
                "forall('i:int', imp(0 <= i and i < len(self.keys), "
                "self._prev[self.keys[i]] == ite(i > 0, "
                "self.keys[i - 1], self.keys[len(self.keys) - 1])), "
                "self.keys[i])"),
               ("first item", "imp(len(self.keys) > 0, "
                "self._first == self.keys[0])"),
               ("items of the keys",
                "forall('i:int', imp(0 <= i and i < len(self.keys), "
                "self.keys[i] == kf(self._key, self.items[i]) and "
                "ite(self.keys[i] in self._items, "
                "self._items[self.keys[i]] == self.items[i], "
                "self.keys[i] == self.items[i])), "
                "self.keys[i], self.items[i])"),
               ("stored items", "imp(self._key is None, "
                "forall('k:Obj', k not in self._items, k in self._items))")])

INS = """
self.pos = lam('k:Obj', ite(k == kf(self._key, %(new)s), %(p)s,
    ite(self.pos[k] >= %(p)s, self.pos[k] + 1, self.pos[k])))
self.keys = insert(self.keys, %(p)s, kf(self._key, %(new)s))
self.items = insert(self.items, %(p)s, %(new)s)
"""

REG.fn(SQ + ".__len__", props=["C03"], params="self:Sequence", returns="int",
       ensures=[("number of items", "result == len(self.items)")])

REG.fn(SQ + ".append", props=["C03"], params="self:Sequence, x:Obj",
       modifies=["self"], raises={"SequenceError": "present(self, x)"},
       torn="model",
       ensures=[("the item is added at the end",
                 "self.items == append(old(self).items, x) and "
                 "self.keyfn == old(self).keyfn")],
       entry="""
trigger(self.pos[kf(self._key, x)])
if kf(self._key, x) in self._next:
    trigger(self.keys[self.pos[kf(self._key, x)]])
""",
       exit="""
self.pos[kf(self._key, x)] = len(self.keys)
self.keys = append(self.keys, kf(self._key, x))
self.items = append(self.items, x)
""")

REG.fn(SQ + ".remove", props=["C03"], params="self:Sequence, x:Obj",
       modifies=["self"], raises={"KeyError": "not present(self, x)"},
       torn="model",
       ensures=[("exactly the item is removed",
                 "forall('i:int', imp(keyat(old(self), x, i), "
                 "self.items == delete(old(self).items, i)))"),
                ("key function", "self.keyfn == old(self).keyfn")],
       ghost={"p": "int"},
       entry="""
p = self.pos[kf(self._key, x)]
trigger(self.keys[p])
""",
       exit="""
self.pos = lam('k:Obj', ite(k == kf(self._key, x), 0 - 1,
    ite(self.pos[k] > p, self.pos[k] - 1, self.pos[k])))
self.keys = delete(self.keys, p)
self.items = delete(self.items, p)
""")

REG.fn(SQ + ".insertAfter", props=["C03"],
       params="self:Sequence, x:Obj, y:Obj", modifies=["self"],
       raises={"SequenceError": "present(self, y)",
               "KeyError": "not present(self, y) and not present(self, x)"},
       torn="model",
       ensures=[("the new item comes after the given one",
                 "forall('i:int', imp(keyat(old(self), x, i), "
                 "self.items == insert(old(self).items, i + 1, y)))"),
                ("key function", "self.keyfn == old(self).keyfn")],
       ghost={"p": "int"},
       entry="""
p = self.pos[kf(self._key, x)]
trigger(self.keys[p], self.keys[self.pos[kf(self._key, y)]], self.keys[p+1])
trigger(self.keys[0], self.keys[len(self.keys) - 1])
if p == len(self.keys) - 1:
    pass
""",
       exit=INS % {"p": "(p + 1)", "new": "y"})

REG.fn(SQ + ".insertBefore", props=["C03"],
       params="self:Sequence, x:Obj, y:Obj", modifies=["self"],
       raises={"KeyError": "not present(self, x)",
               "SequenceError": "present(self, x) and present(self, y)"},
       torn="model",
       ensures=[("the new item comes before the given one",
                 "forall('i:int', imp(keyat(old(self), x, i), "
                 "self.items == insert(old(self).items, i, y)))"),
                ("key function", "self.keyfn == old(self).keyfn")],
       ghost={"p": "int"},
       entry="""
p = self.pos[kf(self._key, x)]
trigger(self.keys[p], self.keys[self.pos[kf(self._key, y)]], self.keys[p-1])
trigger(self.keys[0], self.keys[len(self.keys) - 1])
if p == 0:
    pass
""",
       exit=INS % {"p": "p", "new": "y"})

REG.fn(SQ + ".predecessor", props=["C03"], params="self:Sequence, x:Obj",
       returns="Obj", modifies=["self"],
       raises={"KeyError": "not present(self, x)"}, torn="model",
       ensures=[("the item before, around the end",
                 "forall('i:int', imp(keyat(self, x, i), result == "
                 "self.items[ite(i > 0, i - 1, len(self.items) - 1)]))"),
                ("nothing changes", "same(self, old(self))")],
       entry="trigger(self.keys[self.pos[kf(self._key, x)]])")

REG.fn(SQ + ".successor", props=["C03"], params="self:Sequence, x:Obj",
       returns="Obj", modifies=["self"],
       raises={"KeyError": "not present(self, x)"}, torn="model",
       ensures=[("the item after, around the end",
                 "forall('i:int', imp(keyat(self, x, i), result == "
                 "self.items[ite(i + 1 < len(self.items), i + 1, 0)]))"),
                ("nothing changes", "same(self, old(self))")],
       entry="trigger(self.keys[self.pos[kf(self._key, x)]])")

REG.fn(SQ + ".__getitem__", props=["C03"], params="self:Sequence, i:int",
       returns="Obj",
       raises={"IndexError": "i < 0 or i >= len(self.items)"},
       ensures=[("item at the index", "result == self.items[i]")],
       ghost={"p": "int"}, entry="p = 0",
       loops={1: Loop(inv=["p == old(i) - i", "imp(old(i) >= 0, i >= 0)",
                           "0 <= p and p < len(self.keys)",
                           "item == self.keys[p]"],
                      start="trigger(self.keys[p+1], self.keys[0])",
                      end="p = p + 1",
                      decreases="len(self.keys) - p")})

REG.fn(SQ + ".__iter__", props=["C03"], params="self:Sequence",
       yields="Obj",
       ensures=[("the items in order", "out == self.items")],
       ghost={"p": "int"}, entry="p = 0",
       loops={1: Loop(inv=["len(out) == p", "0 <= p",
                           "imp(len(self.keys) > 0, p < len(self.keys) and "
                           "item == self.keys[p])",
                           "imp(len(self.keys) == 0, p == 0)",
                           "forall('i:int', imp(0 <= i and i < p, "
                           "out[i] == self.items[i]), out[i])"],
                      end="p = p + 1", start="trigger(self.keys[p+1])",
                      decreases="len(self.keys) - p")})

REG.fn(SQ + ".__init__", props=["C03"],
       params="self:Sequence, iterable:list[Obj], key:opt[KeyFn]",
       raises={"SequenceError": "exists('i:int, j:int', 0 <= i and i < j and "
               "j < len(iterable) and "
               "kf(key, iterable[i]) == kf(key, iterable[j]))"},
       torn=True, modifies=["self"],
       ensures=[("the given items in order",
                 "self.items == iterable and self.keyfn == key")],
       loops={1: Loop(selfinv=True,
                      before="self.items = emptylist('Obj')\n"
                             "self.keys = emptylist('Obj')\n"
                             "self.keyfn = key\n"
                             "self.pos = lam('k:Obj', 0 - 1)",
                      inv=["len(self.items) == _k",
                           "self.keyfn == key and self._key == key",
                           "forall('i:int', imp(0 <= i and i < _k, "
                           "self.items[i] == iterable[i]), "
                           "self.items[i], iterable[i])",
                           "forall('i:int, j:int', imp(0 <= i and i < j and "
                           "j < _k, kf(key, iterable[i]) != "
                           "kf(key, iterable[j])))"])})
