"""C08: integer heaps."""
from pydv.lib import REG

LH = "pads.integer_heap.LinearHeap"

REG.klass("LinearHeap", LH, "set[int]", fields="_S:set[int]", abs="self._S")

REG.fn(LH + ".__init__", props=["C08"], params="self:LinearHeap",
       ensures=[("new heaps are empty", "self == setof('x:int', False)")])

for _n in ("__bool__", "__nonzero__"):
    REG.fn(LH + "." + _n, props=["C08"], params="self:LinearHeap",
           returns="bool", ensures=[("true unless empty",
                                     "result == (card(self) > 0)")])

REG.fn(LH + ".add", props=["C08"], params="self:LinearHeap, x:int",
       modifies=["self"],
       ensures=[("exactly the value is added", "forall('y:int', iff("
                 "y in self, y in old(self) or y == x), y in self)")])

REG.fn(LH + ".remove", props=["C08"], params="self:LinearHeap, x:int",
       modifies=["self"], raises={"KeyError": "x not in self"},
       ensures=[("exactly the value is removed", "forall('y:int', iff("
                 "y in self, y in old(self) and y != x), y in self)")])

REG.fn(LH + ".min", props=["C08"], params="self:LinearHeap", returns="int",
       raises={"ValueError": "card(self) == 0"},
       ensures=[("the smallest value", "result in self and "
                 "forall('y:int', imp(y in self, result <= y), y in self)")])

BV = "pads.integer_heap.BitVectorHeap"

REG.klass("BitVectorHeap", BV, "set[int]", fields="_S:int",
          abs="setof('x:int', 0 <= x and bit(self._S, x))",
          inv=[("a natural number", "self._S >= 0")])

REG.fn(BV + ".__init__", props=["C08"], params="self:BitVectorHeap",
       ensures=[("new heaps are empty",
                 "forall('y:int', y not in self, y in self)")])

for _n in ("__bool__", "__nonzero__"):
    REG.fn(BV + "." + _n, props=["C08"], params="self:BitVectorHeap",
           returns="bool", ghost={"d": "int"}, exit="""
d = diffbit(self._S, 0)
trigger(bit(self._S, d), bit(0, d), d in self)
""", ensures=[("true unless empty", "result == exists('y:int', y in self, "
               "y in self)")])

REG.fn(BV + ".add", props=["C08"], params="self:BitVectorHeap, x:int",
       requires=["0 <= x"], modifies=["self"],
       entry="assert (self._S | (1 << x)) >= 0",
       ensures=[("exactly the value is added", "forall('y:int', iff("
                 "y in self, y in old(self) or y == x), y in self)")])

REG.fn(BV + ".remove", props=["C08"], params="self:BitVectorHeap, x:int",
       requires=["0 <= x"], modifies=["self"],
       ensures=[("exactly the value is removed", "forall('y:int', iff("
                 "y in self, y in old(self) and y != x), y in self)")])
