"""C07: sorted sets."""
from pydv.lib import REG, Loop

SS = "pads.sorted_set.SortedSet"

# the value of a comparison function
REG.fun("cmpf", "c:Cmp, x:Obj, y:Obj", "int")

# x may stand before y in the order of the comparison
REG.macro("inorder", "c, x, y",
          "ite(c is None, x <= y, cmpf(the(c), x, y) <= 0)")

REG.klass("SortedSet", SS, "set[Obj]",
          fields="_comparison:opt[Cmp], _set:set[Obj], "
          "_previous:opt[list[Obj]], _additions:set[Obj], "
          "_removals:set[Obj]",
          abs="self._set",
          lazy={"_additions": "self._previous is not None",
                "_removals": "self._previous is not None"},
          inv=[("the last listing has no duplicates",
                "imp(self._previous is not None, forall('i:int, j:int', "
                "imp(0 <= i and i < j and j < len(the(self._previous)), "
                "the(self._previous)[i] != the(self._previous)[j]), "
                "(the(self._previous)[i], the(self._previous)[j])))"),
               ("changes since the last listing",
                "imp(self._previous is not None and "
                "len(the(self._previous)) > 0, "
                "forall('x:Obj', iff(x in self._set, x in self._additions or "
                "(x in the(self._previous) and x not in self._removals)), "
                "x in self._set, x in self._additions))"),
               ("no addition is listed already",
                "imp(self._previous is not None and "
                "len(the(self._previous)) > 0, "
                "forall('x:Obj', imp(x in self._additions, "
                "x in self._removals or x not in the(self._previous)), "
                "x in self._additions))")])

REG.fn(SS + ".__init__", props=["C07"],
       params="self:SortedSet, iterable:list[Obj], comparison:opt[Cmp]",
       ensures=[("members", "forall('x:Obj', iff(x in self, "
                 "x in iterable), x in self)")],
       ensures_own=[("order", "self._comparison == comparison")])

REG.fn(SS + ".__len__", props=["C07"], params="self:SortedSet",
       returns="int",
       ensures=[("number of members", "result == card(self)")])

REG.fn(SS + ".add", props=["C07"], params="self:SortedSet, item:Obj",
       modifies=["self"],
       ensures=[("exactly the item is added",
                 "forall('x:Obj', iff(x in self, x in old(self) or "
                 "x == item), x in self)")],
       ensures_own=[("order", "self._comparison == old(self._comparison)")])

REG.fn(SS + ".remove", props=["C07"], params="self:SortedSet, item:Obj",
       modifies=["self"], raises={"KeyError": "item not in self"},
       ensures=[("exactly the item is removed",
                 "forall('x:Obj', iff(x in self, x in old(self) and "
                 "x != item), x in self)")],
       ensures_own=[("order", "self._comparison == old(self._comparison)")])

REG.fn(SS + ".update", props=["C07"], params="self:SortedSet, item:Obj",
       modifies=["self"],
       requires=[("the item is a member", "item in self")],
       ensures=[("members stay the same",
                 "forall('x:Obj', iff(x in self, x in old(self)), "
                 "x in self)")],
       ensures_own=[("order", "self._comparison == old(self._comparison)")])

REG.fn(SS + ".__iter__", props=["C07"], params="self:SortedSet",
       returns="iter[Obj]", modifies=["self"],
       ensures=[("members stay the same", "self == old(self)"),
                ("every member is listed",
                 "posof(result) == 0 and "
                 "forall('x:Obj', iff(x in self, x in seqof(result)), "
                 "x in self)"),
                ("no member is listed twice",
                 "forall('i:int, j:int', imp(0 <= i and i < j and "
                 "j < len(seqof(result)), "
                 "seqof(result)[i] != seqof(result)[j]))")],
       ensures_own=[("in nondecreasing order",
                     "forall('i:int, j:int', imp(0 <= i and i < j and "
                     "j < len(seqof(result)), inorder(self._comparison, "
                     "seqof(result)[i], seqof(result)[j])))"),
                    ("order", "self._comparison == old(self._comparison)")])
