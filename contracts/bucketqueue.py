"""C05: bucket queue."""
from pydv.lib import REG, Loop

BQ = "pads.bucketqueue.BucketQueue"

# Seen from outside, a queue is the mapping from its items to priorities.
REG.klass("BucketQueue", BQ, "dict[Obj,int]",
          fields="_D:dict[Obj,int], _Q:dict[int,set[Obj]], _N:opt[int]",
          abs="self._D",
          inv=[("buckets hold exactly the items of their priority",
                "forall('p:int, x:Obj', imp(p in self._Q, "
                "iff(x in self._Q[p], x in self._D and self._D[x] == p)), "
                "x in self._Q[p])"),
               ("every item has a bucket",
                "forall('x:Obj', imp(x in self._D, self._D[x] in self._Q "
                "and x in self._Q[self._D[x]]), x in self._D, self._D[x])"),
               ("no bucket is empty",
                "forall('p:int', imp(p in self._Q, card(self._Q[p]) > 0), "
                "p in self._Q)"),
               ("lower bound on the priorities",
                "imp(card(dom(self._Q)) > 0, self._N is not None) and "
                "forall('p:int', imp(p in self._Q, self._N is not None and "
                "the(self._N) <= p), p in self._Q)")])

REG.fn(BQ + ".__init__", props=["C05"], params="self:BucketQueue",
       ensures=[("new queues are empty", "self == emptydict('Obj,int')")])

REG.fn(BQ + ".__getitem__", props=["C05"], params="self:BucketQueue, item:Obj",
       returns="int", raises={"KeyError": "item not in self"},
       ensures=[("the priority is returned", "result == self[item]")])

REG.fn(BQ + ".__contains__", props=["C05"],
       params="self:BucketQueue, item:Obj", returns="bool",
       ensures=[("membership", "iff(result, item in self)")])

REG.fn(BQ + ".__len__", props=["C05"], params="self:BucketQueue",
       returns="int",
       ensures=[("number of items", "result == card(dom(self))")])

REG.fn(BQ + ".__delitem__", props=["C05"],
       params="self:BucketQueue, item:Obj", modifies=["self"],
       raises={"KeyError": "item not in self"},
       ensures=[("exactly the item is removed",
                 "self == without(old(self), item)")],
       ensures_own=[("the lower bound is kept", "self._N == old(self._N)")])

REG.fn(BQ + ".__setitem__", props=["C05"],
       params="self:BucketQueue, item:Obj, priority:int",
       modifies=["self"],
       ensures=[("exactly the item changes",
                 "self == store(old(self), item, priority)")])

REG.fn(BQ + ".__iter__", props=["C05"], params="self:BucketQueue",
       yields="Obj", modifies=["self"], interfere=True,
       each=[("an item of smallest priority is removed and yielded",
              "yielded in _pre and self == without(_pre, yielded) and "
              "forall('y:Obj', imp(y in _pre, _pre[yielded] <= _pre[y]), "
              "y in _pre)")],
       each_own=[("the lower bound is the priority of the item",
                  "self._N is not None and the(self._N) == _pre[yielded]")],
       ensures=[("iteration ends when the queue is empty",
                 "card(dom(_pre)) == 0 and self == _pre")],
       loops={1: Loop(selfinv=True, inv=["_pre == self"]),
              2: Loop(selfinv=True, inv=["_pre == self",
                                         "card(dom(self._Q)) > 0",
                                         "self._N is not None",
                                         "q in self._Q"],
                      before="obtain('q:int', q in self._Q)",
                      decreases="q - the(self._N)")})

REG.fn(BQ + ".items", props=["C05"], params="self:BucketQueue",
       yields="tuple[Obj,int]", modifies=["self"], interfere=True,
       each=[("an item of smallest priority is removed and yielded with it",
              "yielded[0] in _pre and self == without(_pre, yielded[0]) and "
              "yielded[1] == _pre[yielded[0]] and "
              "forall('y:Obj', imp(y in _pre, yielded[1] <= _pre[y]), "
              "y in _pre)")],
       ensures=[("iteration ends when the queue is empty",
                 "card(dom(_pre)) == 0 and self == _pre")],
       loops={1: Loop(selfinv=True, inv=["_pre == self"])})
