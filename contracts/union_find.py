"""C02: union-find."""
from pydv.lib import REG, Loop

UF = "pads.union_find.UnionFind"

# Seen from outside, a structure is the mapping from the items seen to the
# representatives of their sets.  Ghost fields: the root of every item and
# its height above it in the forest of parent links.
REG.klass("UnionFind", UF, "dict[Obj,Obj]",
          fields="parents:dict[Obj,Obj], weights:dict[Obj,int]",
          ghost="root:map[Obj,Obj], depth:map[Obj,int]",
          abs="mkdict(dom(self.parents), self.root)",
          inv=[("parent links stay inside",
                "forall('x:Obj', imp(x in self.parents, "
                "self.parents[x] in self.parents and "
                "self.root[x] in self.parents and "
                "x in self.weights), x in self.parents, self.root[x])"),
               ("links lead to the root of the set",
                "forall('x:Obj', imp(x in self.parents, "
                "self.root[self.parents[x]] == self.root[x] and "
                "self.root[self.root[x]] == self.root[x] and "
                "iff(self.parents[x] == x, self.root[x] == x)), "
                "x in self.parents, self.root[x])"),
               ("links lead towards the root",
                "forall('x:Obj', imp(x in self.parents, "
                "self.depth[x] >= 0 and "
                "iff(self.depth[x] == 0, self.root[x] == x) and "
                "imp(self.parents[x] != x, "
                "self.depth[self.parents[x]] < self.depth[x])), "
                "x in self.parents, self.depth[x])")])

# the representative of x, which is x itself if it has not been seen
REG.macro("rep", "m, x", "ite(x in m, m[x], x)")

REG.fn(UF + ".__init__", props=["C02"], params="self:UnionFind",
       ensures=[("new structures are empty", "dom(self) == emptyset('Obj')")])

REG.fn(UF + ".__getitem__", props=["C02"], params="self:UnionFind, object:Obj",
       returns="Obj", modifies=["self"],
       ensures=[("the representative is returned",
                 "result == rep(old(self), object)"),
                ("only the item is added",
                 "forall('x:Obj', iff(x in self, x in old(self) or "
                 "x == object), x in self)"),
                ("lookups keep all representatives",
                 "forall('x:Obj', imp(x in self, "
                 "self[x] == rep(old(self), x)), self[x])"),
                ("representatives are members",
                 "result in self and self[result] == result and "
                 "forall('x:Obj', imp(x in self, self[x] in self), "
                 "self[x])")],
       entry="""
if object not in self.parents:
    self.root[object] = object
    self.depth[object] = 0
""",
       loops={1: Loop(inv=["len(path) >= 1 and path[0] == object",
                           "forall('i:int', imp(0 <= i and i < len(path), "
                           "path[i] in self.parents and "
                           "self.root[path[i]] == self.root[object]), "
                           "path[i])",
                           "root == self.parents[path[len(path)-1]]"],
                      decreases="self.depth[path[len(path)-1]]"),
              2: Loop(inv=["dom(self.parents) == entry(dom(self.parents))",
                           "forall('i:int', imp(0 <= i and i < len(path), "
                           "path[i] in self.parents and "
                           "self.root[path[i]] == root), path[i])",
                           "root in self.parents and "
                           "self.root[root] == root",
                           "self.depth[root] == 0",
                           "forall('x:Obj', imp(x in self.parents, "
                           "self.parents[x] == entry(self.parents)[x] or "
                           "self.parents[x] == root and "
                           "self.root[x] == root), x in self.parents)"])})

REG.fn(UF + ".__iter__", props=["C02"], params="self:UnionFind", returns="iter[Obj]",
       ensures=[("every item once",
                 "forall('x:Obj', iff(x in self, "
                 "exists('i:int', 0 <= i and i < len(seqof(result)) and "
                 "seqof(result)[i] == x)))"),
                ("no item twice",
                 "forall('i:int, j:int', imp(0 <= i and i < j and "
                 "j < len(seqof(result)), "
                 "seqof(result)[i] != seqof(result)[j]))"),
                ("at the start", "posof(result) == 0")])

REG.fn(UF + ".union", props=["C02"], params="self:UnionFind, objects:list[Obj]",
       modifies=["self"], raises={"ValueError": "len(objects) == 0"}, torn=True,
       locals={"_out": "list[Obj]"},
       ensures=[("only the given items are added",
                 "forall('x:Obj', iff(x in self, x in old(self) or "
                 "x in objects), x in self)"),
                ("exactly the sets of the given items are merged",
                 "forall('x:Obj, y:Obj', imp(x in self and y in self, "
                 "iff(self[x] == self[y], "
                 "rep(old(self), x) == rep(old(self), y) or "
                 "(exists('i:int', 0 <= i and i < len(objects) and "
                 "rep(old(self), objects[i]) == rep(old(self), x)) and "
                 "exists('i:int', 0 <= i and i < len(objects) and "
                 "rep(old(self), objects[i]) == rep(old(self), y))))), "
                 "(self[x], self[y]))"),
                ("representatives are members",
                 "forall('x:Obj', imp(x in self, self[x] in self and "
                 "self[self[x]] == self[x]), self[x])")],
       exit="""
assert forall('x:Obj', imp(x in self, iff(self.root[x] == heaviest, exists('i:int', 0 <= i and i < len(objects) and roots[i] == rep(old(self), x)))), self.root[x])
assert forall('x:Obj', imp(x in self, iff(self.root[x] == heaviest, exists('i:int', 0 <= i and i < len(objects) and rep(old(self), objects[i]) == rep(old(self), x)))), self.root[x])
assert forall('x:Obj', imp(x in self, self.root[x] == rep(old(self), x) or self.root[x] == heaviest), self.root[x])
""",
       loops={"c1": Loop(selfinv=True, inv=[
           "len(_out) == _k",
           "forall('x:Obj', iff(x in self, x in old(self) or "
           "exists('i:int', 0 <= i and i < _k and objects[i] == x)), "
           "x in self)",
           "forall('x:Obj', imp(x in self, self[x] == rep(old(self), x)), "
           "self[x])",
           "forall('i:int', imp(0 <= i and i < _k, "
           "_out[i] == rep(old(self), objects[i]) and _out[i] in self and "
           "objects[i] in self and self[_out[i]] == _out[i] and "
           "_out[i] in self.weights), "
           "_out[i], objects[i])"]),
              1: Loop(selfinv=True, inv=[
           "dom(self.parents) == entry(dom(self.parents))",
           "heaviest in self and self.root[heaviest] == heaviest",
           "forall('x:Obj', imp(x in self, self.root[x] == "
           "entry(self.root)[x] or self.root[x] == heaviest), "
           "self.root[x])",
           "forall('x:Obj', imp(x in self, iff(self.root[x] == heaviest, "
           "entry(self.root)[x] == heaviest or exists('i:int', "
           "0 <= i and i < _k and "
           "roots[i] == entry(self.root)[x]))), self.root[x])"],
                      start="""
if r != heaviest:
    self.depth = lam('x:Obj', ite(self.root[x] == r, self.depth[x] + 1, self.depth[x]))
    self.root = lam('x:Obj', ite(self.root[x] == r, heaviest, self.root[x]))
""")})
