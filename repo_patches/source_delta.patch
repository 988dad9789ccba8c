From 451d3b3433bbf863fbe4ebd92d27596d0677cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:37 +0000
Subject: [PATCH 01/35] fix: UnionFind.union no longer compares set names on
 weight ties

union() picked the heaviest root by taking the maximum of (weight, name)
pairs, so a tie compared the names and raised TypeError for items of
different types.
---
 pads/union_find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/union_find.py b/pads/union_find.py
index 320bba1..402b836 100644
--- a/pads/union_find.py
+++ b/pads/union_find.py
@@ -59,7 +59,7 @@ class UnionFind:
     def union(self, *objects):
         """Find the sets containing the objects and merge them all."""
         roots = [self[x] for x in objects]
-        heaviest = max([(self.weights[r], r) for r in roots])[1]
+        heaviest = max(roots, key=lambda r: self.weights[r])
         for r in roots:
             if r != heaviest:
                 self.weights[heaviest] += self.weights[r]
-- 
2.43.0


From e5dbf1c6429f661ad26134acc7cab41b0b1a05ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:37 +0000
Subject: [PATCH 02/35] fix: raise IndexError when indexing an empty Sequence

Index 0 of an empty sequence returned None, or the last item removed.
---
 pads/sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/sequence.py b/pads/sequence.py
index adc3a2b..38bc354 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -46,6 +46,8 @@ class Sequence:
 
     def __getitem__(self, i):
         """Return the ith item in the sequence."""
+        if not self._next:
+            raise IndexError("Index out of range")
         item = self._first
         while i:
             item = self._next[item]
-- 
2.43.0


From 48bad1b491871894d6b44bbabe7f4ab9c77bd13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:37 +0000
Subject: [PATCH 03/35] fix: use sys.maxsize in ordered sequences

sys.maxint does not exist in Python 3, so the first append failed.
---
 pads/ordered_sequence.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 9d6a933..5f4e146 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -18,7 +18,7 @@ class SimpleOrderedSequence(Sequence):
     for each item, with the order of tags the same as the sequence order.
     When two tags collide, we renumber the whole sequence; this behavior
     can be changed by overriding the rebalance method.  Renumbers happen
-    infrequently (roughly one in every log(sys.maxint) insertions)
+    infrequently (roughly one in every log(sys.maxsize) insertions)
     but take time proportional to the number of items, so it is preferable
     to use this data structure only for sequences of very few items.
     """
@@ -45,7 +45,7 @@ class SimpleOrderedSequence(Sequence):
         """Add x to the end of the sequence."""
         if not self._next:  # add to empty sequence
             Sequence.append(self, x)
-            self._tag[self.key(x)] = sys.maxint // 2
+            self._tag[self.key(x)] = sys.maxsize // 2
         else:
             self.insertAfter(self._prev[self._first], x)
 
@@ -56,7 +56,7 @@ class SimpleOrderedSequence(Sequence):
         y = self.key(y)
         next = self._next[y]
         if next == self._first:
-            nexttag = sys.maxint
+            nexttag = sys.maxsize
         else:
             nexttag = self._tag[next]
         xtag = self._tag[x]
@@ -77,7 +77,7 @@ class SimpleOrderedSequence(Sequence):
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
         base = 0
-        increment = sys.maxint // len(self)
+        increment = sys.maxsize // len(self)
         for y in self:
             self._tag[y] = base
             base += increment
-- 
2.43.0


From 069e92c71d7ee6a17997ba5a5be1746fe3049fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:37 +0000
Subject: [PATCH 04/35] fix: tag items inserted before a non-first item

SimpleOrderedSequence.insertBefore only gave the new item a tag when it
became the first item. In the other cases cmp() raised KeyError for it.
---
 pads/ordered_sequence.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 5f4e146..adfaf1e 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -66,13 +66,15 @@ class SimpleOrderedSequence(Sequence):
 
     def insertBefore(self, x, y):
         """Add y before x in the sequence."""
+        if self._first != self.key(x):
+            self.insertAfter(self.predecessor(x), y)
+            return
         Sequence.insertBefore(self, x, y)
         x = self.key(x)
         y = self.key(y)
-        if self._first == y:
-            self._tag[y] = self._tag[x] // 2
-            if self._tag[y] == self._tag[x]:
-                self.rebalance(y)
+        self._tag[y] = self._tag[x] // 2
+        if self._tag[y] == self._tag[x]:
+            self.rebalance(y)
 
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
-- 
2.43.0


From e9f4118c712d2c02e05f2eb9559073c385e934e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:37 +0000
Subject: [PATCH 05/35] fix: make ordered sequences work with a key function

append() passed a key where an item was expected, and rebalance() stored
tags under the items instead of their keys.
---
 pads/ordered_sequence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index adfaf1e..a90462a 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -47,7 +47,8 @@ class SimpleOrderedSequence(Sequence):
             Sequence.append(self, x)
             self._tag[self.key(x)] = sys.maxsize // 2
         else:
-            self.insertAfter(self._prev[self._first], x)
+            last = self._prev[self._first]
+            self.insertAfter(self._items.get(last, last), x)
 
     def insertAfter(self, x, y):
         """Add y after x and compute a tag for it."""
@@ -81,7 +82,7 @@ class SimpleOrderedSequence(Sequence):
         base = 0
         increment = sys.maxsize // len(self)
         for y in self:
-            self._tag[y] = base
+            self._tag[self.key(y)] = base
             base += increment
 
 
-- 
2.43.0


From d60cf2e6197d56b9689da15c776330dd87ea9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:37 +0000
Subject: [PATCH 06/35] fix: adding a present item to a SortedSet no longer
 duplicates it

An item already listed by an earlier iteration and then added again was
reported twice by the next iteration.
---
 pads/sorted_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/sorted_set.py b/pads/sorted_set.py
index 82b71c2..e51a45b 100644
--- a/pads/sorted_set.py
+++ b/pads/sorted_set.py
@@ -39,9 +39,9 @@ class SortedSet:
 
     def add(self, item):
         """Add the given item to a sorted set."""
-        self._set.add(item)
-        if self._previous:
+        if self._previous and item not in self._set:
             self._additions.add(item)
+        self._set.add(item)
 
     def remove(self, item):
         """Remove the given item from a sorted set."""
-- 
2.43.0


From c906adb3184833a1a3279e4d198d3612a764c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:37 +0000
Subject: [PATCH 07/35] fix: BitVectorHeap.remove only removes the given value

The mask was computed as (~1) << x, which also cleared every smaller
value from the heap.
---
 pads/integer_heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/integer_heap.py b/pads/integer_heap.py
index f851690..e81b984 100644
--- a/pads/integer_heap.py
+++ b/pads/integer_heap.py
@@ -83,7 +83,7 @@ class BitVectorHeap:
 
     def remove(self, x):
         """Remove x from the values in the heap."""
-        self._S &= ~ 1 << x
+        self._S &= ~ (1 << x)
 
     def min(self):
         """Return the minimum value in the heap."""
-- 
2.43.0


From 1a7bc72b96b5e48bd4a32d63a9acd5f3dd09ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:16 +0000
Subject: [PATCH 08/35] fix: isTopologicalOrder rejects sequences with repeated
 vertices

---
 pads/partial_order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index 630744f..f151579 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -13,7 +13,7 @@ def isTopologicalOrder(G, L):
     """Check that L is a topological ordering of directed graph G."""
     vnum = {}
     for i in range(len(L)):
-        if L[i] not in G:
+        if L[i] not in G or L[i] in vnum:
             return False
         vnum[L[i]] = i
     for v in G:
-- 
2.43.0


From 77c489e5e828f5931333d8b17a8b4f87aef30836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:16 +0000
Subject: [PATCH 09/35] fix: trace whole paths in path and chain decompositions

TracePaths assumed that each path is contiguous in the topological order.
When it was not, the path was split and the decomposition was no longer
minimum.
---
 pads/partial_order.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index f151579..3070003 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -57,14 +57,13 @@ def TracePaths(G):
     """
     Turn a DAG with indegree and outdegree <= 1 into a sequence of lists.
     """
-    L = []
+    successors = {w for v in G for w in G[v]}
     for v in TopologicalOrder(G):
-        if L and v not in G[L[-1]]:
+        if v not in successors:
+            L = [v]
+            while G[L[-1]]:
+                L.extend(G[L[-1]])
             yield L
-            L = []
-        L.append(v)
-    if L:
-        yield L
 
 
 def MinimumPathDecomposition(G):
-- 
2.43.0


From ebbfe04c19076708046166c72752f0db680cab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:16 +0000
Subject: [PATCH 10/35] fix: MaximumAntichain keeps elements without
 predecessors

The independent set returned by matching() only lists vertices that have
incident edges on the second side, so minimal elements of the order were
always dropped from the antichain.
---
 pads/partial_order.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index 3070003..e8c6c62 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -94,5 +94,7 @@ def MaximumAntichain(G):
     """
     if not isAcyclic(G):
         raise ValueError("MaximumAntichain: input is not acyclic.")
-    M, A, B = matching(TransitiveClosure(G))
-    return set(A).intersection(B)
+    TC = TransitiveClosure(G)
+    M, A, B = matching(TC)
+    covered = {w for v in TC for w in TC[v]}.difference(B)
+    return set(A).difference(covered)
-- 
2.43.0


From a19ac3f5ffa9c995f92ceada3b2128dbc30e2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:16 +0000
Subject: [PATCH 11/35] fix: imperfections handles graphs with unmatched
 second-side vertices

A matching that covers the first side only is not perfect. This case
raised KeyError.
---
 pads/bipartite_matching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index 7a4b156..da0e8a3 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -98,7 +98,8 @@ def imperfections(graph):
     not including v.
     """
     M, A, B = matching(graph)
-    if len(M) != len(graph):
+    if len(M) != len(graph) or \
+            any(w not in M for v in graph for w in graph[v]):
         return graph    # whole graph is imperfect
 
     orientation = {}
-- 
2.43.0


From 2763e19b3b613b7e5352c6f5bf10ae452ddb738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:16 +0000
Subject: [PATCH 12/35] fix: st_orientation rejects graphs with isolated
 vertices

An isolated vertex next to one block went unnoticed, and the result had
more than one source and sink.
---
 pads/biconnectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/biconnectivity.py b/pads/biconnectivity.py
index eacc0b1..80041f1 100644
--- a/pads/biconnectivity.py
+++ b/pads/biconnectivity.py
@@ -1,6 +1,6 @@
 """DFS-based algorithm for computing biconnected components."""
 
-from .graphs import is_undirected
+from .graphs import is_undirected, min_degree
 from .dfs import Searcher
 
 disconnected = object()  # flag for BiconnectedComponents
@@ -191,7 +191,7 @@ class STOrienter(Searcher):
 def st_orientation(G):
     """Find an acyclic orientation of G, with one source and one sink."""
     stO = STOrienter(G)
-    if len(stO.roots) != 1:
+    if len(stO.roots) != 1 or min_degree(G) == 0:
         raise NotBiconnected
 
     source, dest = stO.roots[0]
-- 
2.43.0


From 2baea8a4f3441fb2d6d209e8dadaf1663799e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:16 +0000
Subject: [PATCH 13/35] fix: lex_bfs accepts the graph without vertices

---
 pads/lex_bfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/lex_bfs.py b/pads/lex_bfs.py
index b23d0bd..132df46 100644
--- a/pads/lex_bfs.py
+++ b/pads/lex_bfs.py
@@ -22,7 +22,7 @@ def lex_bfs(G):
     Running time is O(n+m) and additional space usage over G is O(n).
     """
     P = PartitionRefinement(G)
-    S = Sequence(P, key=id)
+    S = Sequence((set for set in P if set), key=id)
     while S:
         set = S[0]
         v = arbitrary_item(set)
-- 
2.43.0


From 9d0da41f35fc1b57777603d09b81989c83609381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:16 +0000
Subject: [PATCH 14/35] fix: MinimumSpanningTree sorts edges by weight only

Weight ties compared the vertices themselves, which raised TypeError for
vertices without a common order.
---
 pads/minimum_spanning_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/minimum_spanning_tree.py b/pads/minimum_spanning_tree.py
index 53cb041..a0759da 100644
--- a/pads/minimum_spanning_tree.py
+++ b/pads/minimum_spanning_tree.py
@@ -28,7 +28,8 @@ def MinimumSpanningTree(G):
     # part (the sort) is sped up by being built in to Python.
     subtrees = UnionFind()
     tree = []
-    for W, u, v in sorted((G[u][v], u, v) for u in G for v in G[u]):
+    for W, u, v in sorted(((G[u][v], u, v) for u in G for v in G[u]),
+                          key=lambda edge: edge[0]):
         if subtrees[u] != subtrees[v]:
             tree.append((u, v))
             subtrees.union(u, v)
-- 
2.43.0


From 89ff0058ffd62152501d7f50f25ea9d2ad1f0b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:16 +0000
Subject: [PATCH 15/35] fix: core returns the empty set for k above the
 degeneracy

---
 pads/graphdegeneracy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/graphdegeneracy.py b/pads/graphdegeneracy.py
index 344d486..349a683 100644
--- a/pads/graphdegeneracy.py
+++ b/pads/graphdegeneracy.py
@@ -49,6 +49,8 @@ def core(G, k=None):
                 coreset = set()         # yes, restart core
                 level = d
         coreset.add(v)
+    if k is not None and level < k:     # no core this deep
+        return set()
     return coreset
 
 
-- 
2.43.0


From 38e3177de2a6691c5025b5c30b0b297ece57587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:53 +0000
Subject: [PATCH 16/35] fix: factored_integers no longer changes dictionaries
 already yielded

---
 pads/eratosthenes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/eratosthenes.py b/pads/eratosthenes.py
index 7822da8..a4cfcbc 100644
--- a/pads/eratosthenes.py
+++ b/pads/eratosthenes.py
@@ -77,12 +77,12 @@ def factored_integers():
         if i not in factorization:  # prime
             F = {i: 1}
             yield i, F
-            factorization[2 * i] = F
+            factorization[2 * i] = dict(F)
         elif len(factorization[i]) == 1:    # prime power
             p, x = next(iter(factorization[i].items()))
             F = {p: x + 1}
             yield i, F
-            factorization[2 * i] = F
+            factorization[2 * i] = dict(F)
             factorization[i + p**x][p] = x
             del factorization[i]
         else:
-- 
2.43.0


From a97409d4e02bfb06b0cd0545b98042614adef3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:53 +0000
Subject: [PATCH 17/35] fix: RegExp accepts the empty word without accepting
 extra words

Marking the initial states as accepting made expressions such as (a*b)*
accept a, because an initial state can be entered again in mid-word.  It
also made the empty expression reject the empty word.
---
 pads/automata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 590ae02..02ae010 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -389,7 +389,7 @@ class RegExp(NFA):
             self.successor[state].add(final)
         self.final = frozenset([final])
         if epsilon:
-            self.final = self.final | self.initial
+            self.initial = self.initial | self.final
 
     def transition(self, state, c):
         """Implement NFA transition function."""
-- 
2.43.0


From 6df396d3ae1f02517c4b09cbd0d6cafe70d71e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:53 +0000
Subject: [PATCH 18/35] fix: NFA.RegExp writes the empty alternative as ()

---
 pads/automata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pads/automata.py b/pads/automata.py
index 02ae010..436c9c0 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -310,6 +310,7 @@ class NFA(FiniteAutomaton):
                         if expr[s, y]:
                             xsy += self._parenthesize(expr[s, y])
                         if expr[x, y] is not None:
+                            xsy = xsy or ['()']
                             xsy += ['+', expr[x, y] or '()']
                         expr[x, y] = ''.join(xsy)
         return expr[initial, final]
-- 
2.43.0


From 1dc00227631943d3f314345122f33badbd5b502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:53 +0000
Subject: [PATCH 19/35] fix: NFA.pprint works in Python 3

---
 pads/automata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 436c9c0..089e4ac 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -3,6 +3,8 @@ deterministic finite automata, and nondeterministic finite automata.
 
 """
 
+from __future__ import print_function
+
 import sys
 import operator
 
@@ -261,12 +263,12 @@ class NFA(FiniteAutomaton):
             if not [c for c in self.alphabet if self.transition(state, c)]:
                 adjectives.append("terminal")
             if not adjectives:
-                print >>output, state
+                print(state, file=output)
             else:
-                print >>output, state, "(" + ", ".join(adjectives) + ")"
+                print(state, "(" + ", ".join(adjectives) + ")", file=output)
             for c in self.alphabet:
                 for neighbor in self.transition(state, c):
-                    print >>output, "  --[" + str(c) + "]-->", neighbor
+                    print("  --[" + str(c) + "]-->", neighbor, file=output)
 
     def RegExp(self):
         """Convert to regular expression and return as a string.
-- 
2.43.0


From 2b0d6f2daee6ffd4e480a111d5b62f0dd7993870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:53 +0000
Subject: [PATCH 20/35] fix: truth value and containment tests of regular
 languages

---
 pads/automata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 089e4ac..402b43e 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -96,13 +96,15 @@ class RegularLanguage:
             raise LanguageError("Unable to intersect nonregular language")
         return language(self.recognizer.symmetricDifference(other.recognizer))
 
-    def __nonzero__(self):
-        """Is this the empty language?"""
+    def __bool__(self):
+        """Is this not the empty language?"""
         for x in self.recognizer.states():
-            if x.isfinal():
+            if self.recognizer.isfinal(x):
                 return True
         return False
 
+    __nonzero__ = __bool__
+
 
 class FiniteAutomaton:
 
-- 
2.43.0


From b49eeca518331189802bd5a58f02e9263dcdacec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:03 +0000
Subject: [PATCH 21/35] fix: DFA comparison takes accepting states into account

---
 pads/automata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/automata.py b/pads/automata.py
index 402b43e..34dc498 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -213,6 +213,8 @@ class DFA(FiniteAutomaton):
         while unprocessed:
             x = unprocessed.pop()
             y = equivalences[x]
+            if bool(self.isfinal(x)) != bool(other.isfinal(y)):
+                return False
             for c in self.alphabet:
                 xc = self.transition(x, c)
                 yc = other.transition(y, c)
-- 
2.43.0


From c98b64c75ec5544d1e65c633790f94659aafbfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:39 +0000
Subject: [PATCH 22/35] fix: DFA minimization refines by the whole part for
 every symbol

---
 pads/automata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 34dc498..6f236bf 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -591,9 +591,10 @@ class _MinimumDFA(DFA):
         while unrefined:
             part = arbitrary_item(unrefined)
             unrefined.remove(part)
+            splitter = list(part)   # part itself may be split below
             for symbol in D.alphabet:
                 neighbors = set()
-                for state in part:
+                for state in splitter:
                     neighbors |= N.transition(state, symbol)
                 for new, old in P.refine(neighbors):
                     if old in unrefined or len(new) < len(old):
-- 
2.43.0


From 4bb5765fe56636cc9676a404f1ef90140d4cc9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:18 +0000
Subject: [PATCH 23/35] fix: LCA no longer compares tree nodes on level ties

---
 pads/lca.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index 3d2de70..ceeca72 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -139,10 +139,13 @@ class RestrictedRangeMin:
             position = self._blocks[firstblock][i:i + right - left][1]
             return self._data[position + (firstblock << self._blocksize)]
         else:
-            best = min(self._suffix[left], self._prefix[right])
+            # Combine adjacent ranges only: two nodes of an Euler tour with
+            # equal levels might not be comparable to each other, but there
+            # is always another node of smaller level between them.
+            best = self._suffix[left]
             if lastblock > firstblock + 1:
                 best = min(best, self._blockrange[firstblock + 1:lastblock])
-            return best
+            return min(best, self._prefix[right])
 
     def _blockid(self, XX):
         """Return value such that all blocks with the same
-- 
2.43.0


From 115e7929198af3a52fa9fcb825ad0a0dfb23352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:44 +0000
Subject: [PATCH 24/35] fix: LCA and RangeMin no longer exceed the recursion
 limit

---
 pads/lca.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index ceeca72..aa312b4 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -226,11 +226,19 @@ class LCA:
     def _visit(self, children, levels, node, level):
         """Perform Euler traversal of tree."""
         self._representatives[node] = len(levels)
-        pair = (level, node)
-        levels.append(pair)
-        for child in children[node]:
-            self._visit(children, levels, child, level + 1)
-            levels.append(pair)
+        levels.append((level, node))
+        path = [(level, node, iter(children[node]))]
+        while path:
+            level, node, unvisited = path[-1]
+            for child in unvisited:
+                self._representatives[child] = len(levels)
+                levels.append((level + 1, child))
+                path.append((level + 1, child, iter(children[child])))
+                break
+            else:
+                path.pop()
+                if path:
+                    levels.append(path[-1][:2])
 
 
 class OfflineLCA(defaultdict):
-- 
2.43.0


From f136f0647b6e4baf17d5dddbd5829260b356be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:44 +0000
Subject: [PATCH 25/35] fix: OfflineLCA no longer exceeds the recursion limit

---
 pads/lca.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index aa312b4..edaaf20 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -279,15 +279,24 @@ class OfflineLCA(defaultdict):
     def traverse(self, node):
         """Perform depth first traversal of tree."""
         self.ancestors[self.descendants[node]] = node
-        for child in self.children[node]:
-            self.traverse(child)
-            self.descendants.union(child, node)
-            self.ancestors[self.descendants[node]] = node
-        self.visited.add(node)
-        for query in self[node]:
-            if query in self.visited:
-                lca = self.ancestors[self.descendants[query]]
-                self[node][query] = self[query][node] = lca
+        path = [(node, iter(self.children[node]))]
+        while path:
+            node, unvisited = path[-1]
+            for child in unvisited:
+                self.ancestors[self.descendants[child]] = child
+                path.append((child, iter(self.children[child])))
+                break
+            else:
+                path.pop()
+                self.visited.add(node)
+                for query in self[node]:
+                    if query in self.visited:
+                        lca = self.ancestors[self.descendants[query]]
+                        self[node][query] = self[query][node] = lca
+                if path:
+                    parent = path[-1][0]
+                    self.descendants.union(node, parent)
+                    self.ancestors[self.descendants[parent]] = parent
 
 # Various utility functions
 
-- 
2.43.0


From c87476e48c347250f253cea26fa7eff71c6fcaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:30 +0000
Subject: [PATCH 26/35] fix: partial cube labeling no longer compares vertices
 on degree ties

---
 pads/partial_cube.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/partial_cube.py b/pads/partial_cube.py
index 19ac1ba..bae4af4 100644
--- a/pads/partial_cube.py
+++ b/pads/partial_cube.py
@@ -60,7 +60,8 @@ def PartialCubeEdgeLabeling(G):
             raise MediumError("graph is not bipartite")
 
         # Find max degree vertex in G, and update label limit
-        deg, root = max([(len(CG[v]), v) for v in CG])
+        root = max(CG, key=lambda v: len(CG[v]))
+        deg = len(CG[root])
         if deg > NL:
             raise MediumError("graph has too many equivalence classes")
         NL -= deg
-- 
2.43.0


From 1a6416c98ada769425de04b56644e1f1cca8e3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:30 +0000
Subject: [PATCH 27/35] fix: readUndirectedGraph can test for the LEDA format

---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index b0299d3..583df2e 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -370,7 +370,7 @@ def ledaLines(lines):
     """
     def relevant(line):
         return line and not line.startswith('#')
-    return filter(relevant, lines)
+    return list(filter(relevant, lines))
 
 
 def readLeda(lines):
-- 
2.43.0


From f66cfe725618f058f40e6ab3ebe3d139b803bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:31 +0000
Subject: [PATCH 28/35] fix: readSparse6 skips the whole header

---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 583df2e..6738735 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -307,7 +307,7 @@ def readGraph6(str):
 def readSparse6(str):
     """Read undirected graph in sparse6 format."""
     if str.startswith('>>sparse6<<'):
-        str = str[10:]
+        str = str[11:]
     if not str.startswith(':'):
         raise GraphFormatError('Expected colon in sparse6')
     n, data = graph6n(graph6data(str[1:]))
-- 
2.43.0


From b572eb6c394c5ae1972779f0cf3b43a5acfff3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:31 +0000
Subject: [PATCH 29/35] fix: readSparse6 no longer lets StopIteration out of a
 generator

---
 pads/read_undirected_graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 6738735..1156fc7 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -323,7 +323,9 @@ def readSparse6(str):
 
         while 1:
             if dLen < 1:
-                d = next(chunks)
+                d = next(chunks, None)
+                if d is None:
+                    return
                 dLen = 6
             dLen -= 1
             b = (d >> dLen) & 1  # grab top remaining bit
@@ -331,7 +333,9 @@ def readSparse6(str):
             x = d & ((1 << dLen) - 1) 	# partially built up value of x
             xLen = dLen				# how many bits included so far in x
             while xLen < k:			# now grab full chunks until we have enough
-                d = next(chunks)
+                d = next(chunks, None)
+                if d is None:
+                    return
                 dLen = 6
                 x = (x << 6) + d
                 xLen += 6
-- 
2.43.0


From aa285125d64fade0d3031066987a7b8d8cb591a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:31 +0000
Subject: [PATCH 30/35] fix: readSparse6 stops at padding that moves past the
 last vertex

---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 1156fc7..2d5455c 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -352,7 +352,7 @@ def readSparse6(str):
     for b, x in parseData():
         if b:
             v += 1
-        if x >= n:
+        if x >= n or v >= n:
             break			# padding with ones can cause overlarge number here
         elif x > v:
             v = x
-- 
2.43.0


From 8b8731cb3e2917d3c74f5769b0e540bbce81415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:31 +0000
Subject: [PATCH 31/35] fix: SVG.rectangle writes the y coordinate

---
 pads/svg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/svg.py b/pads/svg.py
index 0ebc634..a439293 100644
--- a/pads/svg.py
+++ b/pads/svg.py
@@ -111,11 +111,11 @@ class SVG:
     def rectangle(self, p, q, style={}, **morestyle):
         """Rectangle with corners at points p and q"""
         x = min(p.real, q.real)
-        # y = min(p.imag, q.imag)
+        y = min(p.imag, q.imag)
         width = abs((p - q).real)
         height = abs((p - q).imag)
         self.element('rect x="%s" y="%s" width="%s" height="%s"' %
-                     (_coord(x), _coord(x), _coord(width), _coord(height)),
+                     (_coord(x), _coord(y), _coord(width), _coord(height)),
                      style=style, **morestyle)
 
     def polygon(self, points, style={}, **morestyle):
-- 
2.43.0


From 6b630b9e8f6937775e7a3524ccd33fdfdf5622ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:31 +0000
Subject: [PATCH 32/35] fix: third ring of generalized Coxeter graphs

---
 pads/graph_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/graph_examples.py b/pads/graph_examples.py
index 69108a1..4584991 100644
--- a/pads/graph_examples.py
+++ b/pads/graph_examples.py
@@ -23,7 +23,7 @@ def GeneralizedCoxeterGraph(n, a, b):
         G[i, 0] = (i, 1), (i, 2), (i, 3)
         G[i, 1] = (i, 0), ((i + 1) % n, 1), ((i - 1) % n, 1)
         G[i, 2] = (i, 0), ((i + a) % n, 2), ((i - a) % n, 2)
-        G[i, 3] = (i, 0), ((i + b) % n, 1), ((i - b) % n, 1)
+        G[i, 3] = (i, 0), ((i + b) % n, 3), ((i - b) % n, 3)
     return G
 
 CoxeterGraph = GeneralizedCoxeterGraph(7, 2, 3)
-- 
2.43.0


From 59ca7fead72dc0e61f4ba9a2e5ce72774a2c21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:31 +0000
Subject: [PATCH 33/35] fix: NormalizePacking works in Python 3

---
 pads/circle_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 49ce484..75cc7d8 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -85,7 +85,7 @@ def NormalizePacking(packing, k=None, target=1.0):
     else:
         z, r = packing[k]
     s = target / r
-    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.iteritems())
+    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.items())
 
 
 def InvertAround(packing, k, smallCircles=None):
-- 
2.43.0


From 55618a80cefe7fb1a73424526a1890fdee33b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:31 +0000
Subject: [PATCH 34/35] fix: wrap imports smawk from its own package

---
 pads/wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/wrap.py b/pads/wrap.py
index f9dc6e0..cc83250 100644
--- a/pads/wrap.py
+++ b/pads/wrap.py
@@ -10,7 +10,7 @@ time via the OnlineConcaveMinima algorithm in SMAWK.py.
 D. Eppstein, August 2005.
 """
 
-from smawk import OnlineConcaveMinima
+from .smawk import OnlineConcaveMinima
 
 
 def wrap(text,                 # string or unicode to be wrapped
-- 
2.43.0


From 9a66a361b5a82d45d6cf9f44e74d9f7c7632fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:42 +0000
Subject: [PATCH 35/35] fix: looking up an item by its key keeps the stored
 item

---
 pads/sequence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/sequence.py b/pads/sequence.py
index 38bc354..b4598f0 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -72,7 +72,8 @@ class Sequence:
         if not self._key:
             return x
         key = self._key(x)
-        self._items[key] = x
+        if key not in self._next:
+            self._items[key] = x
         return key
 
     def _insafter(self, x, y):
-- 
2.43.0

