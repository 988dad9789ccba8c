"""Write properties.jsonl (run from /verif; the output is committed)."""
import json

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None,
      state=None):
    a = {"files": ["pads/%s.py" % f for f in files.split()],
         "mechanism": [{"name": n, "where": "pads/%s" % w}
                       for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "pads/%s" % w}
                      for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "Symbolic negation is an involution without fixed points",
  "For every hashable x, Not(Not(x)) equals x and Not(x) differs from x; "
  "two negations are equal exactly when the negated values are equal, and "
  "equal negations have equal hashes, so negated values work as dictionary "
  "keys and set members.",
  "inputs", "all hashable values, including values that are negations",
  "Tests try a few literals; the laws quantify over all values.",
  "_not", [("double negation is collapsed when a negation is negated",
            "_not.py Not")])
p("C02", "Union-find keeps exactly the partition generated by its unions",
  "After any sequence of lookups and unions, looking up two objects gives "
  "the same representative exactly when they are connected by the unions "
  "made so far; objects never united are alone, the representative of a set "
  "is one of its members, and iterating yields every object seen exactly "
  "once.  Lookups never change which objects are together, and objects need "
  "only be hashable.",
  "histories inputs", "all sequences of lookups and unions of any number of "
  "arguments", "There is no direct test; the quantifier ranges over all "
  "operation histories.", "union_find",
  [("parent pointers with path compression, union by weight",
    "union_find.py UnionFind.__getitem__, union")])
p("C03", "Sequence behaves as a list of distinct items under every operation",
  "After any series of operations a Sequence holds the same items in the "
  "same order as a list on which the corresponding operations were made: "
  "append adds at the end, insertAfter and insertBefore add next to a given "
  "item, remove deletes it, predecessor, successor, integer indexing, length "
  "and iteration agree with that list, where the neighbour beyond either end "
  "is the item at the other end.  Inserting an item that is already present "
  "raises SequenceError, using an absent item raises KeyError, indexing past "
  "the end raises IndexError, and in all these cases nothing changes.",
  "histories inputs", "all operation histories, with and without a key "
  "function", "Used only indirectly by tests; an operation history is a "
  "universally quantified object.", "sequence",
  [("circularly linked next and previous tables",
    "sequence.py Sequence._insafter, remove")])
p("C04", "Ordered sequences compare items by their position",
  "In SimpleOrderedSequence and LogarithmicOrderedSequence, after any series "
  "of appends, insertions next to existing items and removals, cmp(x,y) is "
  "negative, zero or positive exactly when x comes before, equals, or comes "
  "after y in iteration order; this keeps holding when insertions exhaust "
  "the room between tags and force relabelling.",
  "histories inputs", "all histories of insertions and removals, including "
  "adversarial ones that force rebalancing", "No tests exercise the "
  "structure; rebalancing needs long insertion patterns.",
  "ordered_sequence sequence",
  [("integer tags increasing along the list, with rebalancing",
    "ordered_sequence.py rebalance")])
p("C05", "Bucket queue iterates its items in priority order",
  "A BucketQueue behaves as a map from items to nonnegative integer "
  "priorities: setting, changing, looking up, deleting, membership and size "
  "agree with a dictionary.  Iterating repeatedly removes and yields an item "
  "of smallest priority, also when items with priorities no smaller than the "
  "last one yielded are added, changed or deleted during the iteration, and "
  "ends exactly when the queue is empty.",
  "histories inputs", "all histories of updates, including updates made while "
  "iterating", "No direct tests; interleavings of iteration and update are "
  "unbounded.", "bucketqueue",
  [("buckets of items keyed by priority", "bucketqueue.py")])
p("C06", "Partition refinement splits every class by the given set",
  "Refining a partition by a set S replaces each class A that meets both S "
  "and its complement by A∩S and A−S and leaves all other classes "
  "unchanged, returning for each split the pair (A∩S, A−S) in which A−S is "
  "the class that already existed; looking up an element, iterating and the "
  "length always agree with one partition of the elements.  Adding and "
  "removing elements changes only the named class, and freezing turns the "
  "classes into immutable sets with the same contents.",
  "histories inputs", "all sequences of refinements, additions and removals",
  "Used only through minimization and LexBFS.", "partition_refinement",
  [("per-refinement table of hit classes keyed by identity",
    "partition_refinement.py refine")])
p("C07", "Sorted set lists its members in increasing order",
  "A SortedSet behaves as a set: after any series of add, remove and update "
  "calls, its length and members agree with a set, and iterating yields each "
  "member once in nondecreasing order of the comparison given at "
  "construction (or the natural order).", "histories inputs",
  "all operation histories, interleaved with iterations",
  "One short scripted history is tested.", "sorted_set",
  [("items kept by position with incremental re-sorting",
    "sorted_set.py SortedSet.__iter__")])
p("C08", "Integer heaps report the smallest stored value",
  "For every word size i, a heap made for i-bit values behaves as a set of "
  "integers in [0, 2**i): after any series of adds and removes of values, "
  "min() is the smallest member, the heap is true exactly when it is not "
  "empty, adding a present or removing an absent value changes nothing else, "
  "and values out of range are rejected by multi-level heaps.  The bit "
  "vector and linear heaps behave the same way.",
  "histories inputs configurations", "all word sizes and all histories of "
  "adds and removes", "One random history per size is tested.",
  "integer_heap", [("recursive split into high and low halves",
                    "integer_heap.py FlatHeap.add, remove")])
p("C09", "Frequency estimates are within the promised error",
  "After feeding any stream of n items to a FrequencyEstimator with "
  "accuracy e, the estimated frequency of every item is at most its true "
  "frequency (occurrences divided by n) and at least that frequency minus "
  "e; at most 1/e items are listed, and items not listed have estimate 0.",
  "histories inputs configurations", "all streams and all accuracies",
  "There are no tests.", "frequencyestimator",
  [("counters decremented together when the table is full",
    "frequencyestimator.py __iadd__")])
p("C10", "Graph utilities agree with their definitions",
  "For every graph given as a mapping from vertices to neighbour "
  "collections, the tests for being undirected and for independent sets, the "
  "maximum and minimum degree, copies, unions and induced subgraphs agree "
  "with their mathematical definitions; results are new graphs and inputs "
  "are not modified.", "inputs", "all finite graphs with hashable vertices",
  "A few graphs are tested.", "graphs",
  [("direct loops over adjacency", "graphs.py")])
p("C11", "Depth-first search reports each reachable vertex and edge correctly",
  "A depth-first search from a vertex (or of the whole graph) visits exactly "
  "the vertices reachable from the start (or all vertices): each has one "
  "forward event, later one reverse event, properly nested, forward events "
  "follow edges from the vertex being explored to unvisited ones, and every "
  "other edge out of a visited vertex gives one nontree event towards an "
  "already visited vertex.  Preorder and postorder list each visited vertex "
  "once, every vertex in postorder comes after all vertices first reached "
  "through it, and reachable(G,v,w) tells whether a directed path exists.",
  "inputs", "all finite directed graphs and start vertices",
  "Tests cover fixed small graphs through other algorithms.", "dfs",
  [("explicit stack of neighbour iterators", "dfs.py search")])
p("C12", "Breadth-first levels are exact distance layers",
  "For every directed graph and root, the levels generated by "
  "breadth_first_levels have as keys exactly the vertices at distance 0, 1, "
  "2, ... from the root, and map each vertex v at distance d to exactly its "
  "neighbours at distance d+1.", "inputs", "all finite directed graphs and "
  "roots", "No direct tests.", "bfs",
  [("two alternating level sets", "bfs.py breadth_first_levels")])
p("C13", "Topological orders and acyclicity tests are correct",
  "TopologicalOrder returns every vertex exactly once with all edges going "
  "forward, and raises an error exactly when the graph has a directed cycle "
  "(including a self-loop); isAcyclic says whether a directed cycle exists; "
  "isTopologicalOrder accepts exactly the orderings of all vertices, each "
  "once, in which every edge goes forward.", "inputs",
  "all finite directed graphs and all vertex lists",
  "Two small graphs are tested.", "partial_order",
  [("reverse postorder and a final check of every edge",
    "partial_order.py TopologicalOrder")])
p("C14", "Reachability and transitive closure are exact",
  "For every acyclic directed graph, Reachability answers whether a directed "
  "path (possibly empty) leads from source to destination, and "
  "TransitiveClosure maps every vertex to exactly the vertices reachable by "
  "nonempty directed paths.", "inputs", "all finite directed acyclic graphs "
  "and vertex pairs", "A single example is tested.",
  "acyclic_reachability partial_order",
  [("bit vectors accumulated in reverse topological order",
    "acyclic_reachability.py"), ("accumulation in topological order",
                                 "partial_order.py TransitiveClosure")])
p("C15", "Path and chain covers are minimum and antichains maximum",
  "For every directed acyclic graph, MinimumPathDecomposition partitions the "
  "vertices into directed paths and MinimumChainDecomposition into chains of "
  "the reachability order, both with as few parts as possible; "
  "MaximumAntichain returns pairwise unreachable vertices, as many as the "
  "chains of a minimum chain decomposition.", "inputs",
  "all finite directed acyclic graphs", "No tests reach it.",
  "partial_order bipartite_matching",
  [("bipartite matching between vertex copies",
    "partial_order.py MinimumPathDecomposition, MaximumAntichain")])
p("C16", "Strong components are the mutual reachability classes",
  "For every directed graph, the components produced partition the vertices "
  "so that two vertices are together exactly when each is reachable from the "
  "other; each component is given with the edges of the graph between its "
  "vertices, and the length is their number.  Condensation is the graph "
  "whose vertices are these components, with an edge between two different "
  "components exactly when an edge of the graph joins them, and is acyclic.",
  "inputs", "all finite directed graphs", "Fixed examples only.",
  "strong_connectivity", [("low values along the depth-first stack",
                           "strong_connectivity.py")])
p("C17", "2-satisfiability answers are exact",
  "For every implication graph over literals, Satisfiable tells whether some "
  "truth assignment satisfies all implications; Forced returns None exactly "
  "when no assignment exists and otherwise exactly the variables whose value "
  "is the same in all satisfying assignments, with that value; Symmetrize "
  "adds exactly the missing contrapositives and missing literals.",
  "inputs", "all implication graphs",
  "A few instances are tested.", "two_satisfiability",
  [("contradictions are strong components with a literal and its negation",
    "two_satisfiability.py")])
p("C18", "Two-colouring answers match the existence of odd cycles",
  "For every undirected graph, bipartition and two_color succeed exactly "
  "when the graph has no odd cycle and raise NonBipartite otherwise; the "
  "result splits or colours all vertices so that every edge joins the two "
  "classes, is_bipartite agrees, and bipartite_orientation keeps each edge "
  "once, directed from one class to the other.  odd_core returns exactly the "
  "subgraph of edges lying in biconnected components that have odd cycles.",
  "inputs", "all finite undirected graphs", "A few graphs are tested.",
  "bipartite", [("colour alternates along depth-first edges",
                 "bipartite.py two_color")])
p("C19", "Bipartite matchings are maximum, with a matching independent set",
  "For every bipartite graph given as a map from one side to neighbours on "
  "the other, matching returns a matching that uses only edges of the graph "
  "and has the maximum possible size, together with vertex sets of the two "
  "sides whose union is an independent set of maximum size.", "inputs",
  "all finite bipartite graphs", "No tests reach it directly.",
  "bipartite_matching", [("alternating breadth-first layers and augmentation",
                          "bipartite_matching.py matching")])
p("C20", "Imperfections lists exactly the edges outside all perfect matchings",
  "For every bipartite graph given as a map from one side to neighbours on "
  "the other, imperfections returns exactly the edges, in the same map form, "
  "that belong to no perfect matching (one covering every vertex of both "
  "sides); each listed edge comes with a subgraph containing its second end "
  "whose vertices are matched to each other in all perfect matchings.",
  "inputs", "all finite bipartite graphs", "No tests.", "bipartite_matching",
  [("strong components of the matching orientation",
    "bipartite_matching.py imperfections")])
p("C21", "Cardinality matchings in general graphs are maximum",
  "For every undirected graph without loops, matching returns a symmetric "
  "map that pairs vertices along edges of the graph and has the largest "
  "possible number of pairs, also when started from any given valid "
  "matching; greedy_matching returns such a map that cannot be extended by "
  "adding an edge.", "inputs", "all finite undirected graphs and initial "
  "matchings", "No direct tests; blossoms need specific structure.",
  "cardinality_matching", [("blossom contraction and alternating paths",
                            "cardinality_matching.py")])
p("C22", "Biconnectivity and st-orientations are correct",
  "For every undirected graph, BiconnectedComponents yields exactly the "
  "blocks (maximal subgraphs without cut vertices, isolated vertices "
  "included) as graphs whose edge sets partition the edges; is_biconnected "
  "tells whether the graph is connected with no cut vertex; st_orientation "
  "directs every edge of a biconnected graph once, without directed cycles, "
  "with a single source and a single sink that are adjacent, and rejects "
  "other graphs.", "inputs", "all finite undirected graphs",
  "A few graphs are tested.", "biconnectivity",
  [("low values on the depth-first tree", "biconnectivity.py")])
p("C23", "Chordality and LexBFS orderings are correct",
  "For every undirected graph, lex_bfs yields every vertex once in an order "
  "that some lexicographic breadth-first search produces; is_chordal is true "
  "exactly when no cycle of length four or more is induced; "
  "perfect_elimination_ordering returns, for chordal graphs, an order in "
  "which the later neighbours of every vertex are pairwise adjacent, and "
  "raises an error otherwise.", "inputs", "all finite undirected graphs",
  "A few graphs are tested.", "chordal lex_bfs",
  [("partition refinement", "lex_bfs.py"),
   ("earliest-neighbour containment test", "chordal.py")])
p("C24", "Minimum spanning forests have minimum weight",
  "For every undirected graph with comparable, summable edge weights, "
  "MinimumSpanningTree returns edges of the graph that form a spanning "
  "forest connecting exactly the vertices that the graph connects, with "
  "minimum total weight among such forests.", "inputs",
  "all finite weighted undirected graphs, including ties and disconnected "
  "graphs", "One example is tested.", "minimum_spanning_tree union_find",
  [("edges by increasing weight, joined through union-find",
    "minimum_spanning_tree.py")])
p("C25", "Degeneracy, cores and triangles are exact",
  "For every undirected graph, the degeneracy sequence lists each vertex "
  "once so that the number of neighbours not yet listed when a vertex is "
  "listed is the smallest among the unlisted vertices; degeneracy is the "
  "largest such number, the orientation keeps each edge once, core(G,k) is "
  "the largest vertex set in which each vertex has at least k neighbours, "
  "and triangles lists each triangle exactly once.", "inputs",
  "all finite undirected graphs", "A few graphs are tested.",
  "graphdegeneracy bucketqueue", [("bucket queue keyed by remaining degree",
                                   "graphdegeneracy.py")])
p("C26", "Longest common subsequences are common and longest",
  "For all sequences A and B, the returned list is a subsequence of both A "
  "and B, and no common subsequence is longer.", "inputs",
  "all pairs of finite sequences", "Three pairs are tested.", "lcs",
  [("dynamic program over suffix pairs", "lcs.py")])
p("C27", "Longest increasing subsequences are increasing and longest",
  "For every sequence of mutually comparable values, the returned list is a "
  "strictly increasing subsequence of maximum length, and among those ends "
  "with the smallest possible value.", "inputs", "all finite sequences over "
  "a total order", "Two sequences are tested.",
  "longest_increasing_subsequence",
  [("best tail per length with predecessor links",
    "longest_increasing_subsequence.py")])
p("C28", "Range minimum structures return the minimum of every slice",
  "For every list X, each range minimum structure built on X has the length "
  "of X and, for all slices i:j with 0 <= i < j <= len(X), returns "
  "min(X[i:j]); the structure restricted to steps of one does so for all "
  "lists whose neighbouring values differ by exactly one, and RangeMin "
  "returns None for empty slices; subscripts other than slices of step "
  "one raise ValueError.", "inputs", "all lists and slices",
  "One permutation is tested.", "lca",
  [("Cartesian tree plus least common ancestors", "lca.py RangeMin"),
   ("doubling table", "lca.py LogarithmicRangeMin"),
   ("block decomposition", "lca.py RestrictedRangeMin")])
p("C29", "Least common ancestors are exact",
  "For every rooted tree given as a parent map over hashable nodes and all "
  "nodes x and y of it, the LCA structure (with any range minimum structure) "
  "and the offline algorithm return the deepest node that is an ancestor of "
  "both, where a node is its own ancestor; LCA raises ValueError for maps "
  "that are not trees.", "inputs", "all trees and node pairs",
  "A few pairs in one tree are tested.", "lca union_find",
  [("Euler tour levels and range minima", "lca.py LCA"),
   ("union-find over finished subtrees", "lca.py OfflineLCA")])
p("C30", "Totally monotone minima searches find every column minimum",
  "For every totally monotone matrix, ConcaveMinima gives for every column "
  "its minimum and the first row attaining it; OnlineConcaveMinima gives "
  "value(0) as the initial value, value(j) = min over i<j of the concave "
  "Matrix(i,j) and an index attaining it, where entries may depend on "
  "earlier values.  wrap breaks a text into lines containing its words in "
  "order with minimum total penalty.", "inputs", "all totally monotone "
  "matrices, and all texts and line lengths", "No tests reach the code.",
  "smawk wrap", [("SMAWK reduction and interpolation", "smawk.py"),
                 ("online restart rules", "smawk.py OnlineConcaveMinima")])
p("C31", "Primes, factorizations, Moebius values and practical numbers exact",
  "primes yields exactly the primes in increasing order; factored_integers "
  "yields 1, 2, 3, ... each with its prime factorization, and dictionaries "
  "already yielded stay correct; moebius_sequence and moebius_function give "
  "the Moebius function; practical_numbers yields exactly the practical "
  "numbers in increasing order.", "inputs", "all positive integers",
  "Tests look at short prefixes.", "eratosthenes",
  [("sieve with one witness per prime", "eratosthenes.py primes")])
p("C32", "Partition generators list every partition once in order",
  "For every integer n, mckay, revlex_partitions and lex_partitions yield "
  "every partition of n once, in the stated lexicographic direction, "
  "binary_partitions every partition into powers of two, and "
  "fixed_length_partitions every partition of n into exactly the given "
  "number of parts; conjugate returns the conjugate partition.", "inputs",
  "all integers and lengths", "Counts for small n are tested.",
  "integer_partitions", [("in-place successor steps",
                          "integer_partitions.py")])
p("C33", "Permutation generators list every object once",
  "SteinhausJohnsonTrotter yields every permutation of its input once, "
  "consecutive ones differing by one swap of adjacent items; Involutions "
  "yields every involution once, StirlingPermutations every Stirling "
  "permutation once, and DoubleSteinhausJohnsonTrotter each double "
  "permutation once up to renaming.", "inputs", "all sizes",
  "Counts for small sizes are tested.", "permutations",
  [("recursive interleaving", "permutations.py")])
p("C34", "Lyndon factorizations and Lyndon word lists are exact",
  "ChenFoxLyndon splits every sequence into a nonincreasing series of Lyndon "
  "words; SmallestSuffix, SmallestRotation and isLyndonWord agree with their "
  "definitions; the generators list exactly the Lyndon words of the given "
  "length limits in lexicographic order, CountLyndonWords counts them, and "
  "DeBruijnSequence contains every word once as a cyclic window.", "inputs",
  "all sequences, alphabet sizes and lengths", "A few words are tested.",
  "lyndon", [("Duval's algorithm", "lyndon.py")])
p("C35", "Automaton operations recognize the intended languages",
  "For all automata over the same alphabet, complement, union, intersection, "
  "symmetric difference, reversal, renumbering and the conversions between "
  "deterministic and nondeterministic form accept exactly the words given by "
  "the corresponding language operation; parsing a regular expression gives "
  "an automaton for its language and converting back gives an expression for "
  "the same language.", "inputs programs", "all finite automata, regular "
  "expressions and words", "Fixed expressions are tested.", "automata",
  [("product, complement and subset constructions", "automata.py")])
p("C36", "Minimization and language comparisons are exact",
  "minimize returns an automaton for the same language with the smallest "
  "possible number of states; languages compare equal, contained, or "
  "different, and count as true or false, exactly according to the sets of "
  "words they contain.", "inputs programs", "all pairs of finite automata "
  "over a common alphabet", "Fixed expressions are tested.", "automata",
  [("Hopcroft partition refinement", "automata.py _MinimumDFA"),
   ("simultaneous traversal", "automata.py DFA.__eq__")])
p("C37", "Media represent the same states, tokens and actions",
  "For every medium, the explicit and labelled-graph forms act as the "
  "original; the state transition graph has exactly the effective "
  "transitions labelled with their tokens; following the routing table from "
  "any state gets one step closer to any other; and the hypercube embedding "
  "preserves distances. Labelled graphs that are not undirected, repeat a "
  "token at a state or pair tokens inconsistently raise MediumError.", "inputs", "all finite media",
  "Three media are tested.", "medium",
  [("routing by active tokens along a traversal", "medium.py RoutingTable")])
p("C38", "Partial cube recognition and labelling are exact",
  "isPartialCube is true exactly for the connected graphs that embed "
  "isometrically into a hypercube; for those the vertex labels returned have "
  "Hamming distances equal to graph distances and the medium has exactly the "
  "graph's transitions; for all other graphs MediumError is raised.",
  "inputs", "all finite undirected graphs", "A few graphs are tested.",
  "partial_cube medium", [("bit-parallel edge labelling, then verification",
                           "partial_cube.py")])
p("C39", "Integer points come in order of distance",
  "IntegerPointsByDistance yields every point of the integer plane exactly "
  "once, in nondecreasing order of distance from the origin.", "inputs",
  "all prefixes of the infinite sequence", "A prefix is tested.",
  "integerpoints", [("growing convex hull with a bucket queue",
                     "integerpoints.py")])
p("C40", "Halin and D3-reducible graphs are recognized correctly",
  "is_halin is true exactly for Halin graphs and halin_leaf_vertices returns "
  "the vertices of an outer leaf cycle; is_D3_reducible is true exactly when "
  "triangle and path reductions lead to K4, and hamiltonian_cycle_D3 then "
  "returns a Hamiltonian cycle; is_wheel and is_dual_3_tree agree with their "
  "definitions.", "inputs", "all finite undirected graphs",
  "A few graphs are tested.", "halin", [("confluent degree-3 reductions",
                                         "halin.py")])
p("C41", "Every Hamiltonian cycle of a cubic graph is generated once",
  "For every undirected graph of maximum degree three, hamiltonian_cycles "
  "yields every Hamiltonian cycle exactly once and nothing else; other "
  "inputs raise ValueError.", "inputs", "all graphs of maximum degree three",
  "Cycle counts of fixed graphs are tested.", "cubic_ham",
  [("backtracking with an undo stack", "cubic_ham.py")])
p("C42", "Cubic matchings and xyz embeddings are exact",
  "For every biconnected cubic graph, CubicMatchPartitions yields every "
  "partition of the edges into three perfect matchings once; xyzEmbeddings "
  "yields exactly those whose coordinates form an xyz graph equal to the "
  "input, and isxyz tells whether every axis-parallel line through the "
  "points contains exactly two.", "inputs", "all biconnected cubic graphs "
  "and point sets", "Two graphs are tested.", "xyz_graph",
  [("choices along an st-order", "xyz_graph.py")])
p("C43", "Nonrepetitive paths and cycles are found exactly",
  "For every edge-labelled digraph, cyclic lists exactly the labelled edges "
  "lying on closed walks without two consecutive equal labels, reachable "
  "lists exactly the (vertex, last label) pairs reached by such walks from a "
  "given first label, and shortest returns a shortest such walk or raises "
  "ValueError.", "inputs", "all finite edge-labelled digraphs", "No tests.",
  "repetitivity", [("label-switching gadget per vertex", "repetitivity.py")])
p("C44", "Graph readers return the graph that was written",
  "Reading a graph written in the MALF, edge list, node edge list, GraphML, "
  "graph6, sparse6 or LEDA format returns exactly its vertices and edges, "
  "each edge stored from both ends with the same identifier; input with "
  "wrong numbers of fields or bits, missing numbers, attributes or sections, "
  "repeated vertices or edge names, loops (other than in LEDA files, where "
  "they are skipped), unknown or nonconsecutive "
  "vertices, or directed edges raises GraphFormatError, and input that ends "
  "too early is never accepted.", "inputs",
  "all graphs and format variants", "No tests.", "read_undirected_graph",
  [("format detection and per-format parsers", "read_undirected_graph.py")])
p("C45", "SVG output draws the requested elements",
  "Every series of drawing calls ended by close produces well-formed XML "
  "whose elements, nesting, coordinates and styles are those requested; "
  "close reports unclosed groups.", "histories inputs",
  "all series of drawing calls", "No tests.", "svg",
  [("nesting counter and element writer", "svg.py SVG.element")])
p("C46", "Circle packings are tangent as requested",
  "In the result of circle_pack, circles that are neighbours in the input "
  "are tangent up to the stated tolerance and external circles have the "
  "requested radii.", "inputs", "all valid packing inputs", "No tests.",
  "circle_pack", [("fixed point iteration on radii", "circle_pack.py")])
p("C47", "Sudoku deduction rules are sound",
  "No deduction rule removes a candidate that belongs to some solution of "
  "the current puzzle, and all_solutions yields every completion once.",
  "inputs", "all puzzles", "No tests.", "sudoku",
  [("bit masks of candidate cells", "sudoku.py")])
p("C48", "Named example graphs are the stated graphs",
  "Generalized Petersen and Coxeter graphs, cube-connected cycles and graphs "
  "in LCF notation have exactly the vertices and undirected edges of their "
  "definitions, and the named graphs are cubic with the known order and "
  "girth.", "inputs", "all parameters", "Examples are only used as inputs.",
  "graph_examples", [("closed-form adjacency", "graph_examples.py")])

with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
