"""Level of every claimed check (read by check.py and tools/manifest.py).

proof        every function the property names is under contract and every
             obligation generated from the current source is discharged
other        part of the functions are proved, the named rest is checked on
             bounded inputs only
exploration  bounded stand-in only: the contracts are evaluated at run time
"""
LEVELS = {}


def proof(p, note, assumptions=()):
    LEVELS[p] = {"level": "proof", "note": note, "bounded": [],
                 "assumptions": list(assumptions)}


def mixed(p, note, bounded, assumptions=()):
    LEVELS[p] = {"level": "other", "note": note, "bounded": list(bounded),
                 "assumptions": list(assumptions)}


def bounded(p, functions, note=None):
    LEVELS[p] = {"level": "exploration",
                 "note": note or "Bounded stand-in: the contract is evaluated "
                 "at run time on the real functions over enumerated and "
                 "seeded random inputs; nothing is counted as proved.",
                 "bounded": list(functions), "assumptions": []}


NOT_APPLICABLE = {
    "C46": "CirclePack iterates floating-point radii until a numerical "
           "tolerance; a contract over exact reals says nothing about the "
           "rounded computation, and no installed deductive back end reasons "
           "about convergence of this iteration.",
    "C47": "pads.sudoku is a Python 2 module that does not import under the "
           "installed Python 3, so its functions cannot be executed or "
           "replayed; proof of code that cannot run decides nothing.",
}

for _p in range(1, 49):
    if "C%02d" % _p not in NOT_APPLICABLE:
        bounded("C%02d" % _p, ["all functions named in the property"])

proof("C26", "LCS is proved to return a common subsequence of maximum "
      "length, for all inputs.")

proof("C01", "Not and SymbolicNegation are proved to form an involution "
      "without fixed points with injective negation and consistent hashes.",
      ["boxed instances of SymbolicNegation are equal exactly when the "
       "negated values are (the proved __eq__)"])

proof("C02", "Lookup, union and iteration are proved against the partition "
      "kept as ghost state.")

proof("C03", "Every operation of Sequence is proved to act on a ghost list "
      "of items as stated, with the stated exceptions.",
      ["the key function is pure and total"])

proof("C05", "Every operation of BucketQueue is proved against a map from "
      "items to priorities; iteration is proved as a coroutine whose consumer "
      "may change the queue between items within the stated condition.",
      ["priorities are int"])

proof("C07", "Every operation of SortedSet is proved against a set of items "
      "and a sorted list.",
      ["update is called with a member of the set",
       "the comparison function is a pure total order"])

GRAPH = ("graphs are dictionaries from vertices to sets of neighbours; "
         "neighbour lists without repetitions are covered by the replay only")

proof("C10", "Every graph utility is proved against the adjacency relation.",
      [GRAPH, "copy_graph and induced_subgraph are proved for the default "
       "adjacency type"])

proof("C12", "The levels are proved to be the distance classes of the root, "
      "including termination.", [GRAPH])

FLAG = "the flag object pads.dfs.whole_graph is not a vertex (documented)"

proof("C11", "The events of the search are proved to satisfy the stated "
      "nesting and edge conditions relative to ghost numberings; preorder, "
      "postorder and reachable follow from them.", [GRAPH, FLAG])

proof("C13", "The order is proved correct and the error is proved to be "
      "raised exactly on graphs with a directed cycle.", [GRAPH, FLAG])

proof("C14", "Both are proved equal to the least reflexive relation closed "
      "under edges (and its irreflexive part).", [GRAPH, FLAG])

mixed("C18", "two_color, is_bipartite, bipartition and bipartite_orientation "
      "are proved: failure exactly if there is a closed walk of odd length.",
      ["pads.bipartite.odd_core"], [GRAPH, FLAG])

proof("C25", "The listing is proved to take a vertex with the fewest "
      "remaining neighbours each time; degeneracy, orientation, cores and "
      "triangles are proved against their definitions (largest minimum "
      "degree of a subgraph, largest set of minimum degree k, each "
      "triangle once).", [GRAPH])

proof("C27", "The result is proved to be a strictly increasing subsequence, "
      "no longer one exists, and none of the same length ends with a "
      "smaller value.")

proof("C24", "The edges are proved to be a spanning forest of the graph "
      "whose total weight is no larger than that of any spanning forest "
      "(rank argument and cycle property proved as lemmas; connectivity is "
      "proved to be the least equivalence joining the ends of edges).",
      ["weights are exact numbers", "the competing forest is listed in "
       "order of weight (its edges can always be listed so)",
       "graphs are dictionaries of dictionaries"])

proof("C16", "Every component yielded is proved to be a class of mutually "
      "reachable vertices, sinks first, and the condensation to have exactly "
      "the classes as vertices and the edges between different classes; "
      "rests on the proved contract of the depth first search.",
      [GRAPH, "frozensets are modelled as hashable objects with a set of "
       "members, equal exactly when their members are",
       "the events of the search are consumed from a finished list: the "
       "callbacks do not modify the graph being searched",
       FLAG])

proof("C17", "Satisfiable is proved to hold exactly if some assignment "
      "satisfies all implications, and Forced to return None exactly if none "
      "does and otherwise exactly the variables with the same value in all "
      "of them; rests on the proved contracts of the negation, the "
      "condensation and the reachability structure.",
      [GRAPH, "the literals of the instance do not include the marker "
       "dfs.whole_graph",
       "frozensets are modelled as hashable objects with a set of members, "
       "equal exactly when their members are"])

mixed("C48", "The families (generalized Petersen and Coxeter graphs, cube "
      "connected cycles, LCF notation) are proved to have exactly the "
      "vertices and edges of their definitions for all parameters, and the "
      "first three to be undirected; the eight named graphs are constants, "
      "whose order, degrees, girth and symmetry are computed on every run.",
      ["the module constants PetersenGraph ... GrayGraph (evaluated)"],
      ["CubeConnectedCycles: n >= 0"])

mixed("C30", "ConcaveMinima is proved for all totally monotone matrices: "
      "every column gets its minimum and the first row attaining it.  "
      "OnlineConcaveMinima is proved for all concave matrices, with the "
      "invariants its comments state.",
      ["pads.wrap.wrap"],
      ["row labels are increasing integers, at least one; column labels are "
       "different integers", "entries are totally ordered and Matrix(i, j) "
       "always returns the same entry without side effects (that entries "
       "are asked for only when the values they depend on are finished is "
       "checked by replay)"])

mixed("C31", "primes is proved to yield primes only, each the next one after "
      "the one before; Euclid's lemma and the existence of small prime "
      "factors are proved on the way.",
      ["pads.eratosthenes.factored_integers",
       "pads.eratosthenes.moebius_sequence",
       "pads.eratosthenes.moebius_function",
       "pads.eratosthenes.is_practical_factorization",
       "pads.eratosthenes.practical_numbers"],
      ["the generator primes uses inside of itself obeys the same contract: "
       "partial correctness, that there always is a next prime is not "
       "proved"])

mixed("C23", "The order perfect_elimination_ordering returns is proved to be "
      "a perfect elimination ordering, so is_chordal is true for chordal "
      "graphs only.  That no chordal graph is refused rests on the "
      "lexicographic order of lex_bfs and is checked on bounded inputs.",
      ["pads.lex_bfs.lex_bfs",
       "pads.chordal.perfect_elimination_ordering (raises only when not "
       "chordal)"],
      [GRAPH, "lex_bfs lists every vertex once (checked by replay)"])

mixed("C28", "PrefixMinima and PrecomputedRangeMin are proved: prefix and "
      "suffix minima, and the minimum of every nonempty slice.",
      ["pads.lca.RangeMin", "pads.lca.RestrictedRangeMin",
       "pads.lca.LogarithmicRangeMin", "pads.lca._decode_slice"],
      ["the data are totally ordered and none of them is None",
       "_decode_slice gives the bounds Python defines for the slice "
       "(checked by replay)"])

mixed("C08", "LinearHeap is proved to be a set of integers with its minimum; "
      "adding, removing and emptiness of BitVectorHeap are proved on the bits "
      "of the number it keeps.",
      ["pads.integer_heap.BitVectorHeap.min", "pads.integer_heap.log2",
       "pads.integer_heap.FlatHeap", "pads.integer_heap.IntegerHeap"],
      ["values of bit vector heaps are natural numbers"])

mixed("C32", "conjugate is proved: its parts count the larger parts.",
      ["pads.integer_partitions.mckay",
       "pads.integer_partitions.revlex_partitions",
       "pads.integer_partitions.lex_partitions",
       "pads.integer_partitions.binary_partitions",
       "pads.integer_partitions.fixed_length_partitions"])

proof("C15", "Paths and chains are proved to list every vertex once along "
      "edges; that no cover is smaller and no antichain larger follows from "
      "the largest matching by lemmas (Dilworth's theorem included).",
      [GRAPH, FLAG, "the vertices are hashable, so no list is among them",
       "the decompositions are given acyclic graphs",
       "a graph of neighbour lists without repetitions (an obligation) is "
       "handed to TopologicalOrder as a graph of sets",
       "TracePaths is taken as the finished list of its paths"])
proof("C19", "The result is proved to be a matching and an independent set; "
      "no matching and no independent set is larger (duality lemma), and "
      "the phases are proved to terminate because each one augments.",
      [GRAPH, "the vertices of the right side are hashable, so no list is "
       "among them", "the identity of the local list unmatched is modelled "
       "as an opaque object that is a list"])
