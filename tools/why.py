"""Why the check goes beyond tests, oracle and cost, per property."""
WHY = {
 "C01": "Tests use two or three values; the contract covers every hashable value, including negations of negations.",
 "C02": "Ghost state: the representative of every object; the forest invariant (ranks grow along parents) makes path compression correct for every history. Cost about 10 s.",
 "C03": "Ghost list of items; the linked structure is tied to it by the class invariant, so every history is covered. About 1200 obligations, 20 s.",
 "C04": "Oracle: a list of items and the sign of index differences, over histories that force relabelling.",
 "C05": "Iteration is a coroutine: between two items the consumer may change the queue arbitrarily within the stated condition; tests follow single schedules.",
 "C06": "Oracle: a set of frozensets refined by hand.",
 "C07": "Covers every interleaving of additions and removals between two listings, where the incremental merge is delicate.",
 "C08": "Oracle: a Python set.",
 "C09": "Oracle: exact counts of the stream so far, compared as fractions.",
 "C10": "All graphs, including empty ones and those with loops; frames show that inputs are not modified.",
 "C11": "Ghost numberings pre/post/par/root of the vertices and ev of the edges; the stack invariant ties iterators to handled edges. Covers graphs of every size, cyclic or not. About 60 s.",
 "C12": "Distances are defined by an inductive ball function; termination is proved by the measure |V| - |visited|.",
 "C13": "The reversed postorder is proved topological exactly on acyclic graphs (lemma postorder_topo).",
 "C14": "Bits of unbounded integers are reasoned about with two's complement axioms.",
 "C15": "Oracle: brute force over all partitions into paths/chains and all antichains of small graphs.",
 "C16": "The events of the search are described by its contract; lemmas over the search tree (tree_root, tree_parent, tree_reach, tree_low, tree_back) show that a vertex whose low value is its own number heads a whole class.",
 "C17": "Assignments are total functions from literals to truth values; lemma sat_extend builds one by adding closed sets of literals, lemma no_model excludes them all, both over instances of every size.",
 "C18": "Failure is characterised by closed walks of odd length, which exist exactly when odd cycles do; both directions are lemmas by induction over walks.",
 "C19": "Oracle: brute-force maximum matching (and König duality for the independent set).",
 "C20": "Oracle: all perfect matchings of small graphs.",
 "C21": "Oracle: exact maximum matching by dynamic programming over vertex subsets.",
 "C22": "Oracle: blocks by definition (equivalence of edges on common cycles).",
 "C23": "Oracle: definition of lexicographic breadth-first search step by step; induced cycles by enumeration.",
 "C24": "Minimality against every spanning forest: Kruskal's invariant that the chosen edges span the classes of every prefix of the sorted edges, and an exchange lemma over sorted weights.",
 "C25": "The bucket structure is described by the proved contract of the bucket queue; optimality over all orderings by a lemma on the first vertex of a dense subgraph.",
 "C26": "Optimality over all common subsequences, by the table invariant and a lemma about prefixes.",
 "C27": "The tail array is tied to increasing subsequences of every prefix; a lemma bounds every increasing subsequence.",
 "C28": "Oracle: min of the slice, all slices.",
 "C29": "Oracle: ancestor sets.",
 "C30": "Oracle: scanning all columns; wrap against all line breaks.",
 "C31": "Oracle: trial division and subset sums of divisors.",
 "C32": "Oracle: recursive enumeration.",
 "C33": "Oracle: itertools and definitions.",
 "C34": "Oracle: definitions by comparison of all rotations/suffixes.",
 "C35": "Oracle: direct interpretation of automata and of regular expressions as sets of words up to a length.",
 "C36": "Oracle: subset construction, Moore's refinement and reachability in products, written independently.",
 "C37": "Oracle: breadth-first distances.",
 "C38": "Oracle: isometric subgraphs of hypercubes by construction, and distances of all pairs.",
 "C39": "Oracle: sorted list of all points of a disc.",
 "C40": "Oracle: brute force over spanning trees/outer cycles and over reductions.",
 "C41": "Oracle: all vertex permutations of small graphs.",
 "C42": "Oracle: all partitions of the edges into perfect matchings.",
 "C43": "Oracle: closure of walks in the line graph.",
 "C44": "Oracle: writers for every format.",
 "C45": "Oracle: xml parser and a log of the calls.",
 "C48": "The driver compares with the definitions of the families and computes the girth of the named graphs by breadth-first search.",
}
