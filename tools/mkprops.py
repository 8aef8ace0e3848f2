import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["graphblas_algorithms/"+f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where="graphblas_algorithms/"+b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))

prop("C01","Derived graph properties do not depend on what was asked before",
"For every graph and every sequence of earlier property queries (transpose, off-diagonal part, upper/lower triangles, diagonal, row/column/total/reciprocal degrees, rowwise/columnwise/whole-matrix/diagonal reductions, self-edge and negative-edge flags, iso-value), with or without an output mask, each query returns exactly the value that property has by definition on the graph's adjacency matrix. In particular, the answer is the same whether it is computed fresh or derived from any combination of previously remembered answers, and asking never fails because of what was asked earlier.",
["inputs","histories"],"all adjacency matrices (any size, with or without self-loops, signed or unsigned values), directed and undirected, and all sets of already-remembered properties",
"Tests query a handful of properties in one order on a few graphs; the code has one branch per combination of remembered properties (hundreds of combinations), most of which no test reaches.",
["classes/graph.py","classes/digraph.py","classes/_caching.py","classes/_utils.py"],
[("property getters (undirected)","classes/graph.py"),("property getters (directed)","classes/digraph.py"),("generic reductions","classes/_caching.py"),("ordering of a multi-property request","classes/_utils.py")],
[("G._cache","memo of derived properties; every entry must equal its definition","classes/graph.py")],["Graph.get_property","Graph.get_properties","DiGraph.get_property"])

prop("C02","Algorithms leave the caller's graph and inputs unchanged",
"Running any algorithm, centrality, operator, matrix builder or conversion never changes the graph it was given: afterwards the graph has the same nodes, edges and weights, and every derived property still answers with its defined value. Vectors, matrices, lists and dictionaries passed in as arguments are also unchanged, and objects returned to the caller can be mutated without corrupting the graph.",
["inputs","histories"],"all graphs, arguments and sequences of calls on one graph object",
"Tests build a fresh graph per call and look at the return value only; a result that shares storage with the graph's memo, or an in-place update of a remembered value, shows only when the graph is used again.",
["algorithms","nxapi","linalg","generators","classes"],
[("in-place updates on fresh copies only","algorithms/_helpers.py"),("scratch matrices in all-pairs/bellman-ford/katz/pagerank","algorithms"),("memo of derived properties is read-only for algorithms","classes/graph.py")],
[("G._A","adjacency matrix","classes/graph.py"),("G._cache","memo","classes/graph.py")],["every function under graphblas_algorithms.algorithms and graphblas_algorithms.nxapi"])

prop("C03","Node-label conversions are faithful in both directions",
"Converting a NetworkX graph to this library and back gives the same node set in the same order, the same edges and the same selected edge weights, with missing weights read as 1. Converting dictionaries, lists, sets and masks of node labels to vectors or id arrays and back loses nothing, invents nothing and attaches every value to the same label, whatever the labels are and whatever order they come in. Asking for labels that are not nodes of the graph raises instead of returning another node's data (unless extra labels are explicitly ignored).",
["inputs"],"all graphs, all hashable labels, all label orders, all values",
"Tests mostly use labels 0..n-1 in order, for which an id/label mix-up is invisible.",
["classes/_utils.py","classes/graph.py","classes/digraph.py","interface.py"],
[("label<->id bijection","classes/_utils.py"),("from_networkx/to_networkx","classes/_utils.py"),("convert_from_nx / convert_to_nx","interface.py")],
[("G._key_to_id","bijection from labels to 0..n-1","classes/graph.py")],["Graph.from_networkx","Graph.to_networkx","dict_to_vector","vector_to_dict","list_to_ids"])

prop("C04","Result mappings and node sets behave like dictionaries and sets",
"The mapping and set objects returned by algorithms present exactly the labels and values of the underlying vector or matrix: length, membership, lookup (raising KeyError for absent labels), get with default, iteration, items, equality, pop, and discard/remove agree with the equivalent built-in dict or set. Writes, deletions, clear and setdefault through them change exactly the addressed label's entry and nothing else.",
["inputs","histories"],"all vectors/matrices, all labels (present, absent, unhashable position) and all sequences of mapping operations",
"Tests compare whole results to NetworkX dictionaries, which exercises only iteration/equality on full results with labels 0..n-1; most mapping methods are never called.",
["classes/nodemap.py","classes/nodeset.py"],
[("NodeMap","classes/nodemap.py"),("VectorMap","classes/nodemap.py"),("VectorNodeMap","classes/nodemap.py"),("NodeNodeMap","classes/nodemap.py"),("NodeSet","classes/nodeset.py")],
[],["NodeMap","NodeSet","NodeNodeMap","VectorNodeMap"])

prop("C05","Unweighted reachability and hop distances are exact",
"For every graph and source, breadth-first results (hop distances to and from a node, all-pairs distances, BFS layers, descendants, ancestors, nodes at a given distance, connected and weakly connected tests, component of a node, path existence, pairwise efficiency) contain exactly the nodes joined by a directed walk and the true minimum number of edges, ignoring edge weights and self-loops. A distance cutoff keeps exactly the nodes within it, and an unreachable target is reported as such, never as a number.",
["inputs"],"all graphs (directed and undirected, disconnected, with self-loops, any size, any diameter), sources, targets and cutoffs",
"Tests use small graphs of small diameter; loop bounds (number of rounds, early exit, odd/even meeting round, last permitted round) only show at specific diameters and cutoffs.",
["algorithms/_bfs.py","algorithms/shortest_paths/unweighted.py","algorithms/shortest_paths/generic.py","algorithms/traversal/breadth_first_search.py","algorithms/dag.py","algorithms/components","algorithms/efficiency_measures.py","nxapi/shortest_paths/unweighted.py","nxapi/traversal/breadth_first_search.py","nxapi/dag.py"],
[("BFS kernels","algorithms/_bfs.py"),("bidirectional search","algorithms/shortest_paths/unweighted.py"),("layers","algorithms/traversal/breadth_first_search.py")],
[],["single_source_shortest_path_length","single_target_shortest_path_length","all_pairs_shortest_path_length","bfs_layers","descendants","ancestors","is_connected","has_path"])

prop("C06","Weighted shortest paths are exact and negative cycles are reported",
"On finite real weights, every distance returned by the Bellman-Ford and Floyd-Warshall routines is the length of some walk between the two nodes and no walk is shorter; nodes without a walk are absent (or reported as having no path). A returned path starts at the source, ends at the target, follows existing edges, and its weights sum to the shortest distance; returned predecessors are consistent with the distances. If a negative cycle is reachable from the source the single-source all-target routines report it as unbounded, the negative-cycle test is true exactly when some cycle has negative total weight, and a distance cutoff keeps exactly the nodes within it on non-negative weights.",
["inputs"],"all graphs with finite real weights (positive, zero, negative, all-equal), sources, targets and cutoffs",
"Tests use a few weighted graphs, nearly all non-negative; which branch runs depends on whether all weights are equal, signs, self-loops and the number of relaxation rounds needed.",
["algorithms/shortest_paths/weighted.py","algorithms/shortest_paths/dense.py","nxapi/shortest_paths/weighted.py","nxapi/shortest_paths/dense.py"],
[("Bellman-Ford relaxation and exit test","algorithms/shortest_paths/weighted.py"),("Floyd-Warshall elimination","algorithms/shortest_paths/dense.py")],
[],["single_source_bellman_ford_path_length","bellman_ford_path_length","bellman_ford_path","all_pairs_bellman_ford_path_length","negative_edge_cycle","floyd_warshall","floyd_warshall_predecessor_and_distance"])

prop("C07","Graph operators produce exactly the defined node and edge sets",
"Union, disjoint union, intersection, difference, symmetric difference, composition, full join, complement, reversal and conversion to undirected each return a graph whose labelled nodes and labelled edges are exactly those of the mathematical definition, with composition taking the second graph's value on common edges, whatever order the two graphs number their common labels in. Invalid combinations (overlapping labels for union, different node sets for difference) are rejected.",
["inputs"],"all pairs of graphs, all label sets (equal, disjoint, partially overlapping) and all label numberings",
"Tests operate on a few graphs whose labels are numbered identically in both operands, hiding id/label mix-ups.",
["algorithms/operators/binary.py","algorithms/operators/unary.py","classes/digraph.py","nxapi/operators"],
[("label-aligned permutation","algorithms/operators/binary.py"),("block assembly","algorithms/operators/binary.py")],
[],["union","disjoint_union","intersection","difference","symmetric_difference","compose","full_join","complement","reverse","DiGraph.to_undirected"])

prop("C08","Triangle counts and clustering coefficients are exact",
"For every graph, per-node and total triangle counts, transitivity, clustering and average clustering (directed and undirected), square clustering (on graphs without self-loops) and generalized degree equal their combinatorial definitions on the graph with self-loops removed, where weighted clustering uses the cube root of edge weights scaled by the largest off-diagonal weight. The single-node, subset and whole-graph variants agree with each other, and nodes with no triangle or too few neighbours get zero.",
["inputs","histories"],"all graphs (with self-loops, reciprocal edges, weights), all node subsets and all previously remembered graph properties",
"Tests compare small graphs mostly without self-loops; each routine splits the count over triangular halves, so an off-by-one in a half cancels on symmetric or tiny examples.",
["algorithms/cluster.py","nxapi/cluster.py"],
[("masked L/U products","algorithms/cluster.py"),("single-node variants","algorithms/cluster.py")],
[],["triangles","transitivity","clustering","average_clustering","square_clustering","generalized_degree"])

prop("C09","Cuts, boundaries and community edge counts match their definitions",
"Edge boundary, node boundary, cut size, volume, conductance, normalized cut size, edge/node/boundary expansion and intra/inter-community edge counts equal their set-theoretic definitions over the graph's edges, for every choice of node sets, weighted or not, directed or undirected, and with the second set given or defaulting to the complement. On a directed graph a cut counts edges in both directions.",
["inputs"],"all graphs without undirected self-loops, all node subsets (overlapping, partial, empty where defined)",
"Tests cover a few named graphs with complementary sets.",
["algorithms/boundary.py","algorithms/cuts.py","algorithms/community/quality.py","nxapi/boundary.py","nxapi/cuts.py","nxapi/community/quality.py"],
[("masked products","algorithms/boundary.py"),("cut arithmetic","algorithms/cuts.py"),("block counts","algorithms/community/quality.py")],
[],["edge_boundary","node_boundary","cut_size","volume","conductance","normalized_cut_size","edge_expansion","node_expansion","boundary_expansion","intra_community_edges","inter_community_edges"])

prop("C10","Degree measures and structural predicates match their definitions",
"Degree, in-degree and out-degree centrality, isolates, (k-)regularity, reciprocity, mutual weight, s-metric, score sequence, tournament test and matrix, simple-path test, dominating-set test, triad test and lowest common ancestor return the value given by their mathematical definition for every graph in their domain (undirected self-loops excluded where degree conventions differ; lowest common ancestor on acyclic graphs). Nodes of degree zero are treated like any other node.",
["inputs"],"all graphs in the stated domain and all node arguments",
"Tests use a few named graphs; absent entries standing for degree zero, empty graphs and single-node graphs are the cases sampled least.",
["algorithms/centrality/degree_alg.py","algorithms/isolate.py","algorithms/regular.py","algorithms/reciprocity.py","algorithms/structuralholes.py","algorithms/smetric.py","algorithms/tournament.py","algorithms/simple_paths.py","algorithms/dominating.py","algorithms/triads.py","algorithms/lowest_common_ancestors.py"],
[("sparse degree vectors","algorithms/centrality/degree_alg.py"),("predicates","algorithms/regular.py")],
[],["degree_centrality","isolates","is_regular","is_k_regular","reciprocity","overall_reciprocity","mutual_weight","s_metric","is_tournament","score_sequence","is_simple_path","is_dominating_set","is_triad","lowest_common_ancestor"])

prop("C11","Matrices derived from a graph equal their defining formulas",
"Adjacency, Laplacian, normalized Laplacian, Bethe-Hessian, (directed) modularity and Google matrices equal their defining formulas entry by entry, with rows and columns ordered by the given node list (or the graph's own order), for weighted and unweighted use and for node lists that permute or select nodes. Google matrices spread dangling rows as specified and each row sums to one when the weights are non-negative.",
["inputs"],"all graphs with real weights, all node lists without repeats, all parameter values for which the formula is defined",
"Tests compare a few small matrices numerically; entry formulas for dangling, isolated or self-looped nodes and reordered node lists are rarely sampled.",
["linalg","algorithms/link_analysis/pagerank_alg.py","nxapi/linalg"],
[("adjacency","linalg/graphmatrix.py"),("laplacian","linalg/laplacianmatrix.py"),("bethe hessian","linalg/bethehessianmatrix.py"),("modularity","linalg/modularitymatrix.py"),("google_matrix","algorithms/link_analysis/pagerank_alg.py")],
[],["adjacency_matrix","laplacian_matrix","normalized_laplacian_matrix","bethe_hessian_matrix","modularity_matrix","directed_modularity_matrix","google_matrix"])

prop("C12","Iterative centralities return converged iterates or raise",
"PageRank, Katz, eigenvector centrality and HITS return a vector only when it is the image of the previous iterate under one step of the method's defining iteration and the two differ by less than the tolerance times the number of nodes in L1 norm, then normalised as requested. Otherwise they raise a convergence failure after the permitted number of iterations, and invalid starting vectors are rejected rather than divided by zero.",
["inputs"],"all graphs, damping factors, personalisation/dangling/start vectors, tolerances and iteration limits (reals as mathematical reals)",
"Tests compare rounded numbers on a few graphs; a wrong dangling or weighting term is invisible when a graph has no dangling node or unit weights, and the non-convergence exit is barely run.",
["algorithms/link_analysis/pagerank_alg.py","algorithms/link_analysis/hits_alg.py","algorithms/centrality/eigenvector.py","algorithms/centrality/katz.py","algorithms/_helpers.py","nxapi/link_analysis","nxapi/centrality"],
[("power iterations","algorithms/link_analysis/pagerank_alg.py"),("convergence test","algorithms/_helpers.py")],
[],["pagerank","hits","katz_centrality","eigenvector_centrality"])

prop("C13","Chunked execution covers every item once and changes no result",
"Splitting work into chunks hands over every requested item exactly once, in order, in non-empty chunks no larger than asked for (sizes differing by at most one where an even split is promised), and memory-size strings are read as the stated number of bytes. Algorithms that accept a chunk size return the same result for every chunk size, node selection and graph, including graphs with no edges.",
["inputs","configurations"],"all sequence lengths, chunk sizes, chunk counts, size strings and node selections",
"Tests use one or two chunk sizes on one graph; boundary cases (size 1, remainder chunks, fewer items than chunks) are arithmetic over all lengths.",
["nxapi/_utils.py","nxapi/cluster.py","nxapi/shortest_paths/unweighted.py","nxapi/shortest_paths/weighted.py"],
[("split_evenly / partition / normalize_chunksize","nxapi/_utils.py"),("chunk loops","nxapi/cluster.py")],
[],["split_evenly","partition","normalize_chunksize","square_clustering","all_pairs_shortest_path_length","all_pairs_bellman_ford_path_length"])

prop("C14","Isomorphism pre-tests never reject isomorphic graphs",
"If two graphs (both directed or both undirected) are isomorphic, the fast and faster could-be-isomorphic tests answer yes, however the two graphs number and label their nodes. If the degree multisets (or, for the fast test on undirected graphs, the multisets of degree and triangle-count pairs) differ, they answer no.",
["inputs"],"all pairs of graphs and all relabelings/renumberings, with and without self-loops",
"Tests compare a handful of graph pairs; relabeling invariance is a statement about all permutations.",
["algorithms/isomorphism/isomorph.py","nxapi/isomorphism/isomorph.py"],
[("invariants compared as sorted multisets","algorithms/isomorphism/isomorph.py")],
[],["fast_could_be_isomorphic","faster_could_be_isomorphic"])

prop("C15","Extracted subgraphs keep exactly the right nodes and edges",
"An ego graph contains exactly the nodes within the given radius of the centre (hop count or weighted distance; in either direction when asked; without the centre when asked) and every edge of the original between them, under the original labels. A k-truss contains exactly the edges of the largest subgraph in which every edge lies in at least k-2 triangles, its nodes under their original labels, and isolated nodes dropped.",
["inputs"],"all graphs, centres, radii and k",
"Tests use small graphs labelled 0..n-1 and few radii; label renumbering and the fixpoint iteration need specific shapes to go wrong.",
["generators/ego.py","algorithms/core.py","nxapi/generators/ego.py","nxapi/core.py","classes/_utils.py"],
[("truncated search + submatrix","generators/ego.py"),("truss fixpoint","algorithms/core.py"),("renumbering of labels","classes/_utils.py")],
[],["ego_graph","k_truss"])

prop("C16","Every advertised backend function is dispatchable with NetworkX's signature",
"Every function the package advertises to NetworkX as a backend exists, accepts NetworkX's call signature, and returns after conversion an object NetworkX users can use in place of the original.",
["configurations"],"the advertised functions and backend entry points",
"The NetworkX test-suite is not part of the stable tests here.",
["interface.py","_nx_graphblas/__init__.py"],[("dispatch table","interface.py")],[],["Dispatcher"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
