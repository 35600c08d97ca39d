"""Writes properties.jsonl and MANIFEST.json.  `python3 tools/properties.py`"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
GA = "graphblas_algorithms/"
ALG = GA + "algorithms/"
NXAPI = GA + "nxapi/"
PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, module, technique, note, observe=(), state=()):
    PROPS.append(dict(
        row=dict(
            id=pid, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                         mechanism=[dict(name=a, where=b) for a, b in mech],
                         observe_at=list(observe), hook_needed=None),
        ),
        module=module, technique=technique, note=note,
    ))


DIFF = ("bounded exhaustive exploration of the real code: every graph of a finite space, every argument record of a "
        "complete menu, several execution modes; each transition compared with the reference model")
DNOTE = ("Exhaustive within the bounds (all labelled graphs to 3 nodes, all isomorphism classes to 4 or 5 nodes, all edge "
         "value assignments from small alphabets, structured families to 7 or 8 nodes). Trusts networkx 3.2.1 (or a "
         "written definition) as the reference model and python-graphblas as the runtime; nothing is claimed beyond the bounds.")
TESTS = "The tests run a few dozen fixed graphs, mostly without self-edges, negative, equal or absent values, unusual keys or node orders."

prop("P01", "Conversions from and to networkx preserve the graph",
     "Converting a networkx graph to a graphblas graph and back gives the same nodes in the same order, the same edges with the "
     "same values and the same direction, for every kind of node key, edge attribute, default value "
     "and dtype; the adjacency obtained has exactly the entries of the graph, and the graph attributes are kept when asked for. "
     "Constructing a graph from a matrix and a key "
     "mapping gives the graph which that matrix and mapping describe, and malformed input is rejected. Translation between node "
     "keys and positions, vectors, matrices, dictionaries and sets loses and invents nothing.",
     ["inputs"], "every graph, node key scheme, choice of edge attribute and missing attributes, dtype, matrix and key mapping",
     TESTS + " Conversions are only exercised with one attribute layout per test.",
     [GA + "classes/_utils.py", GA + "classes/graph.py", GA + "classes/digraph.py", GA + "interface.py"],
     [("from_networkx / from_graphblas", GA + "classes/_utils.py"), ("convert_from_nx / convert_to_nx", GA + "interface.py")],
     "conversion", DIFF, DNOTE, ["Graph.from_networkx", "Dispatcher.convert_from_nx", "Dispatcher.convert_to_nx", "Graph(matrix, key_to_id=)"])

prop("P02", "Derived graph properties do not depend on the order of requests",
     "Every derived property of a graph object (transpose, triangular parts, off-diagonal part, diagonal, degrees, reciprocal "
     "degrees, minima, maxima and sums of edges, uniformity, presence of self-edges or negative edges), asked for alone, "
     "restricted to some nodes, or several at once, equals its definition on the adjacency, whichever properties were asked for "
     "and remembered before. Asking never modifies the graph.",
     ["histories"], "every sequence of requests on one graph object, for every graph and storage type of the space",
     "Derived properties are computed from whichever others happen to be remembered, so an answer depends on the whole history of "
     "requests; tests ask for a property or two on a fresh object.",
     [GA + "classes/_caching.py", GA + "classes/graph.py", GA + "classes/digraph.py", GA + "classes/_utils.py"],
     [("derivation rules of each property", GA + "classes/_caching.py"), ("get_property / get_properties", GA + "classes/_utils.py"),
      ("property priorities", GA + "classes/digraph.py")],
     "cache", "explicit-state breadth-first search over the real object's cache states, to the fixpoint per request group",
     "Every reachable cache state for each group of related properties on each graph (fixpoint or stated depth), each answer compared "
     "with its definition in plain Python. Bounds: graphs to 3 nodes and selected 4-node graphs; request groups of 6-9 properties.",
     ["get_property", "get_properties"], [("cache", "remembered derived properties of a graph object", GA + "classes/_caching.py")])

prop("P03", "Calls leave graphs unchanged and answers do not depend on earlier calls",
     "No public function modifies the graphs or collections passed to it, and its answer on a graph object is the same whatever "
     "functions were called on that object before, in whatever order. Modifying an object that a function returned changes "
     "neither the graph nor any later answer.",
     ["histories"], "every sequence of public calls (to the stated depth) on a shared graph object, with and without modification of the results",
     "Each test calls functions on a fresh graph; the remembered values that calls leave behind, and aliasing of results with them, show only "
     "in particular sequences.",
     [GA + "classes/_caching.py", GA + "classes/_utils.py", GA + "nxapi", GA + "algorithms"],
     [("remembered properties shared by all functions", GA + "classes/_caching.py"), ("to_graph / conversions reuse the object", GA + "classes/digraph.py")],
     "histories", "breadth-first search over sequences of public calls on the real object, merging equal states",
     "All call sequences to depth 2 (thorough: 3) over one call record per operation plus result mutations, on selected graphs; answers "
     "compared with the answers on a fresh object, and the adjacency with its snapshot.",
     ["every public function"])

prop("P04", "Reachability, connectivity and traversal answers are those of the graph",
     "Ancestors, descendants, descendants at a distance, breadth-first layers, path existence, simple-path tests, connectedness, "
     "connected components, and lowest common ancestors have exactly the value their definitions give on the graph. "
     "A node that is not in the graph, or a graph on which the question is undefined, is reported by the error networkx reports.",
     ["inputs"], "every graph and node argument of the space, with every node key scheme and id order",
     TESTS,
     [ALG + "_bfs.py", ALG + "dag.py", ALG + "traversal/breadth_first_search.py", ALG + "simple_paths.py", ALG + "components", ALG + "lowest_common_ancestors.py",
      ALG + "shortest_paths/generic.py", NXAPI + "dag.py", NXAPI + "components"],
     [("bfs level expansion", ALG + "_bfs.py"), ("component and connectivity tests", ALG + "components/connected.py")],
     "traversal", DIFF, DNOTE)

prop("P05", "Unweighted shortest-path lengths are exact",
     "Single-source, single-target and all-pairs shortest-path lengths without weights, with and without cutoffs and under chunked "
     "execution, contain exactly the reachable nodes at exactly their distances, and the efficiency of a pair of nodes is that of its distance. Sources, targets or "
     "cutoffs that networkx rejects are rejected.",
     ["inputs", "configurations"], "every graph, source, target, cutoff and chunk size of the space",
     TESTS,
     [ALG + "shortest_paths/unweighted.py", ALG + "_bfs.py", NXAPI + "shortest_paths/unweighted.py", NXAPI + "_utils.py"],
     [("level-synchronous bfs", ALG + "_bfs.py"), ("chunked all-pairs driver", NXAPI + "shortest_paths/unweighted.py")],
     "unweighted", DIFF, DNOTE)

prop("P06", "Weighted shortest paths (Bellman-Ford) are exact",
     "Single-source and all-pairs weighted shortest-path lengths and paths are minimal over all walks, every path reported is a path "
     "of the graph with the reported length, and unreachable targets, unknown nodes and reachable negative cycles (including "
     "negative self-edges and negative undirected edges) are reported as errors, for any weight attribute or none, any cutoff of "
     "unweighted variants and any chunk size.",
     ["inputs", "configurations"], "every weighted graph, source, target, weight choice and chunk size of the space",
     TESTS + " Negative cycles, zero weights and uniform weights take separate code paths.",
     [ALG + "shortest_paths/weighted.py", NXAPI + "shortest_paths/weighted.py", NXAPI + "exception.py"],
     [("relaxation loop, negative-cycle test, uniform-weight shortcut", ALG + "shortest_paths/weighted.py"), ("error translation, chunked driver", NXAPI + "shortest_paths/weighted.py")],
     "bellman_ford", DIFF, DNOTE)

prop("P07", "Floyd-Warshall distances and predecessors are exact",
     "All-pairs distances by Floyd-Warshall equal the least walk weights, with infinity for unreachable pairs and zero on the diagonal; "
     "following the reported predecessors gives a path of that weight; the dense matrix variant has the same values "
     "in the requested node order and rejects node lists that are not the nodes of the graph.",
     ["inputs"], "every graph without negative cycles, weight choice and node list of the space",
     TESTS,
     [ALG + "shortest_paths/dense.py", NXAPI + "shortest_paths/dense.py", GA + "interface.py"],
     [("row/column elimination", ALG + "shortest_paths/dense.py"), ("conversion of results", GA + "interface.py")],
     "floyd", DIFF, DNOTE)

prop("P08", "Triangles, clustering and transitivity are exact",
     "Triangle counts, clustering coefficients (undirected, directed, weighted), average clustering and transitivity, for "
     "all nodes, for a single node, or for any collection of nodes, equal the values given by their definitions, "
     "self-edges and edge directions being treated as networkx treats them.",
     ["inputs"], "every graph, set of requested nodes, weight choice and zero-counting flag of the space",
     TESTS + " Restricting to a few nodes, remembered degrees, and the presence of self-edges select different code paths.",
     [ALG + "cluster.py", NXAPI + "cluster.py"],
     [("single-node, masked and full variants", ALG + "cluster.py"), ("node argument handling", NXAPI + "cluster.py")],
     "clustering", DIFF, DNOTE)

prop("P09", "Square clustering, generalized degree and k-truss are exact",
     "Square clustering coefficients and generalized degrees, for all nodes, one node or any collection, and for any chunk size, "
     "equal their definitions, and the k-truss is the largest subgraph in which every edge is in at least k-2 "
     "triangles, with the nodes, edges and edge values of the original graph.",
     ["inputs", "configurations"], "every undirected graph, set of requested nodes, k and chunk size of the space",
     TESTS,
     [ALG + "cluster.py", ALG + "core.py", NXAPI + "cluster.py", NXAPI + "core.py"],
     [("square_clustering in one pass or in chunks", ALG + "cluster.py"), ("support peeling", ALG + "core.py")],
     "squares", DIFF, DNOTE)

prop("P10", "Cuts, boundaries, expansions, communities and dominating sets are exact",
     "Edge and node boundaries, cut sizes, volumes, conductance, normalized cuts, the expansions, intra- and inter-community edges, "
     "and the dominating-set test, for any node sets and any weight choice, have exactly the value "
     "of their definitions, and errors for node sets on which they are undefined are those of networkx.",
     ["inputs"], "every graph, pair of node sets, weight choice, and data argument of the space",
     TESTS,
     [ALG + "boundary.py", ALG + "cuts.py", ALG + "community/quality.py", ALG + "dominating.py", NXAPI + "boundary.py", NXAPI + "cuts.py"],
     [("masked submatrix selection", ALG + "boundary.py"), ("cut and volume sums", ALG + "cuts.py"), ("community sums", ALG + "community/quality.py")],
     "cuts", DIFF, DNOTE)

prop("P11", "Degrees, regularity, reciprocity, isolates and tournaments are exact",
     "Degree centralities, isolates, regularity tests, overall and per-node reciprocity, the s-metric, mutual weights, "
     "tournament tests and scores, and triad tests, for all nodes or for the requested ones, have exactly the values of their definitions, "
     "and undefined cases raise what networkx raises.",
     ["inputs"], "every graph, k, and set of requested nodes of the space",
     TESTS,
     [ALG + "centrality/degree_alg.py", ALG + "isolate.py", ALG + "regular.py", ALG + "reciprocity.py", ALG + "smetric.py", ALG + "triads.py", ALG + "structuralholes.py", ALG + "tournament.py"],
     [("degree properties", GA + "classes/_caching.py"), ("single / some / all nodes", ALG + "reciprocity.py")],
     "degrees", DIFF, DNOTE)

prop("P12", "PageRank, HITS, Katz and eigenvector scores satisfy their equations",
     "PageRank, Google matrix, HITS, Katz and eigenvector centrality give the fixed point (or linear-system solution) of "
     "their definition within the tolerance, for any damping, personalization, dangling distribution, start vector and weight choice, "
     "are normalized as documented, and raise the documented errors where no answer exists or the iteration limit is 0.",
     ["inputs"], "every graph and argument record of the space (nonnegative weights)",
     TESTS + " Dangling nodes, sparse personalization or dangling dictionaries, zero weights and edgeless graphs are separate code paths.",
     [ALG + "link_analysis/pagerank_alg.py", ALG + "link_analysis/hits_alg.py", ALG + "centrality/katz.py", ALG + "centrality/eigenvector.py", GA + "nxapi/link_analysis"],
     [("power iterations, dangling mass", ALG + "link_analysis/pagerank_alg.py"), ("argument handling", NXAPI + "link_analysis/pagerank_alg.py")],
     "link", DIFF, DNOTE)

prop("P13", "Matrix views of a graph are exact",
     "Adjacency, Laplacian, normalized and directed Laplacian, Bethe-Hessian, directed modularity and modularity matrices have "
     "exactly the entries of their definitions, with rows and columns in the requested node order (or "
     "the order of the graph), for every node list, weight choice and dtype.",
     ["inputs"], "every nonempty graph, node list (any order, subsets where allowed) and weight choice of the space",
     TESTS,
     [GA + "linalg", GA + "nxapi/linalg"],
     [("node list selection and degree handling", GA + "linalg/laplacianmatrix.py"), ("modularity", GA + "linalg/modularitymatrix.py")],
     "linalg", DIFF, DNOTE)

prop("P14", "Operators on graphs return exactly the graph of their definition",
     "Complement, reversal, ego graphs, union, disjoint union, full join, intersection, difference, symmetric difference and "
     "composition, with and without renaming, return exactly the nodes, edges and edge values of their definitions whatever keys, "
     "orders and overlaps the operands have, and reject operands on which they are undefined. The graph returned is fully "
     "usable: every question about it has the answer for that graph, and the operands are unchanged.",
     ["inputs", "histories"], "every pair of graphs, pattern of shared keys, id order, prefix pair, and follow-up question of the space",
     TESTS + " Most tests of operators use the keys 0..n-1 in order.",
     [ALG + "operators/binary.py", ALG + "operators/unary.py", GA + "nxapi/operators", GA + "generators/ego.py"],
     [("block assembly and key maps", ALG + "operators/binary.py"), ("complement, reverse", ALG + "operators/unary.py")],
     "operators", DIFF, DNOTE)

prop("P15", "Node-keyed results behave as mappings and sets",
     "The mappings, sets and nested mappings returned by functions behave exactly as the Python mappings or sets with the same "
     "content: lookup, membership, iteration, length, equality, assignment, deletion, pop, update, default lookup and set "
     "operations, in any sequence, also between results of different graphs. Keys that are not nodes of the graph are absent and never corrupt the container.",
     ["histories"], "every sequence of operations to the stated depth on every kind of container, from every small content",
     "The containers implement some thirty mutating and querying methods by hand over sparse vectors; tests exercise them one at a time.",
     [GA + "classes/nodemap.py", GA + "classes/nodeset.py"],
     [("NodeMap / VectorMap", GA + "classes/nodemap.py"), ("NodeNodeMap / VectorNodeMap", GA + "classes/nodemap.py"), ("NodeSet", GA + "classes/nodeset.py")],
     "containers", "breadth-first search over operation sequences, real container against a dict/set model, merging equal states",
     "Every operation sequence to the stated depth (fixpoint where the content space is finite), comparing every observer after every "
     "step. Assumes small key universes (3-4 keys) and value alphabets.",
     ["NodeMap", "VectorMap", "NodeNodeMap", "VectorNodeMap", "NodeSet"])

prop("P16", "Chunked execution gives the same answer as unchunked execution",
     "All-pairs computations and square clustering that are split into chunks give the same answer for every chunk size "
     "(any integer, memory string, or default), with every node covered exactly once. Chunk size specifications are "
     "parsed as documented and invalid ones are rejected.",
     ["configurations", "inputs"], "every chunk size specification, number of nodes, and graph of the space",
     "Chunking only matters when a boundary falls inside the data; the default chunk never does so on test graphs.",
     [NXAPI + "_utils.py", NXAPI + "shortest_paths/unweighted.py", NXAPI + "shortest_paths/weighted.py", NXAPI + "cluster.py"],
     [("normalize_chunksize, partition", NXAPI + "_utils.py"), ("chunk drivers", NXAPI + "shortest_paths/weighted.py")],
     "chunks", "exhaustive enumeration of chunk specifications x sizes x graphs, compared with the unchunked run and a written definition",
     "All chunk sizes 1..n+1, memory strings and defaults for n to 8; splitting helpers for every size to 40.",
     ["chunksize="])

prop("P17", "Dispatching gives the networkx answer through the graphblas implementation",
     "Every function the backend advertises exists, is what networkx runs when the backend is requested or a graphblas graph is passed, "
     "accepts every argument combination the networkx function accepts (by position, by keyword, left out, or any collection of nodes), "
     "and refuses the arguments and graph kinds that networkx refuses. Passing a "
     "networkx graph (also a subclass, a view or a frozen one), a graphblas graph, or naming the backend gives the same answer, the one networkx gives.",
     ["configurations", "inputs"], "every advertised function, calling convention, and argument of its signature",
     "The tests run networkx's own suite once through the dispatcher; positional/keyword conventions and direct calls are not varied.",
     [GA + "interface.py", GA + "nxapi", GA + "__init__.py"],
     [("Dispatcher", GA + "interface.py"), ("nxapi wrappers", GA + "nxapi")],
     "dispatch", DIFF, "Every advertised function with every subset of its optional arguments passed positionally or by keyword on selected graphs; the "
     "reference is networkx 3.2.1.", ["Dispatcher"])

prop("P18", "Answers are independent of node names, insertion order and node ids",
     "Renaming the nodes, inserting nodes or edges in another order, or storing the graph under another assignment of "
     "nodes to matrix positions changes the answer of every function only by the corresponding renaming.",
     ["inputs"], "every permutation of insertion order and of node ids, and every key scheme, for every graph of the space",
     "The keys of most test graphs coincide with their positions 0..n-1, which hides any confusion of keys and ids.",
     [GA + "classes/_utils.py", GA + "classes/graph.py", GA + "nxapi", GA + "algorithms"],
     [("key/id translation: list_to_ids, vector_to_nodemap, ...", GA + "classes/_utils.py")],
     "relabel", "exhaustive enumeration of permutations (orbit of each state) with an equivariance oracle",
     "All 3! or 4! id permutations and insertion orders of every graph class of 3 (thorough: 4) nodes; one argument menu per function.")

prop("P19", "Answers are independent of how edge values are stored",
     "The answer of every function on a graph is the same whatever numeric or boolean dtype holds its edge values (when it can hold "
     "them), whether they are stored as one shared value or individually, and in whichever sparse format the matrix is kept; functions "
     "that ignore edge values give the same answer whatever the values are.",
     ["configurations", "inputs"], "every storage dtype, uniform or individual storage and matrix format, for every graph of the space",
     "Tests convert with the default dtype only.",
     [GA + "classes/_utils.py", GA + "classes/_caching.py", GA + "algorithms"],
     [("dtype selection in conversions", GA + "classes/_utils.py"), ("iso-valued shortcuts", ALG + "shortest_paths/weighted.py")],
     "storage", "exhaustive enumeration of storage variants of each state, compared with the reference model",
     "Every dtype that represents the values, iso and non-iso storage, four matrix formats.")

prop("P20", "Concurrent calls on one graph give the sequential answers",
     "Several threads may call functions on the same graph object at the same time: each call returns the answer it returns alone, "
     "under every interleaving, and the graph afterwards answers every question correctly.",
     ["schedules"], "every interleaving of two (three) calls at line granularity up to the preemption bound",
     "Tests are single-threaded; remembered properties are shared mutable state filled in lazily by readers.",
     [GA + "classes/_caching.py", GA + "classes/_utils.py", GA + "classes/graph.py", GA + "classes/digraph.py"],
     [("lazy cache fills", GA + "classes/_caching.py")],
     "schedules", "stateless exploration of thread interleavings of the real code under a controlled scheduler, bounded preemptions",
     "Every schedule with at most 1 (thorough: 2) preemptions at every executed source line of the package; the scheduler is a "
     "sys.settrace hook that lets one thread run at a time. C-level internals of GraphBLAS are atomic in this model.")

prop("P21", "Iterator results stay correct however they are interleaved",
     "Functions that return iterators produce the same items whether consumed at once, step by step, interleaved with other calls and "
     "iterators on the same graph, or abandoned half-way; the items equal those of the definition. Items and results already "
     "obtained do not change afterwards, whatever is called later.",
     ["histories", "schedules"], "every interleaving of the steps of two iterators and an intervening call, and every abandonment point",
     "Tests exhaust each iterator immediately.",
     [NXAPI + "shortest_paths/unweighted.py", NXAPI + "shortest_paths/weighted.py", NXAPI + "traversal/breadth_first_search.py", NXAPI + "boundary.py", NXAPI + "isolate.py"],
     [("generators over chunks and layers", NXAPI + "shortest_paths/weighted.py")],
     "iterators", "exhaustive enumeration of the interleavings of generator steps on the real objects",
     "All merges of two generators' step sequences (to 6+6 steps) on selected graphs, with every abandonment point.")

prop("P22", "A failed call leaves the graph object intact",
     "If a call fails at any point (bad argument, interruption, or an error raised by the runtime), the graph object is unchanged and "
     "every later call on it gives the answer it would give on a fresh object.",
     ["fault_sequences", "crash_points"], "an exception at every executed source line of the package during every call of the menu",
     "Tests never interrupt a call; partially filled remembered properties show only afterwards.",
     [GA + "classes/_caching.py", GA + "classes/_utils.py", GA + "classes/graph.py", GA + "classes/digraph.py", GA + "algorithms"],
     [("cache entries are stored only when complete", GA + "classes/_caching.py")],
     "faults", "enumeration of every fault point (each executed line raises) of each call on the real code, then probing",
     "Every line event of the package during one call per function on selected graphs, each with an injected exception; then all "
     "derived properties and a probe menu are compared with a fresh object.")

prop("P23", "Parallel edges of multigraphs count as networkx counts them",
     "On multigraphs, functions which support them (node sets, reachability, unweighted paths, cuts and boundaries, isolates, "
     "PageRank and Google matrix, adjacency and Laplacian matrices, complement) "
     "give the answer of networkx, parallel edges being counted or their values summed as networkx does, whether the "
     "multigraph is a networkx or a graphblas one; functions that networkx refuses for multigraphs are refused.",
     ["inputs", "configurations"], "every multigraph of the space, argument record and calling mode",
     "Hardly any test uses a multigraph with parallel edges.",
     [GA + "interface.py", GA + "classes/graph.py", GA + "classes/digraph.py", GA + "classes/_utils.py", NXAPI + "cuts.py", NXAPI + "boundary.py", GA + "linalg/laplacianmatrix.py"],
     [("conversion of multigraphs", GA + "interface.py"), ("is_multigraph branches", NXAPI + "cuts.py"), ("matrices of multigraphs", GA + "linalg/graphmatrix.py")],
     "multigraphs", DIFF, "All graphs to 2 nodes with self-edges, all classes of 3 nodes, some of 4, with every multiplicity 1 or 2 (some 3) of up to three edges and patterns above.")

prop("P24", "Functions on graphblas graphs answer right for each option of their own",
     "The functions of graphblas_algorithms.algorithms, which take a graphblas graph and return vectors and matrices over its "
     "positions, give for each option (distances from some nodes, as rows in the order given or expanded to every node; cutoffs; "
     "masks, complemented or not; node vectors; precomputed degrees; the authority matrix of HITS; predecessors and a permutation in "
     "Floyd-Warshall) the result whose positions, values and shape are those of the definition, on any assignment of positions to "
     "nodes, without modifying the graph or the arguments.",
     ["inputs", "configurations"], "every graph of the space, assignment of positions and option record of each array-level function",
     "The tests call these functions only through the networkx interface, which never uses most of their options.",
     [GA + "algorithms/cluster.py", GA + "algorithms/_bfs.py", GA + "algorithms/shortest_paths/weighted.py", GA + "algorithms/shortest_paths/unweighted.py",
      GA + "algorithms/shortest_paths/dense.py", GA + "algorithms/boundary.py", GA + "algorithms/cuts.py", GA + "algorithms/reciprocity.py",
      GA + "algorithms/link_analysis/hits_alg.py", GA + "algorithms/link_analysis/pagerank_alg.py"],
     [("rows of some nodes", ALG + "shortest_paths/weighted.py"), ("masks", ALG + "cluster.py"), ("authority matrix", ALG + "link_analysis/hits_alg.py"),
      ("permutation", ALG + "shortest_paths/dense.py")],
     "arrays", DIFF, "All graphs to 2 nodes, all classes of 3 nodes with self-edges, classes of 4 nodes, every value assignment from {1, 3, -1} to up to three edges of 3-node classes; "
     "every subset as a mask in three forms, every order of every subset as rows; identity and permuted positions. Trusts networkx or a written definition, and python-graphblas.",
     ["graphblas_algorithms.algorithms"])

if __name__ == "__main__":
    built = [p for p in PROPS if (ROOT / "mc/checks" / f"{p['module']}.py").exists()]
    py = "/opt/venv/bin/python -B -m mc.run"
    (ROOT / "properties.jsonl").write_text("".join(json.dumps(p["row"]) + "\n" for p in built))
    manifest = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -B -c 'import graphblas_algorithms, networkx, mc.ops'",
        checks=[dict(
            property=p["row"]["id"],
            quick_cmd=f"VERIF_TIER=quick {py} {p['module']} quick",
            thorough_cmd=f"VERIF_TIER=thorough {py} {p['module']} thorough",
            technique=p["technique"], level="model_checking", level_note=p["note"],
        ) for p in built],
        not_applicable=[],
        notes="No hooks in /repo are needed: the machinery drives the public API and observes at source lines with sys.settrace. "
              "Replay a violation with: /opt/venv/bin/python -B -m mc.replay replays/FILE.json",
    )
    (ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
    for p in built:
        assert len(p["row"]["title"]) <= 80, p["row"]["title"]
        for f in p["row"]["anchors"]["files"]:
            assert (Path("/repo") / f).exists(), f
    print(len(built), "properties")
