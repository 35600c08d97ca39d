"""Planted bugs: each breaks a property in a way that needs something specific to show."""

HEAD = """
import sys, warnings
warnings.simplefilter("ignore")
import networkx as nx
import graphblas_algorithms as ga
from graphblas_algorithms import nxapi
def same(a, b, what=""):
    if a != b:
        sys.exit(f"WRONG {what}: {a!r} != {b!r}")
"""

PLANTS = []


def plant(id, prop, edits, needs, breaks, demo, also=()):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=HEAD + demo, also=list(also)))


plant("P02-masked-column-reduction", "P02",
      [("classes/_caching.py",
        '                if methodname == "reduce_columnwise" and "AT" in cache:\n                    return cache["AT"].reduce_rowwise(op_).new(mask=mask, name=key)',
        '                if methodname == "reduce_columnwise" and "AT" in cache:\n                    return cache["AT"].reduce_columnwise(op_).new(mask=mask, name=key)')],
      "a directed graph object whose transpose is remembered (asked for explicitly, or by transitivity or clustering), and then a "
      "columnwise property restricted to some nodes that is not itself remembered yet",
      "Columnwise reductions restricted to a node mask become rowwise ones once AT is remembered, so in-degrees of a subset of nodes "
      "are out-degrees.",
      """
G = nx.DiGraph([(0, 1), (2, 1), (3, 1), (1, 0)])
H = ga.DiGraph.from_networkx(G)
m = H.list_to_mask([1, 2])
fresh = H.get_property("column_degrees+", mask=m)
H.get_property("AT")
again = H.get_property("column_degrees+", mask=m)
same(again.to_dict(), fresh.to_dict(), "in-degrees after AT")
same(again.to_dict(), {1: 3}, "in-degrees")
""")

plant("P02-self-edges-from-triangles", "P02",
      [("classes/digraph.py",
        '            cache["has_self_edges"] = cache["U-"].nvals + cache["L-"].nvals < A.nvals\n    if cache.get("has_self_edges") is False:\n        cache["U+"] = cache["U-"]\n    return cache["U-"]',
        '            cache["has_self_edges"] = cache["U-"].nvals + cache["L-"].nvals <= A.nvals\n    if cache.get("has_self_edges") is False:\n        cache["U+"] = cache["U-"]\n    return cache["U-"]')],
      "a directed graph without self-edges whose strictly lower part is requested before the strictly upper part",
      "has_self_edges is remembered as True on a graph without self-edges, depending on the order of requests.",
      """
H = ga.DiGraph.from_networkx(nx.DiGraph([(0, 1), (2, 0), (1, 2)]))
H.get_property("L-"); H.get_property("U-")
same(bool(H.get_property("has_self_edges")), False, "has_self_edges")
""")

plant("P03-google-matrix-in-place", "P03",
      [("algorithms/link_analysis/pagerank_alg.py",
        "    else:\n        A = A.dup(float, name=name)\n    N = A.nrows",
        "    elif A.dtype != float:\n        A = A.dup(float, name=name)\n    N = A.nrows")],
      "google_matrix without a node list on a graph object with float edge values, followed by any other call",
      "The adjacency of the graph is overwritten with the Google matrix.",
      """
G = nx.DiGraph(); G.add_weighted_edges_from([(0, 1, 0.5), (1, 2, 1.5), (2, 0, 2.0), (3, 0, 1.0)])
H = ga.DiGraph.from_networkx(G, weight="weight")
before = H.matrix.dup()
nxapi.google_matrix(H)
same(H.matrix.isequal(before), True, "adjacency unchanged")
same(set(nxapi.ancestors(H, 3)), set(), "ancestors")
""")

plant("P04-weak-component-levels", "P04",
      [("algorithms/_bfs.py",
        "            q_in << binary.any(q_out | q_in)\n            q_in(~v.S, replace) << any_pair_bool(A @ q_in)",
        "            q_in(~v.S, replace) << any_pair_bool(A @ q_in)")],
      "a directed graph whose connection to some node alternates: out-edge followed by in-edge, while the in-frontier is not empty",
      "Nodes reached along out-edges in this round are not expanded along in-edges, so weakly connected graphs are reported as not connected.",
      """
import itertools
pairs = [(i, j) for i in range(4) for j in range(4) if i != j]
for r in range(3, 6):
    for E in itertools.combinations(pairs, r):
        G = nx.DiGraph(); G.add_nodes_from(range(4)); G.add_edges_from(E)
        same(bool(nxapi.is_weakly_connected(ga.DiGraph.from_networkx(G))), nx.is_weakly_connected(G), f"is_weakly_connected {E}")
""")

plant("P07-permuted-sinks", "P07",
      [("algorithms/shortest_paths/dense.py",
        '        nonempty_nodes = nonempty_nodes[permutation].new(name="nonempty_nodes")\n',
        "")],
      "floyd_warshall_numpy with a node list that moves a node with edges to the place of a node without any (or only in- or out-edges)",
      "The elimination skips nodes that paths go through, so distances are too long or infinite.",
      """
import numpy as np
G = nx.DiGraph(); G.add_nodes_from([0, 1, 2, 3]); G.add_edges_from([(1, 2), (2, 3)])
order = [2, 1, 0, 3]
same(nxapi.floyd_warshall_numpy(ga.DiGraph.from_networkx(G), nodelist=order, weight=None).to_dense(fill_value=float("inf"), dtype=float).tolist(),
     np.asarray(nx.floyd_warshall_numpy(G, nodelist=order, weight=None)).tolist(), "distances")
""")

plant("P09-truss-support", "P09",
      [("algorithms/core.py",
        "            C << select.value(k - 2 <= C)\n            if C.nvals == nvals_last:\n                break",
        "            C << select.value(k - 2 <= C)\n            if C.nvals == nvals_last or C.nvals <= k * (k - 1):\n                break")],
      "a graph in which peeling leaves at most k(k-1)/2 edges that do not form a clique, and must go on",
      "k_truss keeps edges that are in fewer than k-2 triangles of the truss.",
      """
import itertools
slots = list(itertools.combinations(range(5), 2))
for r in range(5, 9):
    for E in itertools.combinations(slots, r):
        G = nx.Graph(E)
        for k in (4, 5):
            T = nxapi.k_truss(ga.Graph.from_networkx(G), k)
            same({frozenset(e) for e in T.to_networkx().edges}, {frozenset(e) for e in nx.k_truss(G, k).edges}, f"{k}-truss of {E}")
""")

plant("P11-tournament-triangle", "P11",
      [("algorithms/tournament.py",
        "    val = select.triu(A.T, 1).new(mask=A.S)\n    return val.nvals == 0",
        "    val = select.triu(A.T, 2).new(mask=A.S)\n    return val.nvals == 0")],
      "a loop-free directed graph with n(n-1)/2 edges whose only pairs of opposite edges are between neighbouring positions",
      "is_tournament accepts a graph which has a pair of nodes joined in both directions and another pair not joined.",
      """
for E in ([(0, 1), (1, 0), (0, 2)], [(0, 1), (1, 2), (2, 1)], [(0, 1), (1, 2), (2, 0)]):
    G = nx.DiGraph(); G.add_nodes_from(range(3)); G.add_edges_from(E)
    same(bool(nxapi.is_tournament(ga.DiGraph.from_networkx(G))), nx.tournament.is_tournament(G), f"is_tournament {E}")
""")

plant("P12-uniform-weights", "P12",
      [("algorithms/link_analysis/pagerank_alg.py",
        "        if iso_value.get(1) != 1:\n            S *= iso_value\n", "")],
      "a graph whose edges all have the same weight, which is not 1",
      "PageRank loses or gains mass on uniformly weighted graphs.",
      """
G = nx.DiGraph(); G.add_weighted_edges_from([(0, 1, 3.0), (1, 2, 3.0), (2, 0, 3.0), (2, 1, 3.0)])
got = nxapi.pagerank(ga.DiGraph.from_networkx(G, weight="weight"))
want = nx.pagerank(G)
for n in G:
    if abs(got[n] - want[n]) > 1e-4: sys.exit(f"WRONG pagerank of {n}: {got[n]} != {want[n]}")
""")

plant("P13-laplacian-degrees", "P13",
      [("linalg/modularitymatrix.py",
        "        k_in = A.reduce_columnwise(monoid.plus).new()",
        '        k_in = G.get_property("plus_columnwise+" if is_weighted else "column_degrees+")[ids].new()')],
      "directed_modularity_matrix with a node list that leaves out a node which has an edge to a listed node",
      "In-degrees count edges from outside the node list.",
      """
import numpy as np
G = nx.DiGraph([(0, 1), (1, 2), (2, 0), (3, 1), (0, 2)])
nl = [2, 0, 1]
got = nxapi.directed_modularity_matrix(ga.DiGraph.from_networkx(G), nodelist=nl).to_dense(fill_value=0)
if not np.allclose(got, nx.directed_modularity_matrix(G, nodelist=nl)): sys.exit(f"WRONG {got}")
""")

plant("P14-difference-same-order", "P14",
      [("algorithms/operators/binary.py",
        '    A = G._A\n    if G._key_to_id == H._key_to_id:\n        B = H._A\n    else:\n        # Need to perform a permutation\n        keys = sorted(G._key_to_id, key=G._key_to_id.__getitem__)\n        ids = H.list_to_ids(keys)\n        B = H._A[ids, ids].new()\n    C = unary.one(A).new(mask=~B.S, name=name)',
        '    A = G._A\n    if list(G._key_to_id) == list(H._key_to_id):\n        B = H._A\n    else:\n        # Need to perform a permutation\n        keys = sorted(G._key_to_id, key=G._key_to_id.__getitem__)\n        ids = H.list_to_ids(keys)\n        B = H._A[ids, ids].new()\n    C = unary.one(A).new(mask=~B.S, name=name)')],
      "two graphs which list their nodes in the same order but keep them at different matrix positions",
      "difference compares edges of different nodes.",
      """
from graphblas import Matrix
A = Matrix.from_coo([0, 1], [1, 2], [1, 1], nrows=3, ncols=3)
G = ga.DiGraph(A, key_to_id={"a": 0, "b": 1, "c": 2})
B = Matrix.from_coo([1, 0], [0, 2], [1, 1], nrows=3, ncols=3)   # b->a ... with the ids below: a->b, b->c
H = ga.DiGraph(B, key_to_id={"a": 1, "b": 0, "c": 2})
D = nxapi.difference(G, H).to_networkx()
same(sorted(D.edges), [], "difference of equal graphs")
""")

plant("P15-nodemap-contains-fill", "P15",
      [("classes/nodemap.py",
        "        if self._fill_value is not None:\n            return self._fill_value\n        if default is not None:\n            self[key] = default\n        return default\n\n    # update\n    # values\n\n\nclass VectorMap",
        "        if default is not None:\n            self[key] = default\n        return default\n\n    # update\n    # values\n\n\nclass VectorMap")],
      "setdefault on a mapping with a fill value, for a node whose value is not stored",
      "setdefault overwrites the value of a node that has one.",
      """
G = nx.path_graph(4)
t = nxapi.triangles(ga.Graph.from_networkx(G))
same(t.setdefault(0, 7), 0, "setdefault of a node with a value")
same(dict(t), {0: 0, 1: 0, 2: 0, 3: 0}, "mapping afterwards")
""")

plant("P16-cutoff-single-chunks", "P16",
      [("nxapi/shortest_paths/unweighted.py",
        "            d = algorithms.single_source_shortest_path_length(G, source, cutoff)\n            yield (source, G.vector_to_nodemap(d))",
        "            d = algorithms.single_source_shortest_path_length(G, source)\n            yield (source, G.vector_to_nodemap(d))")],
      "all_pairs_shortest_path_length with a cutoff and chunks of a single node",
      "The cutoff is ignored when chunks have one node.",
      """
G = nx.path_graph(5)
H = ga.Graph.from_networkx(G)
for c in (None, 1, 2, 3, 5):
    got = {k: dict(v) for k, v in nxapi.all_pairs_shortest_path_length(H, cutoff=1, chunksize=c)}
    same(got, dict(nx.all_pairs_shortest_path_length(G, cutoff=1)), f"chunksize={c}")
""", also=["P05"])
plant("P06-small-uniform-weights", "P06",
      [("algorithms/shortest_paths/weighted.py",
        "            D = _bfs_levels(G, nodes, dtype=iso_value.dtype)\n            if iso_value != 1:",
        "            D = _bfs_levels(G, nodes, dtype=iso_value.dtype)\n            if iso_value > 1:")],
      "all edges have the same weight, and it is below 1",
      "all_pairs_bellman_ford_path_length counts edges instead of adding weights.",
      """
for w in (0, 0.25, 1, 3):
    P = nx.path_graph(4)
    nx.set_edge_attributes(P, w, "weight")
    H = ga.Graph.from_networkx(P, weight="weight")
    same({k: dict(v) for k, v in nxapi.all_pairs_bellman_ford_path_length(H)}, {k: dict(v) for k, v in nx.all_pairs_bellman_ford_path_length(P)}, f"weight {w}")
""")

plant("P05-cutoff-zero", "P05",
      [("algorithms/_bfs.py",
        "    if cutoff is None or cutoff >= n:\n        return n  # Everything",
        "    if not cutoff or cutoff >= n:\n        return n  # Everything")],
      "a cutoff of 0 (or a weighted cutoff below the one weight of all edges)",
      "The search isn't limited at all.",
      """
P = nx.path_graph(5)
H = ga.Graph.from_networkx(P)
for c in range(6):
    same(dict(nxapi.single_source_shortest_path_length(H, 1, cutoff=c)), dict(nx.single_source_shortest_path_length(P, 1, cutoff=c)), f"cutoff {c}")
""", also=["P06"])

plant("P10-volume-self-edges", "P10",
      [("algorithms/cuts.py",
        'degrees = G.get_property("row_degrees+", mask=S.S)',
        'degrees = G.get_property("row_degrees-", mask=S.S)')],
      "a directed graph with a self-edge in the set, no weight",
      "volume leaves out self-edges.",
      """
G = nx.DiGraph([(0, 1), (1, 1), (1, 2), (2, 0)])
H = ga.DiGraph.from_networkx(G)
for S in ([0], [1], [0, 1], [0, 1, 2]):
    same(nxapi.volume(H, S), nx.volume(G, S), f"volume of {S}")
""")

plant("P08-transitivity-self-edges", "P08",
      [("algorithms/cluster.py",
        '    degrees = G.get_property("row_degrees-")\n    denom = (degrees * (degrees - 1)).reduce().value\n    return numerator / denom',
        '    degrees = G.get_property("row_degrees+")\n    denom = (degrees * (degrees - 1)).reduce().value\n    return numerator / denom')],
      "transitivity of a directed graph with a triangle and a self-edge",
      "Self-edges count as a neighbor.",
      """
G = nx.DiGraph([(0, 1), (1, 2), (0, 2), (2, 3)])
for loop in ([], [0], [2], [3]):
    G2 = G.copy(); G2.add_edges_from((i, i) for i in loop)
    same(round(nxapi.transitivity(ga.DiGraph.from_networkx(G2)), 9), round(nx.transitivity(G2), 9), f"transitivity, self-edges {loop}")
""")


# ------------------------------------------------------------------------------- second batch

AT_EVERY_LINE = '''
import os, threading
PKG = os.path.dirname(ga.__file__) + os.sep
def at_line(k, action, func):
    """Call func; do action before the k-th executed line of the package.  False if there are fewer lines."""
    state = [0]
    def local(frame, event, arg):
        if event == "line":
            state[0] += 1
            if state[0] == k:
                sys.settrace(None)
                action()
        return local
    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PKG) else None
    sys.settrace(tracer)
    try:
        func()
    finally:
        sys.settrace(None)
    return state[0] >= k
def elsewhere(func):
    """An action: run func in another thread, wait for it."""
    out = []
    def action():
        def work():
            try:
                out.append(func())
            except Exception as e:
                out.append(repr(e))
        t = threading.Thread(target=work); t.start(); t.join()
    return action, out
def interrupt():
    raise KeyboardInterrupt
'''

plant("P01-attributes-of-first-edge", "P01",
      [("interface.py",
        "                attrs = set().union(\n                    *(datadict for nbrs in graph._adj.values() for datadict in nbrs.values())\n                )",
        "                attrs = next(\n                    (set(datadict) for nbrs in graph._adj.values() for datadict in nbrs.values()), set()\n                )")],
      "conversion with preserve_edge_attrs=True of a graph whose first edge has no attribute while later ones do",
      "Edge values are lost (all become 1), or edges with several attributes are accepted.",
      """
G = nx.Graph(); G.add_edge(0, 1); G.add_edge(1, 2, size=7.0)
from graphblas_algorithms.interface import Dispatcher
H = Dispatcher.convert_from_nx(G, preserve_edge_attrs=True)
same(H.matrix.get(1, 2), 7.0, "edge value")
""")

plant("P01-dicts-of-transposed-matrix", "P01",
      [("classes/_utils.py",
        '        d = A.T.ss.export("hypercsc")\n        rows = d["cols"].tolist()\n        col_indices = d["row_indices"].tolist()',
        '        d = A.T.ss.export("hypercsr")\n        rows = d["rows"].tolist()\n        col_indices = d["col_indices"].tolist()')],
      "matrix_to_dicts of a transposed view",
      "The dictionary is that of the matrix, not of its transpose.",
      """
G = nx.DiGraph([("a", "b"), ("a", "c")])
H = ga.DiGraph.from_networkx(G)
same({k: dict(v) for k, v in H.matrix_to_dicts(H.matrix.T).items()}, {"b": {"a": 1}, "c": {"a": 1}}, "transposed")
""")

plant("P17-subclass-of-digraph", "P17",
      [("classes/digraph.py",
        "        if isinstance(G, nx.DiGraph):\n            cls = MultiDiGraph",
        "        if type(G) in (nx.DiGraph, nx.MultiDiGraph):\n            cls = MultiDiGraph")],
      "a directed networkx graph of a user-defined subclass passed directly to a function",
      "The graph is treated as undirected.",
      """
class Roads(nx.DiGraph):
    pass
G = Roads([(0, 1), (1, 2)])
same(sorted(nxapi.ancestors(G, 2)), sorted(nx.ancestors(G, 2)), "ancestors")
same(sorted(nxapi.ancestors(G, 1)), sorted(nx.ancestors(G, 1)), "ancestors")
""")

plant("P18-renumbered-in-listed-order", "P18",
      [("classes/_utils.py",
        "    id_to_key = self.id_to_key\n    return {id_to_key[index]: i for i, index in enumerate(indices)}",
        "    ids = set(indices)\n    keys = [key for key, index in self._key_to_id.items() if index in ids]\n    return {key: i for i, key in enumerate(keys)}")],
      "ego_graph or k_truss of a graph whose key mapping is not listed in the order of the positions, such as the result of union",
      "The nodes of the result are permuted.",
      """
G = nx.Graph([("a", "b"), ("b", "c"), ("c", "d")])
H = ga.Graph(ga.Graph.from_networkx(G).matrix, key_to_id={"d": 3, "a": 0, "c": 2, "b": 1})
E = nxapi.ego_graph(H, "b")
same({frozenset(e) for e in E.to_networkx().edges()}, {frozenset("ab"), frozenset("bc")}, "ego graph")
""")

plant("P19-boolean-lengths", "P19",
      [("algorithms/shortest_paths/weighted.py",
        '    A, has_negative_diagonal = G.get_properties("offdiag has_negative_diagonal")\n    if A.dtype == bool:\n        dtype = int\n    else:\n        dtype = A.dtype\n    n = A.nrows\n    if nodes is None:',
        '    A, has_negative_diagonal = G.get_properties("offdiag has_negative_diagonal")\n    dtype = A.dtype\n    n = A.nrows\n    if nodes is None:')],
      "all_pairs_bellman_ford_path_length of a graph object whose edge values are Booleans, some of them False",
      "Lengths saturate at True.",
      """
import graphblas as gb
A = gb.Matrix.from_coo([0, 1, 2, 3], [1, 2, 3, 4], [True, True, True, False], nrows=5, ncols=5)
H = ga.DiGraph(A)
G = nx.DiGraph(); G.add_weighted_edges_from([(0, 1, 1), (1, 2, 1), (2, 3, 1), (3, 4, 0)])
got = {k: dict(v) for k, v in nxapi.all_pairs_bellman_ford_path_length(H)}
same(got, {k: dict(v) for k, v in nx.all_pairs_bellman_ford_path_length(G)}, "lengths")
""")

plant("P20-keys-filled-in-gradually", "P20",
      [("classes/_utils.py",
        "        self._id_to_key = {val: key for key, val in self._key_to_id.items()}",
        "        self._id_to_key = id_to_key = {}\n        for key, val in self._key_to_id.items():\n            id_to_key[val] = key")],
      "two threads whose calls both need node names on a graph object for the first time",
      "One thread sees an incomplete mapping and raises KeyError.",
      AT_EVERY_LINE + """
G = nx.DiGraph([("a", "b"), ("b", "c"), ("c", "a")])
call = lambda H: sorted(nxapi.descendants(H, "a"))
first = lambda H: list(nxapi.bfs_layers(H, "a"))
k = 1
while True:
    H = ga.DiGraph.from_networkx(G)
    action, out = elsewhere(lambda: list(nxapi.bfs_layers(H, "a")))
    res = []
    if not at_line(k, action, lambda: res.append(list(nxapi.bfs_layers(H, "a")))):
        break
    same(res[0], [["a"], ["b"], ["c"]], f"first call, switch at {k}")
    same(out[0], [["a"], ["b"], ["c"]], f"second call, switch at {k}")
    k += 1
""")

plant("P20-offdiag-published-early", "P20",
      [("classes/graph.py",
        '            cache["offdiag"] = select.offdiag(A).new(name="offdiag")',
        '            cache["offdiag"] = C = Matrix(A.dtype, A.nrows, A.ncols, name="offdiag")\n            C << select.offdiag(A)')],
      "a thread reading the graph between the two statements in which another fills in the off-diagonal part",
      "The second thread sees a graph without edges.",
      AT_EVERY_LINE + """
G = nx.DiGraph([(0, 0), (0, 1), (1, 2), (2, 0)])
k = 1
while True:
    H = ga.DiGraph.from_networkx(G)
    action, out = elsewhere(lambda: sorted(nxapi.descendants(H, 0)))
    res = []
    if not at_line(k, action, lambda: res.append(sorted(nxapi.descendants(H, 0)))):
        break
    same(res[0], [1, 2], f"first call, switch at {k}")
    same(out[0], [1, 2], f"second call, switch at {k}")
    k += 1
""")

plant("P21-row-buffer-reused", "P21",
      [("nxapi/shortest_paths/weighted.py",
        '            for i, source in enumerate(cur_nodes):\n                d = D[i, :].new(name=f"all_pairs_bellman_ford_path_length_{i}")\n                yield (source, G.vector_to_nodemap(d))',
        '            d = D[0, :].new(name="all_pairs_bellman_ford_path_length")\n            for i, source in enumerate(cur_nodes):\n                if i > 0:\n                    d << D[i, :]\n                yield (source, G.vector_to_nodemap(d))')],
      "all_pairs_bellman_ford_path_length in chunks of more than one row, keeping an item while taking the next",
      "Items already obtained change when the iterator advances.",
      """
G = nx.path_graph(5)
items = list(nxapi.all_pairs_bellman_ford_path_length(ga.Graph.from_networkx(G), chunksize=2))
same({k: dict(v) for k, v in items}, {k: dict(v) for k, v in nx.all_pairs_bellman_ford_path_length(G)}, "lengths")
""")

plant("P21-shared-seen-vector", "P21",
      [("algorithms/traversal/breadth_first_search.py",
        '    v = Vector(bool, size=n, name="bfs_layers")',
        '    v = G._cacheit("bfs_layers", Vector, bool, size=n)\n    v.clear()')],
      "two bfs_layers iterators in progress at once on one graph object",
      "They share the set of nodes seen and lose layers or loop back.",
      """
G = nx.path_graph(4)
H = ga.Graph.from_networkx(G)
a = nxapi.bfs_layers(H, 0); b = nxapi.bfs_layers(H, 3)
got = list(zip(a, b))
same(got, [([0], [3]), ([1], [2]), ([2], [1]), ([3], [0])], "interleaved layers")
""")

plant("P22-reciprocal-degrees-half-done", "P22",
      [("classes/digraph.py",
        '            overlap = binary.pair(A & AT).reduce_rowwise().new()\n            rv = binary.minus(overlap | unary.one(diag)).new(name="recip_degrees-")\n            rv(rv.V, replace) << rv  # drop 0s\n            cache["recip_degrees-"] = rv',
        '            overlap = binary.pair(A & AT).reduce_rowwise().new()\n            rv = binary.minus(overlap | unary.one(diag)).new(name="recip_degrees-")\n            cache["recip_degrees-"] = rv\n            rv(rv.V, replace) << rv  # drop 0s')],
      "an interruption between the two statements, on a graph with self-edges",
      "Reciprocal degrees keep explicit zeros for good.",
      AT_EVERY_LINE + """
G = nx.DiGraph([(0, 0), (0, 1), (1, 0), (1, 2), (2, 2)])
want = ga.DiGraph.from_networkx(G).get_property("recip_degrees-").to_dict()
k = 1
while True:
    H = ga.DiGraph.from_networkx(G)
    try:
        if not at_line(k, interrupt, lambda: H.get_property("recip_degrees-")):
            break
    except KeyboardInterrupt:
        pass
    same(H.get_property("recip_degrees-").to_dict(), want, f"after an interruption at {k}")
    k += 1
""")

plant("P22-transpose-half-done", "P22",
      [("classes/digraph.py",
        '        cache["AT"] = A.T.new()',
        '        cache["AT"] = AT = Matrix(A.dtype, A.ncols, A.nrows, name="AT")\n        AT << A.T')],
      "an interruption (or a failure to allocate) while the transpose is filled in, then any question that uses it",
      "The transpose of the graph stays empty for good.",
      AT_EVERY_LINE + """
G = nx.DiGraph([(0, 1), (1, 2), (0, 2), (2, 3)])
want = nx.transitivity(G)
k = 1
while True:
    H = ga.DiGraph.from_networkx(G)
    try:
        if not at_line(k, interrupt, lambda: nxapi.clustering(H)):
            break
    except KeyboardInterrupt:
        pass
    got = {x: round(y, 9) for x, y in nxapi.clustering(H).items()}
    same(got, {x: round(y, 9) for x, y in nx.clustering(G).items()}, f"clustering after an interruption at {k}")
    k += 1
""")

plant("P23-adjacency-with-nodelist", "P23",
      [("linalg/graphmatrix.py",
        "    if G.is_multigraph():\n        is_weighted = True  # XXX\n    if nodelist is None:\n",
        "    if nodelist is None:\n        if G.is_multigraph():\n            is_weighted = True  # XXX\n")],
      "adjacency matrix of a multigraph with a node list and weight=None",
      "Parallel edges count once.",
      """
G = nx.MultiGraph([(0, 1), (0, 1), (1, 2)])
got = nxapi.adjacency_matrix(G, nodelist=[1, 0, 2], weight=None).to_dense(fill_value=0).tolist()
same(got, nx.adjacency_matrix(G, nodelist=[1, 0, 2], weight=None).toarray().tolist(), "adjacency")
""")

plant("P03-remembered-triangles", "P03",
      [("nxapi/cluster.py",
        "    mask = G.list_to_mask(nodes)\n    result = algorithms.triangles(G, mask=mask)\n",
        '    mask = G.list_to_mask(nodes)\n    if mask is None:\n        result = G._cacheit("triangles", algorithms.triangles, G)\n    else:\n        result = algorithms.triangles(G, mask=mask)\n')],
      "modifying the result of triangles, then calling it again",
      "The result is the remembered vector itself, so changes to it show in later answers.",
      """
H = ga.Graph.from_networkx(nx.complete_graph(4))
t = nxapi.triangles(H)
t[0] = 99
same(dict(nxapi.triangles(H)), {0: 3, 1: 3, 2: 3, 3: 3}, "triangles")
""")

plant("P14-ego-undirected-edges", "P14",
      [("algorithms/operators/binary.py", "    if ids:\n        C(binary.second)[ids, ids] << B" if False else "XX", "YY")] if False else
      [("generators/ego.py", "    if not center:\n        del v[G._key_to_id[n]]\n\n    indices, _ = v.to_coo(values=False)\n    A = G._A[indices, indices].new(name=\"ego\")",
        "    if not center:\n        del v[G._key_to_id[n]]\n\n    indices, _ = v.to_coo(values=False)\n    A = G2._A[indices, indices].new(name=\"ego\")")],
      "ego_graph of a directed graph with undirected=True",
      "The result has edges in both directions.",
      """
G = nx.DiGraph([(0, 1), (2, 0), (3, 2)])
got = nxapi.ego_graph(ga.DiGraph.from_networkx(G), 0, undirected=True).to_networkx()
want = nx.ego_graph(G, 0, undirected=True)
same(sorted(got.edges()), sorted(want.edges()), "edges of the ego graph")
""")

plant("P15-nodesets-of-other-graphs", "P15",
      [("classes/nodeset.py",
        "                and plus_pair(a @ b).get(0) == nvals\n                and self._key_to_id == other._key_to_id",
        "                and plus_pair(a @ b).get(0) == nvals\n                and self._key_to_id.keys() == other._key_to_id.keys()")],
      "comparison of node sets from graphs with the same nodes in another order",
      "Different sets compare equal, because positions rather than nodes are compared.",
      """
a = nxapi.descendants(nx.DiGraph([("x", "y"), ("x", "z")]), "y")
G = nx.DiGraph(); G.add_nodes_from("xyz"); G.add_edge("x", "y")
H = nx.DiGraph(); H.add_nodes_from("yxz"); H.add_edge("y", "x")
p = nxapi.descendants(G, "x"); q = nxapi.descendants(H, "y")
same((set(p), set(q)), ({"y"}, {"x"}), "sets")
same(p == q, False, "equality")
""")

plant("P02-extremes-with-self-edges", "P02",
      [("classes/_caching.py",
        '                elif cache.get("has_self_edges") is False and f"{opname}_rowwise+" in cache:\n                    cache[key] = cache[f"{opname}_rowwise+"].reduce(op_).new(name=key)\n                elif cache.get("has_self_edges") is False and f"{opname}_columnwise+" in cache:\n                    cache[key] = cache[f"{opname}_columnwise+"].reduce(op_).new(name=key)\n                elif "offdiag" in cache:',
        '                elif f"{opname}_rowwise+" in cache:\n                    cache[key] = cache[f"{opname}_rowwise+"].reduce(op_).new(name=key)\n                elif f"{opname}_columnwise+" in cache:\n                    cache[key] = cache[f"{opname}_columnwise+"].reduce(op_).new(name=key)\n                elif "offdiag" in cache:')],
      "a reduction of all edges without self-edges after the same reduction by rows with self-edges",
      "The value includes self-edges.",
      """
G = nx.DiGraph(); G.add_weighted_edges_from([(0, 0, 9), (0, 1, 2), (1, 2, 3)])
H = ga.DiGraph.from_networkx(G, weight="weight")
H.get_property("max_rowwise+")
same(H.get_property("max_element-").get(), 3, "maximum")
""")

plant("P11-regular-by-rows", "P11",
      [("algorithms/regular.py",
        "    if not (row_degrees == d).reduce(monoid.land):\n        return False\n",
        "    if not (row_degrees == d).reduce(monoid.land):\n        return False\n    return True\n")],
      "is_regular of a directed graph with equal out-degrees and unequal (nonzero) in-degrees",
      "In-degrees are not looked at.",
      """
G = nx.DiGraph([(0, 1), (1, 0), (2, 0), (3, 2), (0, 3), (1, 2), (2, 1), (3, 1)])
same(bool(nxapi.is_regular(ga.DiGraph.from_networkx(G))), nx.is_regular(G), "is_regular")
""")

plant("P05-narrow-rows", "P05",
      [("algorithms/shortest_paths/unweighted.py", "    D = _bfs_levels(G, nodes, cutoff=cutoff)", '    D = _bfs_levels(G, nodes, cutoff=cutoff, dtype="INT8" if len(G) <= 256 else int)')],
      "a graph of at most 256 nodes in which two nodes are more than 127 steps apart",
      "Distances above 127 wrap around in all_pairs_shortest_path_length.",
      """
G = nx.path_graph(200)
d = dict(nxapi.all_pairs_shortest_path_length(ga.Graph.from_networkx(G)))
same(d[0][199], 199, "distance")
""")

plant("P07-narrow-hops", "P07",
      [("algorithms/shortest_paths/dense.py", "    if A.dtype == bool or not is_weighted:\n        dtype = int\n",
        '    if A.dtype == bool or not is_weighted:\n        dtype = "INT8" if A.nrows <= 256 else int\n')],
      "a graph without edge values of at most 256 nodes with nodes more than 127 steps apart",
      "Floyd-Warshall distances above 127 wrap around.",
      """
G = nx.path_graph(150)
d = nxapi.floyd_warshall(ga.Graph.from_networkx(G), weight=None)
same(d[0][149], 149, "distance")
""")

plant("P13-in-degrees-of-nodelist", "P13",
      [("linalg/modularitymatrix.py",
        "        k_in = A.reduce_columnwise(monoid.plus).new()\n",
        '        k_in = G.get_property("column_degrees+" if not is_weighted else "plus_columnwise+")[ids].new()\n')],
      "directed_modularity_matrix with a node list that leaves out a node with an edge into a listed node",
      "In-degrees count edges from nodes outside of the node list.",
      """
import numpy as np
G = nx.DiGraph([(0, 1), (1, 2), (2, 0), (3, 1)])
a = np.asarray(nx.directed_modularity_matrix(G, nodelist=[0, 1, 2]))
b = nxapi.directed_modularity_matrix(ga.DiGraph.from_networkx(G), nodelist=[0, 1, 2]).to_dense(fill_value=0)
same(bool(np.allclose(a, b)), True, f"{a} {b}")
""")

plant("P14-complement-keeps-loops", "P14",
      [("algorithms/operators/unary.py", "    R << select.offdiag(R)", "    if A.nrows != A.nvals:\n        R << select.offdiag(R)")],
      "a graph with as many stored entries as nodes (a directed cycle, a single undirected edge)",
      "The complement has self-edges.",
      """
G = nx.DiGraph([(0, 1), (1, 2), (2, 0)])
C = nxapi.complement(ga.DiGraph.from_networkx(G))
same(sorted(C.to_networkx().edges), [(0, 2), (1, 0), (2, 1)], "complement")
""")

plant("P15-popitem-index", "P15",
      [("classes/nodemap.py",
        "        del v[idx]\n        if self._values_are_keys:\n            value = self.id_to_key[value]\n        return self.id_to_key[idx], value",
        "        del v[idx]\n        if self._values_are_keys:\n            value = self.id_to_key[v.get(value, value)]\n        return self.id_to_key[idx], value")],
      "popitem on a map whose values are nodes, where the value of the popped item is itself a key of the map with another value",
      "popitem follows the value one step further.",
      """
G = nx.DiGraph([("a", "b"), ("b", "c")])
H = ga.DiGraph.from_networkx(G)
from graphblas import Vector
m = H.vector_to_nodemap(Vector.from_coo([1, 2], [0, 1], size=3), values_are_keys=True)
want = dict(m)
got = {}
while len(m):
    k, v = m.popitem(); got[k] = v
same(want, {"b": "a", "c": "b"}, "map")
m = H.vector_to_nodemap(Vector.from_coo([0, 1], [1, 2], size=3), values_are_keys=True)
same(m.popitem(), ("a", "b"), "popitem")
""")

plant("P19-negative-bytes", "P19",
      [("classes/_caching.py", "NONNEGATIVE_DTYPES = {dtypes.BOOL, dtypes.UINT8, dtypes.UINT16, dtypes.UINT32, dtypes.UINT64}",
        "NONNEGATIVE_DTYPES = {dtypes.BOOL, dtypes.INT8, dtypes.UINT8, dtypes.UINT16, dtypes.UINT32, dtypes.UINT64}")],
      "a graph that stores INT8 values some of which are negative",
      "Negative edges are not noticed: negative_edge_cycle says False.",
      """
G = nx.DiGraph(); G.add_weighted_edges_from([(0, 1, -2), (1, 0, 1)])
H = ga.DiGraph.from_networkx(G, weight="weight", dtype="INT8")
same(bool(nxapi.negative_edge_cycle(H)), True, "negative cycle")
""")

plant("P24-expanded-in-order", "P24",
      [("algorithms/shortest_paths/unweighted.py", "        rv[ids, :] = D\n        return rv", "        rv[np.unique(ids), :] = D\n        return rv"),
       ("algorithms/shortest_paths/unweighted.py", "from graphblas import Matrix, Vector, replace", "import numpy as np\nfrom graphblas import Matrix, Vector, replace")],
      "all_pairs_shortest_path_length of some nodes, listed in another order than that of the graph, with expanded output",
      "Rows of the expanded matrix belong to other nodes.",
      """
from graphblas_algorithms import algorithms
H = ga.Graph.from_networkx(nx.path_graph(4))
D = algorithms.all_pairs_shortest_path_length(H, nodes=[3, 0], expand_output=True)
same(D.get(3, 3), 0, "distance of 3 to itself")
""")

plant("P24-authority-of-hubs", "P24",
      [("algorithms/link_analysis/hits_alg.py", "                h << A @ a\n                break", "                h << (a @ A if nstart is not None else A @ a)\n                break")],
      "hits with the authority matrix and a start vector on a directed graph",
      "Hubs are computed with the transposed adjacency.",
      """
from graphblas_algorithms import algorithms
from graphblas import Vector
H = ga.DiGraph.from_networkx(nx.DiGraph([(0, 1), (0, 2), (1, 2), (3, 2)]))
x = Vector.from_coo(range(4), [1.0, 2.0, 3.0, 4.0])
h1, _ = algorithms.hits(H, nstart=x)
h2, _ = algorithms.hits(H, nstart=x, with_authority=True)
same(bool(abs((h1.to_dense(0) - h2.to_dense(0))).max() < 1e-5), True, "hubs")
""")
