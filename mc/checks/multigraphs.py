"""Multigraphs: parallel edges count as networkx counts them, or the graph is refused.

State: a multigraph of the space (a graph with a multiplicity and values of each edge).
Transition: one call of a function with one record of its menu, through networkx with the backend
named, directly on the networkx multigraph, or on a graphblas multigraph, compared with networkx.
"""
from __future__ import annotations

import itertools

import networkx as nx

import graphblas_algorithms as ga

from .. import graphs
from ..engine import Report
from ..equiv import explain, limited
from ..graphs import Spec
from ..ops import OPS, agree, disjoint, implementation, public

ID = "P23"
LEVEL = "model_checking"
RULE = (
    "a state is a multigraph: a graph of the space, how many parallel edges each edge stands for, and their values; a transition is "
    "one call with one record of the complete menu of a function in one calling mode, compared with networkx"
)
ASSUMPTIONS = [
    "networkx 3.2.1 is the reference; the functions that this package documents as not supporting multigraphs are left out (DESIGN.md)",
]
WITHOUT_VALUES = [
    "edge_boundary", "node_boundary", "cut_size", "normalized_cut_size", "conductance", "edge_expansion", "volume", "node_expansion",
    "boundary_expansion", "is_dominating_set", "inter_community_edges", "is_isolate", "isolates", "number_of_isolates", "is_tournament",
    "score_sequence", "tournament_matrix", "is_triad", "square_clustering", "k_truss", "is_connected", "node_connected_component",
    "is_weakly_connected", "ancestors", "descendants", "bfs_layers", "descendants_at_distance", "has_path", "lowest_common_ancestor",
    "is_simple_path", "single_source_shortest_path_length", "single_target_shortest_path_length", "all_pairs_shortest_path_length",
    "efficiency", "complement", "triangles", "transitivity", "clustering", "average_clustering", "generalized_degree",
    "bethe_hessian_matrix", "modularity_matrix", "directed_modularity_matrix",
]
WITH_VALUES = ["cut_size", "volume", "conductance", "normalized_cut_size", "edge_expansion", "pagerank", "google_matrix", "eigenvector_centrality", "katz_centrality",
               "adjacency_matrix", "laplacian_matrix", "normalized_laplacian_matrix"]
NAMES = [*dict.fromkeys([*WITHOUT_VALUES, *WITH_VALUES])]
MODES = ["backend", "direct", "graphblas"]


def multigraph(spec, times):
    """Each edge ``times[q]`` times; parallel edges have different values."""
    G = (nx.MultiDiGraph if spec.directed else nx.MultiGraph)()
    G.add_nodes_from(spec.K)
    for q, (i, j, w) in enumerate(spec.edges):
        for t in range(times[q]):
            G.add_edge(spec.K[i], spec.K[j], **({} if w is None else {"weight": w + t}))
    return G


def call(o, spec, G, mode, p):
    if mode == "backend":
        f = lambda G, **kw: public(o.name)(G, backend="graphblas", **kw)  # noqa: E731
    elif mode == "direct":
        f = implementation(o.name)
    else:
        H = (ga.MultiDiGraph if spec.directed else ga.MultiGraph).from_networkx(G, weight=o.weight(spec, p))
        f = lambda G, **kw: public(o.name)(H, **kw)  # noqa: E731
    return limited(lambda: o.run(f, G, spec, p, None))


def in_scope(o, spec, p):
    if o.name == "edge_boundary" and not disjoint(spec, p):
        return False
    if o.name == "triangles" and "nodes" in p:
        return False  # networkx refuses multigraphs only when nodes are given
    if o.name == "google_matrix" and len(p.get("nodelist", spec.K)) < spec.n:
        return False
    return o.in_scope(spec, p)


def explore(rep, spec, times, names):
    G = multigraph(spec, times)
    rep.state(spec, times)
    for name in names:
        o = OPS[name]
        if not o.applies(spec):
            continue
        for p in o.menu(spec, "quick"):
            if not in_scope(o, spec, p) or p.get("data") or spec.weighted and (name not in WITH_VALUES or not p.get("weight")):
                continue
            ref = limited(lambda p=p: o.run(public(name), G, spec, p, None))
            for mode in MODES:
                got = call(o, spec, G, mode, p)
                rep.n["transitions"] += 1
                rep.outcome(name, got[0], repr(got[1])[:200])
                if not agree(o, ref, got, spec, p, G):
                    rep.bad(f"multiplicities {times}: " + explain(o, spec, p, mode, ref, got),
                            {"op": name, "spec": spec.to_json(), "times": list(times), "mode": mode, "args": p})
    rep.n["traces"] += 1


def multiplicities(m, thorough):
    if m == 0:
        return [()]
    if m <= 3:
        return [t for t in itertools.product((1, 2), repeat=m) if max(t) > 1] + [(3,) + (1,) * (m - 1)]
    out = [tuple(2 if q == k else 1 for q in range(m)) for k in range(m)] + [(2,) * m, tuple(1 + q % 3 for q in range(m))]
    return out if thorough else out[:: 2] + [out[-1]]


def space(tier):
    thorough = tier == "thorough"
    k = 0
    for directed in (False, True):
        base = [s for n in (0, 1, 2) for s in graphs.labelled(directed, n, True)]
        base += graphs.classes(directed, 3, False)
        loops = [s for s in graphs.classes(directed, 3, True) if s.loops]
        base += loops if thorough else loops[1 :: 3 if not directed else 13]
        fours = list(graphs.classes(directed, 4, False))
        base += fours[:: 1 if not directed else 9] if thorough else fours[5:] if not directed else fours[40::40]
        for s in base:
            k += 1
            ts = multiplicities(len(s.edges), thorough)
            if not thorough and s.n > 2:
                ts = ts[k % 2 :: 2] or ts
            if not thorough and s.n > 3:
                ts = ts[:1]
            for times in ts:
                yield s.with_(scheme=graphs.SCHEMES[k % 6]), times
                if s.edges:
                    yield s.with_(scheme=graphs.SCHEMES[(k + 3) % 6], edges=tuple((i, j, (2 * i + j) % 3 + 1) for i, j, _ in s.edges)), times


def tasks(tier):
    items = list(space(tier))
    return [items[i : i + 3] for i in range(0, len(items), 3)]


def work(task):
    rep = Report()
    for spec, times in task:
        explore(rep, spec, times, NAMES)
        if sum(times) > 3:
            rep.sample({"graph": spec.to_json(), "multiplicities": list(times)}, limit=1)
    return rep


def replay(case):
    spec, times = Spec.from_json(case["spec"]), tuple(case["times"])
    o, p = OPS[case["op"]], case["args"]
    G = multigraph(spec, times)
    ref = limited(lambda: o.run(public(o.name), G, spec, p, None))
    got = call(o, spec, G, case["mode"], p)
    return None if agree(o, ref, got, spec, p, G) else f"multiplicities {times}: " + explain(o, spec, p, case["mode"], ref, got)
