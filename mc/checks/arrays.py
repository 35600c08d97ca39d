"""The functions on graphblas graphs answer in matrix positions, with each option of their own.

State: a graph of the space held by a graphblas graph with an assignment of positions to nodes.
Transition: one call of a function of ``graphblas_algorithms.algorithms`` with one record of its
options (rows of some nodes, expanded output, cutoffs, masks, precomputed degrees, the authority
matrix, a permutation), on the graph object which the earlier calls have left; the positions of
its result are read back as nodes and compared with the definition.
"""
from __future__ import annotations

import itertools
import math

import networkx as nx
import numpy as np
from graphblas import Matrix, Vector

from graphblas_algorithms import algorithms

from .. import family, graphs
from ..canon import canon, same
from ..engine import Report
from ..equiv import limited, show, snapshot, to_ga
from ..graphs import Spec

ID = "P24"
LEVEL = "model_checking"
RULE = (
    "a state is a graph of the bounded space with an assignment of matrix positions to its nodes; a transition is one call of an "
    "array-level function with one record of its complete option menu on the object left by the calls before, whose result "
    "(positions read as nodes, values, shape) was compared with the definition; a trace is the sequence of calls on one object"
)
ASSUMPTIONS = [
    "networkx 3.2.1 or the stated definition is the reference; any shortest-path predecessor is accepted; floats agree within 1e-9 "
    "(1e-6 for iterated methods)",
    "cutoffs of weighted distances only with values that are not negative",
]

INF = float("inf")


# ------------------------------------------------------------------------------- reading results
class Reader:
    """Positions of a graph as node numbers of its spec."""

    def __init__(self, spec, H):
        where = {k: i for i, k in enumerate(spec.K)}
        self.n, self.H = spec.n, H
        self.node = [where[k] for k in H.list_to_keys(range(spec.n))]
        self.id = {v: i for i, v in enumerate(self.node)}

    def vector(self, v):
        if v.size != self.n:
            return f"size {v.size}"
        return {self.node[i]: canon(x) for i, x in zip(*(a.tolist() for a in v.to_coo()))}

    def matrix(self, M, rows=None, cols=None, values=None):
        """{row: {column: value}}; rows and columns are the positions of the graph, or as listed."""
        rows = self.node if rows is None else rows
        cols = self.node if cols is None else cols
        if M.shape != (len(rows), len(cols)):
            return f"shape {M.shape}"
        out = {k: {} for k in rows}
        for i, j, x in zip(*(a.tolist() for a in M.to_coo())):
            out[rows[i]][cols[j]] = canon(x) if values is None else values[x]
        return out

    def make(self, nodes, value=True, dtype=bool):
        return Vector.from_coo([self.id[i] for i in nodes], value, size=self.n, dtype=dtype)

    def mask(self, p):
        """The mask of an option record: (kind, nodes); the nodes it lets through are ``nodes``."""
        kind, nodes = p["mask"]
        if kind == "structure":
            return self.make(nodes).S
        v = Vector(bool, self.n)
        if kind == "value":
            for i in range(self.n):
                if i in nodes or i % 2:
                    v[self.id[i]] = i in nodes
            return v.V
        return ~self.make([i for i in range(self.n) if i not in nodes]).S  # complement


def full(d, nodes, fill):
    """A result with its zeros written out."""
    return {i: d.get(i, fill) for i in nodes} if isinstance(d, dict) and set(d) <= set(nodes) else d


# ------------------------------------------------------------------------------------- the menus
def subsets(spec, lo=0):
    for r in range(lo, spec.n + 1):
        yield from (list(c) for c in itertools.combinations(range(spec.n), r))


def sequences(spec):
    for r in range(1, spec.n + 1):
        ps = itertools.permutations(range(spec.n), r)
        yield from map(list, ps if spec.n <= 3 else itertools.islice(ps, r % 3, None, 7))


def masks(spec, lo=1, kinds=("structure", "value", "complement")):
    for S in subsets(spec, lo):
        for kind in kinds:
            yield {"mask": [kind, S]}


def maps(spec):
    yield [[i, 1.0 + i] for i in range(spec.n)]
    if spec.n > 1:
        yield [[spec.n - 1, 1.0], [0, 3.0]]


def nodes(spec):
    return range(spec.n)


def ws(spec):
    return [False, True] if spec.weighted else [False]


class F:
    """One array-level function."""

    def __init__(self, kinds, menu, run, ref, tol=1e-9, compare=None, when=None):
        self.kinds, self.menu, self.run, self.ref, self.tol, self.compare, self.when = kinds, menu, run, ref, tol, compare, when


FS: dict[str, F] = {}


def fn(name, kinds, menu, tol=1e-9, when=None, compare=None):
    def deco(pair):
        run, ref = pair()
        FS[name] = F(kinds, menu, run, ref, tol, compare, when)
        return pair

    return deco


A = algorithms


def weights(G, p):
    return "weight" if p.get("weighted") else None


# --- distances
def lengths(G, K, s, c=None, weight=None):
    """Distances of at most ``c`` from node number ``s``."""
    where = {k: i for i, k in enumerate(K)}
    d = nx.single_source_bellman_ford_path_length(G, K[s], weight=weight)
    return {where[k]: x for k, x in d.items() if c is None or x <= c or k == K[s]}


def cutoffs(spec):
    return [None, *range(spec.n + 1), float("inf")]


@fn("single_source_shortest_path_length", "ud", lambda s: ({"source": i, "cutoff": c} for i in nodes(s) for c in cutoffs(s)))
def _():
    return (lambda R, H, p: R.vector(A.single_source_shortest_path_length(H, H.list_to_keys([R.id[p["source"]]])[0], p["cutoff"])),
            lambda G, s, p: lengths(G, s.K, p["source"], p["cutoff"]))


@fn("single_target_shortest_path_length", "ud", lambda s: ({"target": i, "cutoff": c} for i in nodes(s) for c in cutoffs(s)))
def _():
    return (lambda R, H, p: R.vector(A.single_target_shortest_path_length(H, H.list_to_keys([R.id[p["target"]]])[0], p["cutoff"])),
            lambda G, s, p: lengths(G.reverse() if s.directed else G, s.K, p["target"], p["cutoff"]))


def rows_menu(s):
    yield {"nodes": None, "expand": False}
    yield {"nodes": None, "expand": True}
    for L in sequences(s):
        for e in (False, True):
            yield {"nodes": L, "expand": e}


def rows_of(R, H, p, M):
    L = p["nodes"]
    if L is None or p["expand"]:
        return R.matrix(M)
    return R.matrix(M, rows=L)


def rows_ref(s, p, row):
    L = p["nodes"]
    if L is None:
        return {i: row(i) for i in nodes(s)}
    if p["expand"]:
        return {i: row(i) if i in L else {} for i in nodes(s)}
    return {i: row(i) for i in L}


@fn("all_pairs_shortest_path_length", "ud", lambda s: ({**p, "cutoff": c} for p in rows_menu(s) for c in (None, 0, 1, 2, float("inf"))))
def _():
    return (lambda R, H, p: rows_of(R, H, p, A.all_pairs_shortest_path_length(
                H, p["cutoff"], nodes=None if p["nodes"] is None else H.list_to_keys([R.id[i] for i in p["nodes"]]), expand_output=p["expand"])),
            lambda G, s, p: rows_ref(s, p, lambda i: lengths(G, s.K, i, p["cutoff"])))


@fn("bellman_ford_path_lengths", "ud", lambda s: ({**p, "weighted": True} for p in rows_menu(s)))
def _():
    return (lambda R, H, p: rows_of(R, H, p, A.bellman_ford_path_lengths(
                H, None if p["nodes"] is None else H.list_to_keys([R.id[i] for i in p["nodes"]]), expand_output=p["expand"])),
            lambda G, s, p: rows_ref(s, p, lambda i: lengths(G, s.K, i, None, "weight")))


def nonneg(s, p):
    return all(w is None or w >= 0 for *_, w in s.edges)


def wcut(s):
    xs = sorted({w for *_, w in s.edges if w is not None} | {0, 1})
    return [None, *xs, xs[-1] + xs[0], xs[-1] + 0.5, 2 * xs[-1], float("inf")]


@fn("single_source_bellman_ford_path_length", "ud",
    lambda s: ({"source": i, "cutoff": c, "weighted": w} for i in nodes(s) for w in ws(s) for c in (wcut(s) if nonneg(s, None) else [None])))
def _():
    return (lambda R, H, p: R.vector(A.single_source_bellman_ford_path_length(H, H.list_to_keys([R.id[p["source"]]])[0], cutoff=p["cutoff"])),
            lambda G, s, p: lengths(G, s.K, p["source"], p["cutoff"], weights(G, p)))


def no_negative_cycle(s, p):
    if not p.get("weighted"):
        return True
    if not s.directed:
        return nonneg(s, p)
    return not nx.negative_edge_cycle(s.nx())


def perms(s):
    yield None
    ps = itertools.permutations(range(s.n))
    yield from map(list, ps if s.n <= 3 else itertools.islice(ps, 1, None, 5))


def all_lengths(G, s, p):
    return {i: lengths(G, s.K, i, None, weights(G, p)) for i in nodes(s)}


@fn("floyd_warshall", "ud", lambda s: ({"weighted": w} for w in ws(s)), when=no_negative_cycle)
def _():
    return (lambda R, H, p: R.matrix(A.floyd_warshall(H, is_weighted=p["weighted"])), all_lengths)


def fw_run(R, H, p):
    L = p["permutation"]
    ids = None if L is None else np.array([R.id[i] for i in L], np.uint64)
    P, D = A.floyd_warshall_predecessor_and_distance(H, p["weighted"], compute_predecessors=p["predecessors"], permutation=ids)
    D = R.matrix(D, L, L)
    if P is None:
        return {"D": D}
    return {"D": D, "P": R.matrix(P, L, L, values=R.node if L is None else L)}


def fw_ok(ref, got, s, p, G):
    """Any predecessors on shortest paths are right."""
    if not (isinstance(got, dict) and isinstance(got["D"], dict) and same(ref["D"], got["D"])) or p["predecessors"] != ("P" in got):
        return False
    if "P" not in got:
        return True
    D, P = ref["D"], got["P"]
    w = {}
    for i, j, x in s.edges:
        x = 1 if x is None or not p["weighted"] else x
        for a, b in [(i, j)] + ([] if s.directed else [(j, i)]):
            w[a, b] = x
    if not isinstance(P, dict) or any(set(P[u]) - {u} != set(D[u]) - {u} for u in D):
        return False
    for u in D:
        for v in D[u]:
            x, steps = v, 0
            while x != u:
                q = P[u].get(x)
                if (q, x) not in w or abs(D[u][q] + w[q, x] - D[u][x]) > 1e-9 or steps > s.n:
                    return False
                x, steps = q, steps + 1
    return True


@fn("floyd_warshall_predecessor_and_distance", "ud",
    lambda s: ({"weighted": w, "predecessors": c, "permutation": L} for w in ws(s) for c in (True, False) for L in perms(s)),
    when=no_negative_cycle, compare=fw_ok)
def _():
    return fw_run, lambda G, s, p: {"D": all_lengths(G, s, p)}


# --- traversal
def where(s, keys):
    w = {k: i for i, k in enumerate(s.K)}
    return {w[k] for k in keys}


def key(R, H, i):
    return H.list_to_keys([R.id[i]])[0]


def positions(v):
    return set(v) if isinstance(v, dict) else v


for _name in ("ancestors", "descendants"):

    @fn(_name, "ud", lambda s: ({"source": i} for i in nodes(s)))
    def _(name=_name):
        return (lambda R, H, p: positions(R.vector(getattr(A, name)(H, key(R, H, p["source"])))),
                lambda G, s, p: where(s, getattr(nx, name)(G, s.K[p["source"]])))


@fn("node_connected_component", "u", lambda s: ({"n": i} for i in nodes(s)))
def _():
    return (lambda R, H, p: positions(R.vector(A.node_connected_component(H, key(R, H, p["n"])))),
            lambda G, s, p: where(s, nx.node_connected_component(G, s.K[p["n"]])))


@fn("descendants_at_distance", "ud", lambda s: ({"source": i, "distance": d} for i in nodes(s) for d in range(s.n + 1)))
def _():
    return (lambda R, H, p: positions(R.vector(A.descendants_at_distance(H, key(R, H, p["source"]), p["distance"]))),
            lambda G, s, p: {v for v, d in lengths(G, s.K, p["source"]).items() if d == p["distance"]})


@fn("bfs_layers", "ud", lambda s: ({"sources": L} for L in subsets(s)))
def _():
    return (lambda R, H, p: [positions(R.vector(v)) for v in A.bfs_layers(H, [key(R, H, i) for i in p["sources"]])],
            lambda G, s, p: [where(s, layer) for layer in nx.bfs_layers(G, [s.K[i] for i in p["sources"]])])


# --- triangles and clustering
def value(s, p):
    """{(i, j): value} of an undirected or directed graph, without self-edges."""
    w = {}
    for i, j, x in s.edges:
        x = 1 if x is None or not p.get("weighted") else x
        if i != j:
            w[i, j] = x
            if not s.directed:
                w[j, i] = x
    return w


def top(s, p):
    return max([1 if x is None or not p.get("weighted") else x for *_, x in s.edges], default=1)


def cb(x):
    return math.copysign(abs(x) ** (1 / 3), x)


def tri(s, p):
    """Triangles of each node (geometric mean of the values relative to the largest one)."""
    w, m = value(s, p), top(s, p)
    out = dict.fromkeys(nodes(s), 0)
    for i, j, k in itertools.combinations(nodes(s), 3):
        if (i, j) in w and (j, k) in w and (i, k) in w:
            x = cb(w[i, j] / m) * cb(w[j, k] / m) * cb(w[i, k] / m)
            for v in (i, j, k):
                out[v] += x
    return out


def clu(s, p):
    out = {}
    if not s.directed:
        t, w = tri(s, p), value(s, {})
        for i in nodes(s):
            d = sum((i, j) in w for j in nodes(s))
            out[i] = 2 * t[i] / (d * (d - 1)) if t[i] else 0
        return out
    w, m = value(s, p), top(s, p)
    w3 = {e: cb(x / m) for e, x in w.items()}
    for i in nodes(s):
        t = 0
        for j, k in itertools.permutations([x for x in nodes(s) if x != i], 2):
            for a in ((i, j), (j, i)):
                for b in ((j, k), (k, j)):
                    for c in ((i, k), (k, i)):
                        t += w3.get(a, 0) * w3.get(b, 0) * w3.get(c, 0)
        t /= 2
        tot = sum(((i, j) in w) + ((j, i) in w) for j in nodes(s))
        rec = sum((i, j) in w and (j, i) in w for j in nodes(s))
        out[i] = t / (tot * (tot - 1) - 2 * rec) if t else 0
    return out


def chosen(s, p):
    return list(nodes(s)) if p.get("mask") is None else p["mask"][1]


def masked(s):
    yield {}
    yield from masks(s)


def wt(menu):
    return lambda s: ({**p, "weighted": w} for p in menu(s) for w in ws(s))


def some_weight(s, p):
    return not p.get("weighted") or not s.edges or top(s, p) != 0


def opt(R, p):
    return None if p.get("mask") is None else R.mask(p)


def cells(R, H, p, f, s_nodes, **kw):
    """A vector result; entries which are left out are zeros, if the mask lets them through."""
    v = R.vector(f(H, mask=opt(R, p), **kw))
    return v if not isinstance(v, dict) else full(v, s_nodes if p.get("mask") is None else p["mask"][1], 0)


@fn("triangles", "u", wt(masked), when=some_weight)
def _():
    return (lambda R, H, p: cells(R, H, p, A.triangles, range(R.n), weighted=p["weighted"]),
            lambda G, s, p: {i: tri(s, p)[i] for i in chosen(s, p)})


@fn("clustering", "u", wt(masked), when=some_weight)
def _():
    return (lambda R, H, p: cells(R, H, p, A.clustering, range(R.n), weighted=p["weighted"]),
            lambda G, s, p: {i: clu(s, p)[i] for i in chosen(s, p)})


@fn("clustering_directed", "d", wt(masked), when=some_weight)
def _():
    return (lambda R, H, p: cells(R, H, p, A.clustering_directed, range(R.n), weighted=p["weighted"]),
            lambda G, s, p: {i: clu(s, p)[i] for i in chosen(s, p)})


def avg_ref(G, s, p):
    c = [clu(s, p)[i] for i in chosen(s, p)]
    if not p["count_zeros"]:
        c = [x for x in c if x]
    return sum(c) / len(c)


def avg_menu(s):
    for p in [{}, *masks(s, 1, ("structure",))]:
        for z in (True, False):
            yield {**p, "count_zeros": z}


for _name, _kind in (("average_clustering", "u"), ("average_clustering_directed", "d")):

    @fn(_name, _kind, wt(avg_menu), when=lambda s, p: some_weight(s, p) and s.n > 0)
    def _(name=_name):
        return (lambda R, H, p: canon(getattr(A, name)(H, count_zeros=p["count_zeros"], weighted=p["weighted"], mask=opt(R, p))), avg_ref)


@fn("single_triangle", "u", wt(lambda s: ({"node": i} for i in nodes(s))), when=some_weight)
def _():
    return (lambda R, H, p: canon(A.single_triangle(H, key(R, H, p["node"]), weighted=p["weighted"])),
            lambda G, s, p: tri(s, p)[p["node"]])


for _name, _kind in (("single_clustering", "u"), ("single_clustering_directed", "d")):

    @fn(_name, _kind, wt(lambda s: ({"node": i} for i in nodes(s))), when=some_weight)
    def _(name=_name):
        return (lambda R, H, p: canon(getattr(A, name)(H, key(R, H, p["node"]), weighted=p["weighted"])),
                lambda G, s, p: clu(s, p)[p["node"]])


@fn("total_triangles", "u", lambda s: [{}])
def _():
    return lambda R, H, p: canon(A.total_triangles(H)), lambda G, s, p: sum(tri(s, p).values()) // 3


@fn("transitivity", "u", lambda s: [{}])
def _():
    return lambda R, H, p: canon(A.transitivity(H)), lambda G, s, p: nx.transitivity(G)


@fn("transitivity_directed", "d", lambda s: [{}])
def _():
    return lambda R, H, p: canon(A.transitivity_directed(H)), lambda G, s, p: nx.transitivity(G)


def loopfree(s, p):
    return not s.loops


def sq_ids(R, p):
    return None if p["nodes"] is None else np.array([R.id[i] for i in p["nodes"]], np.uint64)


def sq_run(R, H, p):
    v = R.vector(A.square_clustering(H, sq_ids(R, p)))
    return full(v, range(R.n) if p["nodes"] is None else p["nodes"], 0)


@fn("square_clustering", "u", lambda s: ({"nodes": L} for L in [None, *sequences(s)]), when=loopfree)
def _():
    return sq_run, lambda G, s, p: {i: nx.square_clustering(G, s.K[i]) for i in (nodes(s) if p["nodes"] is None else p["nodes"])}


@fn("single_square_clustering", "u", lambda s: ({"node": i} for i in nodes(s)), when=loopfree)
def _():
    return (lambda R, H, p: canon(A.single_square_clustering(H, R.id[p["node"]])), lambda G, s, p: nx.square_clustering(G, s.K[p["node"]]))


def generalized(s, i):
    w = value(s, {})
    out = {}
    for j in nodes(s):
        if (i, j) in w:
            t = sum((i, k) in w and (j, k) in w for k in nodes(s))
            out[t] = out.get(t, 0) + 1
    return out


def gd_run(R, H, p):
    M = A.generalized_degree(H, mask=opt(R, p))
    d = R.matrix(M, cols=list(range(M.ncols)))
    return {i: r for i, r in d.items() if r} if isinstance(d, dict) else d


@fn("generalized_degree", "u", masked, when=lambda s, p: s.n > 1)
def _():
    return gd_run, lambda G, s, p: {i: generalized(s, i) for i in chosen(s, p) if generalized(s, i)}


@fn("single_generalized_degree", "u", lambda s: ({"node": i} for i in nodes(s)), when=lambda s, p: s.n > 1)
def _():
    return (lambda R, H, p: canon(A.single_generalized_degree(H, key(R, H, p["node"]))), lambda G, s, p: generalized(s, p["node"]))


# --- boundaries and cuts
def arcs(s, weighted):
    w = {}
    for i, j, x in s.edges:
        x = 1 if x is None or not weighted else x
        w[i, j] = x
        if not s.directed:
            w[j, i] = x
    return w


def two(s, T=True):
    for S in subsets(s):
        if T:
            yield from ({"S": S, "T": X} for X in (subsets(s) if s.n <= 3 else [[i for i in nodes(s) if i not in S], [i for i in nodes(s) if (i + 1) % s.n in S]]))
        if T is not True:
            yield {"S": S, "T": None}


def eb_run(R, H, p):
    M = R.matrix(A.edge_boundary(H, R.make(p["S"]), None if p["T"] is None else R.make(p["T"]), is_weighted=p["weighted"]))
    if not isinstance(M, dict):
        return M
    out = {(i, j): x for i, r in M.items() for j, x in r.items()}
    return out if p["weighted"] else set(out)


def eb_ref(G, s, p):
    T = set(nodes(s)) - set(p["S"]) if p["T"] is None else p["T"]
    out = {(i, j): x for (i, j), x in arcs(s, p["weighted"]).items() if i in p["S"] and j in T}
    return out if p["weighted"] else set(out)


@fn("edge_boundary", "ud", wt(lambda s: two(s, 1)))
def _():
    return eb_run, eb_ref


def nb_menu(s):
    for S in subsets(s):
        yield {"S": S}
        yield from ({"S": S, **m} for m in masks(s, 0, ("structure",)))


@fn("node_boundary", "ud", nb_menu)
def _():
    return (lambda R, H, p: positions(R.vector(A.node_boundary(H, R.make(p["S"]), mask=opt(R, p)))),
            lambda G, s, p: {j for i, j in arcs(s, False) if i in p["S"] and j not in p["S"] and j in chosen(s, p)})


def cut(s, S, T, weighted):
    w = arcs(s, weighted)
    x = sum(v for (i, j), v in w.items() if i in S and j in T)
    return x + sum(v for (i, j), v in w.items() if i in T and j in S) if s.directed else x


def vol(s, S, weighted):
    return sum(v for (i, j), v in arcs(s, weighted).items() if i in S)


CUTS = {
    "cut_size": lambda s, S, T, w: cut(s, S, T, w),
    "normalized_cut_size": lambda s, S, T, w: cut(s, S, T, w) * (1 / vol(s, S, w) + 1 / vol(s, T, w)),
    "conductance": lambda s, S, T, w: cut(s, S, T, w) / min(vol(s, S, w), vol(s, T, w)),
    "edge_expansion": lambda s, S, T, w: cut(s, S, T, w) / min(len(S), len(T)),
    "mixing_expansion": lambda s, S, T, w: cut(s, S, T, w) / (2 * len(s.edges)),
}
for _name, _f in CUTS.items():

    @fn(_name, "ud", wt(lambda s: two(s)), when=lambda s, p: not set(p["S"]) & set(p["T"]) and not s.loops)
    def _(name=_name, f=_f):
        return (lambda R, H, p: canon(getattr(A, name)(H, R.make(p["S"]), R.make(p["T"]), is_weighted=p["weighted"])),
                lambda G, s, p: f(s, p["S"], p["T"], p["weighted"]))


@fn("volume", "ud", wt(lambda s: ({"S": S} for S in subsets(s))), when=loopfree)
def _():
    return lambda R, H, p: canon(A.volume(H, R.make(p["S"]), weighted=p["weighted"])), lambda G, s, p: vol(s, p["S"], p["weighted"])


def out_of(s, S):
    return {j for i, j in arcs(s, False) if i in S}


@fn("node_expansion", "ud", lambda s: ({"S": S} for S in subsets(s)))
def _():
    return lambda R, H, p: canon(A.node_expansion(H, R.make(p["S"]))), lambda G, s, p: len(out_of(s, p["S"])) / len(p["S"])


@fn("boundary_expansion", "ud", lambda s: ({"S": S} for S in subsets(s)))
def _():
    return (lambda R, H, p: canon(A.boundary_expansion(H, R.make(p["S"]))),
            lambda G, s, p: len(out_of(s, p["S"]) - set(p["S"])) / len(p["S"]))


@fn("is_dominating_set", "ud", lambda s: ({"S": S} for S in subsets(s)))
def _():
    return (lambda R, H, p: canon(A.is_dominating_set(H, R.make(p["S"]))),
            lambda G, s, p: out_of(s, p["S"]) | set(p["S"]) == set(nodes(s)))


# --- degrees
def recip(s, i):
    w = set(arcs(s, False))
    tot = sum((i, j) in w for j in nodes(s)) + sum((j, i) in w for j in nodes(s))
    return 2 * sum((i, j) in w and (j, i) in w for j in nodes(s) if j != i or (i, i) in w) / tot if tot else None


def drop_none(d):
    return {k: v for k, v in d.items() if v is not None} if isinstance(d, dict) else d


@fn("reciprocity", "d", masked, when=loopfree)
def _():
    return (lambda R, H, p: R.vector(A.reciprocity(H, mask=opt(R, p))),
            lambda G, s, p: drop_none({i: recip(s, i) for i in chosen(s, p)}))


for _name, _out, _in in (("degree_centrality", 1, 1), ("in_degree_centrality", 0, 1), ("out_degree_centrality", 1, 0)):

    @fn(_name, "ud" if _out and _in else "d", lambda s: [{}], when=loopfree)
    def _(name=_name, o=_out, i_=_in):
        def ref(G, s, p):
            w = arcs(s, False)
            deg = {v: (o or not s.directed) * sum((v, j) in w for j in nodes(s)) + (i_ and s.directed) * sum((j, v) in w for j in nodes(s)) for v in nodes(s)}
            return {v: d / (s.n - 1) if s.n > 1 else 1 for v, d in deg.items()}

        return lambda R, H, p: full(R.vector(getattr(A, name)(H)), range(R.n), 0), ref


@fn("isolates", "ud", lambda s: [{}])
def _():
    return (lambda R, H, p: positions(R.vector(A.isolates(H))), lambda G, s, p: set(nodes(s)) - {i for e in s.edges for i in e[:2]})


# --- link analysis
TIGHT = {"tol": 1e-10, "max_iter": 3000}


def floats(R, x):
    return None if x is None else Vector.from_coo([R.id[i] for i, _ in x], [v for _, v in x], size=R.n, dtype=float)


def keyed(s, x):
    return None if x is None else {s.K[i]: v for i, v in x}


def by_node(s, d):
    w = {k: i for i, k in enumerate(s.K)}
    return {w[k]: v for k, v in d.items()}


def pr_menu(s):
    for m in (None, *maps(s)):
        for what in ("personalization", "dangling", "nstart"):
            if m is not None or what == "nstart":
                for given in (False, True):
                    yield {what: m, "given": given}


def pr_run(R, H, p):
    deg = H.get_property("plus_rowwise+") if p["given"] else None
    kw = {k: floats(R, p.get(k)) for k in ("personalization", "dangling", "nstart")}
    before = {k: v.isequal(v) and v.dup() for k, v in kw.items() if v is not None}
    got = R.vector(A.pagerank(H, row_degrees=deg, **kw, **TIGHT))
    if any(not kw[k].isequal(v) for k, v in before.items()):
        return "an argument was modified"
    return full(got, range(R.n), 0.0)


@fn("pagerank", "ud", wt(pr_menu), tol=1e-6, when=lambda s, p: nonneg(s, p) and s.n > 0)
def _():
    return pr_run, lambda G, s, p: by_node(s, nx.pagerank(
        G, weight=weights(G, p), **{k: keyed(s, p.get(k)) for k in ("personalization", "dangling", "nstart")}, **TIGHT))


def dominant(s, p):
    """The dominant singular vectors are unique and power iteration converges fast."""
    if not nonneg(s, p) or not s.n:
        return False
    sv = np.sort(np.linalg.svd(nx.to_numpy_array(s.nx(), weight=weights(None, p)), compute_uv=False))
    return sv[-1] > 1e-9 and (s.n == 1 or sv[-2] < 0.9 * sv[-1])


def hits_ref(G, s, p):
    u, _, vt = np.linalg.svd(nx.to_numpy_array(G, weight=weights(G, p)))
    scale = np.sum if p["normalized"] else np.max
    return [dict(enumerate((x / scale(x)).tolist())) for x in (np.abs(u[:, 0]), np.abs(vt[0]))]


def hits_run(R, H, p):
    kw = {} if p["nstart"] is None else {"nstart": floats(R, p["nstart"])}
    return [full(R.vector(v), range(R.n), 0.0) for v in A.hits(H, normalized=p["normalized"], with_authority=p["authority"], tol=1e-9, max_iter=500, **kw)]


@fn("hits", "ud", wt(lambda s: ({"normalized": z, "authority": a, "nstart": m} for z in (True, False) for a in (True, False) for m in (None, next(maps(s))))),
    tol=1e-5, when=dominant)
def _():
    return hits_run, hits_ref


def katz_menu(s):
    for m in (None, *maps(s)):
        yield {"beta": 1.0, "nstart": m, "normalized": True}
        yield {"beta": 2.5, "nstart": m, "normalized": False}
    yield {"beta": next(maps(s)), "nstart": None, "normalized": True}
    yield {"beta": next(maps(s)), "nstart": None, "normalized": False}


def katz_run(R, H, p):
    beta = floats(R, p["beta"]) if isinstance(p["beta"], list) else p["beta"]
    kw = {} if p["nstart"] is None else {"nstart": floats(R, p["nstart"])}
    return full(R.vector(A.katz_centrality(H, 0.05, beta, normalized=p["normalized"], tol=1e-10, **kw)), range(R.n), 0.0)


@fn("katz_centrality", "ud", wt(katz_menu), tol=1e-6, when=lambda s, p: s.n > 0)
def _():
    def ref(G, s, p):
        B = nx.to_numpy_array(G, weight=weights(G, p))
        if max(abs(np.linalg.eigvals(B))) * 0.05 > 0.9:
            return None
        b = np.array([v for _, v in p["beta"]]) if isinstance(p["beta"], list) else np.full(s.n, p["beta"])
        x = np.linalg.solve(np.eye(s.n) - 0.05 * B.T, b)
        return dict(enumerate((x / np.linalg.norm(x) if p["normalized"] else x).tolist()))

    return katz_run, ref


# --------------------------------------------------------------------------------------- exploring
class Session:
    def __init__(self, spec):
        self.spec, self.G, self.made = spec, spec.nx(), {}

    def get(self, weighted, permuted):
        k = weighted, permuted
        if k not in self.made:
            H = to_ga(self.spec, self.G, "weight" if weighted else None, permuted=permuted)
            self.made[k] = (H, Reader(self.spec, H), snapshot(H))
        return self.made[k]


def one(sess, name, p, permuted):
    """Expected and actual outcome of one call."""
    H, R, _ = sess.get(bool(p.get("weighted")), permuted)
    return limited(lambda: FS[name].run(R, H, p))


def expected(sess, name, p):
    return limited(lambda: FS[name].ref(sess.G, sess.spec, p))


def agree(sess, name, p, ref, got):
    f = FS[name]
    if ref[0] == "exc" or got[0] == "exc":
        return ref[0] == got[0]
    if ref[1] is None:
        return True
    if f.compare:
        return f.compare(ref[1], got[1], sess.spec, p, sess.G)
    if isinstance(ref[1], dict) and isinstance(got[1], dict) and ref[1] and isinstance(next(iter(ref[1].values())), dict):
        return ref[1].keys() == got[1].keys() and all(same(ref[1][k], got[1][k], f.tol) for k in ref[1])
    return same(ref[1], got[1], f.tol)


def text(spec, name, p, permuted, ref, got):
    return f"algorithms.{name}({p}) on {spec} (node numbers{', positions permuted' if permuted else ''}): expected {show(ref)}, got {show(got)}"


def explore(rep, spec, names):
    sess = Session(spec)
    rep.state(spec)
    done = []
    for name in names:
        f = FS[name]
        if ("d" if spec.directed else "u") not in f.kinds:
            continue
        for k, p in enumerate(f.menu(spec)):
            if f.when is not None and not f.when(spec, p):
                continue
            ref = expected(sess, name, p)
            for permuted in (False, True) if spec.n > 1 else (False,):
                got = one(sess, name, p, permuted)
                rep.n["transitions"] += 1
                rep.outcome(name, got[0], repr(got[1])[:200])
                if not agree(sess, name, p, ref, got):
                    alone = one(Session(spec), name, p, permuted)
                    hist = [list(x) for x in done] if agree(sess, name, p, ref, alone) else []
                    rep.bad(text(spec, name, p, permuted, ref, got),
                            {"spec": spec.to_json(), "fn": name, "args": p, "permuted": permuted, "history": hist})
                else:
                    done.append((name, p, permuted))
    for H, _, snap in sess.made.values():
        if snapshot(H) != snap:
            for name, p, permuted in done:
                s2 = Session(spec)
                one(s2, name, p, permuted)
                if any(snapshot(h) != sn for h, _, sn in s2.made.values()):
                    rep.bad(f"algorithms.{name}({p}) on {spec} modifies the graph",
                            {"spec": spec.to_json(), "fn": name, "args": p, "permuted": permuted, "history": [], "purity": True})
                    break
            break
    rep.n["traces"] += len(sess.made)
    if len(spec.edges) > 3:
        rep.sample({"graph": spec.to_json(), "calls": len(done)}, limit=1)


def space(tier):
    thorough = tier == "thorough"
    for directed in (False, True):
        for n in (0, 1, 2):
            yield from graphs.labelled(directed, n, True)
        yield from graphs.classes(directed, 3, True)
        four = list(graphs.classes(directed, 4, False))
        yield from four if thorough or not directed else four[1::7]
        loops = [s for s in graphs.classes(directed, 4, True) if s.loops] if thorough or not directed else []
        yield from loops if thorough else loops[::6]
        for s in graphs.classes(directed, 3, False):
            if s.edges and (thorough or len(s.edges) < 4):
                yield from graphs.weightings(s, (1, 3, -1) if len(s.edges) < 4 else (1, 2))
        for k, s in enumerate(graphs.classes(directed, 3, True)):
            if s.edges and (thorough or s.loops and k % (1 if not directed else 5) == 0):
                yield from family.patterns(s)
        for s in four if thorough or not directed else four[3::11]:
            if s.edges:
                yield s.with_(edges=tuple((i, j, (3 * i + 5 * j) % 4 + 1) for i, j, _ in s.edges))
                yield s.with_(edges=tuple((i, j, 2) for i, j, _ in s.edges))


def tasks(tier):
    specs = [s.with_(scheme=graphs.SCHEMES[k % 6]) for k, s in enumerate(space(tier))]
    size = 6
    return [specs[i : i + size] for i in range(0, len(specs), size)]


def work(task):
    rep = Report()
    for spec in task:
        explore(rep, spec, list(FS))
    return rep


def replay(case):
    spec = Spec.from_json(case["spec"])
    sess = Session(spec)
    for name, p, permuted in case.get("history", []):
        one(sess, name, p, permuted)
    name, p = case["fn"], case["args"]
    ref = expected(sess, name, p)
    got = one(sess, name, p, case["permuted"])
    if case.get("purity"):
        return None if all(snapshot(h) == sn for h, _, sn in sess.made.values()) else f"algorithms.{name}({p}) on {spec} modifies the graph"
    return None if agree(sess, name, p, ref, got) else text(spec, name, p, case["permuted"], ref, got)


_ = Matrix, INF
