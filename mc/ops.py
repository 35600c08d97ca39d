"""Catalogue of the public operations: argument menus, adapters and comparators.

An operation is applied in the same way to networkx (the reference model) and to
graphblas_algorithms: the adapter ``Op.run(f, G, spec, p)`` maps the parameter record ``p``
(which speaks about node *positions*) to node keys, calls ``f`` and returns a canonical value.
"""
from __future__ import annotations

import functools
import itertools

import networkx as nx
import numpy as np

from .canon import canon, same, Rows, graph
from .graphs import MISSING

NODE = {"source", "target", "n", "u", "v", "node1", "node2", "node"}
NODESET = {"S", "T", "nbunch1", "nbunch2", "nbunch"}
NODELIST = {"nodes", "nodelist", "sources"}
NODEMAP = {"nstart", "personalization", "dangling", "beta"}


def key(K, i):
    return MISSING if i == -1 else K[i]


def convert(p, K):
    out = {}
    for k, v in p.items():
        if v is None:
            out[k] = None
        elif k in NODE or (k in NODELIST and isinstance(v, int)):
            out[k] = key(K, v)
        elif k in NODESET:
            out[k] = [key(K, i) for i in v]
        elif k in NODELIST:
            out[k] = [key(K, i) for i in v]
        elif k == "partition":
            out[k] = [{key(K, i) for i in b} for b in v]
        elif k in NODEMAP and isinstance(v, list):
            out[k] = {key(K, i): x for i, x in v}
        else:
            out[k] = v
    return out


class Op:
    """One public operation.

    w         name of the weight parameter, or None
    reads     the edge attribute a call reads: None, or a function of (spec, p)
    scope     which (spec, p) the property speaks about (None: all)
    raw       conversion of the raw result, before ``canon``
    post      conversion of the canonical result
    compare   what else than equality counts as agreement
    ref       the expected result, if it is not what networkx returns
    modes     the execution modes which make sense (None: all)
    """

    def __init__(self, name, fam, kinds, menu, *, w=None, reads=None, scope=None, raw=None, post=None, compare=None,
                 tol=1e-9, ref=None, lazy=False, modes=None):
        self.name, self.fam, self.kinds, self._menu = name, fam, kinds, menu
        self.w, self.reads, self.scope = w, reads, scope
        self.raw, self.post, self.compare, self._tol = raw, post, compare, tol
        self.ref, self.modes = ref, modes
        self.lazy = lazy

    def tol(self, p):
        return self._tol(p) if callable(self._tol) else self._tol

    def weight(self, spec, p):
        """The edge attribute that the call reads."""
        if self.reads is not None:
            return self.reads(spec, p)
        return p.get(self.w) if self.w else None

    def in_scope(self, spec, p):
        return self.scope is None or self.scope(spec, p)

    def __repr__(self):
        return self.name

    def applies(self, spec):
        return ("d" if spec.directed else "u") in self.kinds

    def menu(self, spec, level="quick"):
        return self._menu(spec, level)

    def run(self, f, G, spec, p, H=None):
        """Call ``f`` with the arguments of ``p``; ``H`` is the graphblas graph it works on, if known."""
        kw = convert(p, spec.K)
        x = f(G, **kw)
        if self.raw is not None:
            x = self.raw(x)
        x = canon(x)
        if isinstance(x, Rows) and H is not None and not kw.get("nodelist"):
            # Without nodelist, rows and columns are in the order of the graph.
            order = {k: i for i, k in enumerate(H.list_to_keys(range(len(H))))}
            ix = [order[k] for k in spec.K]
            x = Rows(np.asarray(x.a)[ix][:, ix])
        if self.post is not None:
            x = self.post(x, spec)
        return x


OPS: dict[str, Op] = {}


def op(name, fam, kinds="ud", menu=None, **kw):
    OPS[name] = Op(name, fam, kinds, menu or (lambda g, L: [{}]), **kw)


def noloops(spec, p):
    """Undirected degrees count a self-edge once here and twice in networkx."""
    return spec.directed or not spec.loops


def loopfree(spec, p):
    return not spec.loops


def nonempty(spec, p):
    return spec.n > 0


def nonneg(spec, p):
    return all(w is None or w >= 0 for _, _, w in spec.edges) or not p.get("weight")


def both(*fs):
    return lambda spec, p: all(f(spec, p) for f in fs)


def disjoint(spec, p):
    a, b = ("nbunch1", "nbunch2") if "nbunch1" in p else ("S", "T")
    return p.get(b) is None or not set(p[a]) & set(p[b])


def unweighted_dispatch(spec, p):
    """networkx itself does not pass edge values of these functions on to a backend."""
    return "SPW" if spec.weighted else "SPWD"


def carried(spec, p):
    """Results which are graphs keep the edge values."""
    return "weight" if spec.weighted else None


BIG = 12  # beyond this many nodes, menus take a few typical nodes, node sets and numbers


def nodes_(g):
    return range(g.n) if g.n <= BIG else [0, g.n // 2, g.n - 1]


def numbers(g):
    """Distances, degrees, ..."""
    return range(g.n + 2) if g.n <= BIG else [0, 1, 2, 5, g.n - 2, g.n - 1, g.n]


def subsets(g, lo=0, hi=None):
    if g.n > BIG:
        yield from (x for x in ([], [0], [g.n - 1, 0], list(range(0, g.n, 2)), list(range(g.n))) if len(x) >= lo)
        return
    hi = g.n if hi is None else hi
    for r in range(lo, hi + 1):
        yield from (list(c) for c in itertools.combinations(range(g.n), r))


def W(*params):
    """Cross a menu with weight=None / weight='weight' when the graph carries weights."""


def weight_menu(param, menu):
    def m(g, L):
        for p in menu(g, L):
            yield {**p, param: None}
            if g.weighted:
                yield {**p, param: "weight"}

    return m


# ---------------------------------------------------------------- boundary / cuts / community
def _S_T(g, L):
    for S in subsets(g):
        yield {"nbunch1": S}
        if g.n <= 3 or L == "thorough":
            for T in subsets(g):
                yield {"nbunch1": S, "nbunch2": T}
        else:
            yield {"nbunch1": S, "nbunch2": [i for i in range(g.n) if i not in S]}
            yield {"nbunch1": S, "nbunch2": S}
            yield {"nbunch1": S, "nbunch2": [i for i in range(g.n) if (i + 1) % g.n in S]}
    if g.n:
        yield {"nbunch1": [0, -1]}
        yield {"nbunch1": [0], "nbunch2": [-1, g.n - 1]}


def _edge_boundary_menu(g, L):
    for p in _S_T(g, L):
        yield p
        if g.weighted:
            yield {**p, "data": "weight"}


def _edge_list(x, spec):
    # multiset of edges; order is unspecified
    return sorted(x, key=repr)


def _boundary_ref(G, spec, p):
    """Edges of a directed graph from nbunch1 to nbunch2, for overlapping sets too."""
    K = spec.K
    for i in [*p["nbunch1"], *(p.get("nbunch2") or ())]:
        if i == -1:
            return None
    S = {K[i] for i in p["nbunch1"]}
    T = {K[i] for i in p["nbunch2"]} if p.get("nbunch2") is not None else set(G) - S
    d = p.get("data")
    out = [(u, v, w) if d else (u, v) for u, v, w in G.edges(data=d or "weight") if u in S and v in T]
    return sorted(out, key=repr)


def _edge_boundary_ref(G, spec, p):
    if spec.directed and (x := _boundary_ref(G, spec, p)) is not None:
        return x
    return _edge_list([tuple(e) for e in public("edge_boundary")(G, **convert(p, spec.K))], spec)


op("edge_boundary", "cuts", "ud", _edge_boundary_menu, post=_edge_list, lazy=True, ref=_edge_boundary_ref,
   reads=lambda s, p: p.get("data"), scope=lambda s, p: s.directed or disjoint(s, p))
op("node_boundary", "cuts", "ud", _S_T)


def _cut(weight):
    def m(g, L):
        for S in subsets(g):
            Ts = [None]
            if g.n <= 3:
                Ts += list(subsets(g))
            else:
                Ts += [[i for i in range(g.n) if i not in S], [i for i in range(g.n) if (i + 1) % g.n in S]]
            for T in Ts:
                p = {"S": S} if T is None else {"S": S, "T": T}
                yield p
                if weight and g.weighted:
                    yield {**p, "weight": "weight"}

    return m


for _n in ("cut_size", "normalized_cut_size", "conductance", "edge_expansion", "mixing_expansion"):
    op(_n, "cuts", "ud", _cut(True), w="weight",
       scope=both(disjoint, noloops) if _n in {"conductance", "normalized_cut_size", "mixing_expansion"} else disjoint)


def _one_S(weight, extra=True):
    def m(g, L):
        for S in subsets(g):
            yield {"S": S}
            if weight and g.weighted:
                yield {"S": S, "weight": "weight"}

    return m


op("volume", "cuts", "ud", _one_S(True), w="weight", scope=noloops)
op("node_expansion", "cuts", "ud", _one_S(False))
op("boundary_expansion", "cuts", "ud", _one_S(False))
op("is_dominating_set", "cuts", "ud", lambda g, L: ({"nbunch": S} for S in subsets(g)))


def partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for p in partitions(rest):
        yield [[first], *p]
        for i in range(len(p)):
            yield [*p[:i], [first, *p[i]], *p[i + 1 :]]


def _part_menu(g, L):
    if g.n > BIG:
        for step in (1, 2, g.n):
            yield {"partition": [list(range(i, g.n, step)) for i in range(step)]}
        return
    for p in partitions(range(g.n)):
        yield {"partition": p}


op("intra_community_edges", "cuts", "ud", _part_menu)
op("inter_community_edges", "cuts", "ud", _part_menu)

# ---------------------------------------------------------------- degree-like
op("degree_centrality", "degree", "ud", scope=noloops)
op("in_degree_centrality", "degree", "ud")
op("out_degree_centrality", "degree", "ud")
op("is_isolate", "degree", "ud", lambda g, L: ({"n": i} for i in nodes_(g)))
op("isolates", "degree", "ud", post=lambda x, s: frozenset(x), lazy=True)
op("number_of_isolates", "degree")
op("is_regular", "degree", "ud", scope=both(noloops, nonempty))
op("is_k_regular", "degree", "ud", lambda g, L: ({"k": k} for k in numbers(g)), scope=noloops)


def _recip(g, L):
    yield {}
    for i in nodes_(g):
        yield {"nodes": i}
    for S in subsets(g, 1):
        yield {"nodes": S}


def directed(spec, p):
    return spec.directed


def _recip_ok(ref, got, spec, p, G):
    """The reciprocity of an isolated node is undefined: None, or left out."""
    drop = lambda d: {k: v for k, v in d.items() if v is not None}  # noqa: E731
    return isinstance(ref, dict) and isinstance(got, dict) and same(drop(ref), drop(got))


op("reciprocity", "degree", "ud", _recip, scope=directed, compare=_recip_ok)
op("overall_reciprocity", "degree", "ud", scope=directed)
op("s_metric", "degree", "ud", scope=noloops)
op("mutual_weight", "degree", "ud",
   weight_menu("weight", lambda g, L: ({"u": i, "v": j} for i in [*nodes_(g), -1] for j in [*nodes_(g), -1])), w="weight")
op("is_tournament", "degree", "ud")
op("score_sequence", "degree", "ud")
op("tournament_matrix", "degree", "ud", scope=nonempty, modes="SPD",
   ref=lambda G, spec, p: canon(public("tournament_matrix")(spec.with_(edges=tuple((i, j, None) for i, j, _ in spec.edges)).nx())))
op("is_triad", "degree")

# ---------------------------------------------------------------- clustering
def _nodes_menu(g, L):
    yield {}
    for i in nodes_(g):
        yield {"nodes": i}
    for S in subsets(g, 0 if L == "thorough" else 1):
        yield {"nodes": S}


def _clus(g, L):
    for p in _nodes_menu(g, L):
        yield p
        if g.weighted:
            yield {**p, "weight": "weight"}


def _avg(g, L):
    for S in [None, *subsets(g, 1)]:
        for cz in (True, False):
            p = {"count_zeros": cz} if S is None else {"nodes": S, "count_zeros": cz}
            yield p
            if g.weighted:
                yield {**p, "weight": "weight"}


op("triangles", "cluster", "ud", _nodes_menu)
op("transitivity", "cluster")
def some_weight(spec, p):
    return not p.get("weight") or not spec.edges or max(1 if w is None else w for *_, w in spec.edges) != 0


op("clustering", "cluster", "ud", _clus, w="weight", scope=some_weight)
op("average_clustering", "cluster", "ud", _avg, w="weight", scope=some_weight)
op("square_clustering", "cluster", "ud", _nodes_menu, scope=lambda s, p: not s.directed and not s.loops)
def _counts(ref, got, spec, p, G):
    """Nodes without edges may be left out: they have no counts."""
    if not isinstance(ref, dict) or not isinstance(got, dict) or isinstance(p.get("nodes"), int):
        return False
    drop = lambda d: {k: dict(v) for k, v in d.items() if v}  # noqa: E731
    return drop(ref) == drop(got)


op("generalized_degree", "cluster", "ud", _nodes_menu, scope=loopfree, compare=_counts)
op("k_truss", "cluster", "ud", lambda g, L: ({"k": k} for k in numbers(g)), reads=carried, scope=loopfree)

# ---------------------------------------------------------------- traversal
def _st(a, b):
    return lambda g, L: ({a: i, b: j} for i in [*nodes_(g), -1] for j in [*nodes_(g), -1])


def _src(a, miss=True):
    return lambda g, L: ({a: i} for i in [*nodes_(g), *([-1] if miss else [])])


op("is_connected", "traversal", "ud")
op("node_connected_component", "traversal", "ud", _src("n"))
op("is_weakly_connected", "traversal", "ud")
op("ancestors", "traversal", "ud", _src("source"))
op("descendants", "traversal", "ud", _src("source"))


def _bfs_layers(g, L):
    for i in [*nodes_(g), -1]:
        yield {"sources": i}
    for S in subsets(g):
        yield {"sources": S}
    if g.n:
        yield {"sources": [0, -1]}
        yield {"sources": list(range(g.n))[::-1]}


op("bfs_layers", "traversal", "ud", _bfs_layers, post=lambda x, s: [frozenset(l) if len(set(l)) == len(l) else l for l in x], lazy=True)
op("descendants_at_distance", "traversal", "ud",
   lambda g, L: ({"source": i, "distance": d} for i in [*nodes_(g), -1] for d in numbers(g)))
op("has_path", "traversal", "ud", _st("source", "target"))
def _lca_ok(ref, got, spec, p, G):
    """Any lowest common ancestor is right."""
    u, v = spec.K[p["node1"]], spec.K[p["node2"]]
    common = (nx.ancestors(G, u) | {u}) & (nx.ancestors(G, v) | {v})
    return got in common and not (nx.descendants(G, got) & common)


op("lowest_common_ancestor", "traversal", "ud",
   lambda g, L: ({"node1": i, "node2": j, **a} for a in [{}, {"default": "dflt"}] for i in nodes_(g) for j in nodes_(g)),
   scope=lambda s, p: not s.directed or nx.is_directed_acyclic_graph(s.nx()), compare=_lca_ok)


def _simple(g, L):
    if g.n > BIG:
        path = list(range(g.n))
        yield from ({"nodes": x} for x in (path, path[::-1], path[:-1], [*path, 0], [0, g.n - 1]))
        return
    hi = min(g.n + 1, 4) if L == "quick" else g.n + 1
    for r in range(0, hi + 1):
        if g.n**r > 300:
            break
        for t in itertools.product(range(g.n), repeat=r):
            yield {"nodes": list(t)}
    if g.n:
        yield {"nodes": [0, -1]}
        yield {"nodes": [-1]}


op("is_simple_path", "traversal", "ud", _simple)

# ---------------------------------------------------------------- shortest paths
def _cutoffs(g):
    return [None, *numbers(g)]


def _sp(a):
    return lambda g, L: ({a: i, **({} if c is None else {"cutoff": c})} for i in [*nodes_(g), -1] for c in _cutoffs(g))


def _pairs_post(x, s):
    return dict(x) if len(dict(x)) == len(x) else x


op("single_source_shortest_path_length", "unweighted", "ud", _sp("source"))
op("single_target_shortest_path_length", "unweighted", "ud", _sp("target"), post=lambda x, s: dict(x))
op("all_pairs_shortest_path_length", "unweighted", "ud",
   lambda g, L: ({} if c is None else {"cutoff": c} for c in (_cutoffs(g) if g.n <= BIG else [None, g.n // 2])), post=_pairs_post, lazy=True)
op("efficiency", "unweighted", "ud", lambda g, L: ({"u": i, "v": j} for i in nodes_(g) for j in nodes_(g) if i != j))

wm = lambda m: weight_menu("weight", m)
op("all_pairs_bellman_ford_path_length", "weighted", "ud", wm(lambda g, L: [{}]), w="weight", post=_pairs_post, lazy=True)
op("bellman_ford_path_length", "weighted", "ud", wm(_st("source", "target")), w="weight")
op("single_source_bellman_ford_path_length", "weighted", "ud", wm(_src("source")), w="weight")
op("negative_edge_cycle", "weighted", "ud", wm(lambda g, L: [{}]), w="weight")


def path_ok(ref, got, spec, p, G):
    """Any shortest path is right: it must be a path of the graph with the optimal length."""
    if not (isinstance(ref, list) and isinstance(got, list)):
        return False
    if not got or got[0] != ref[0] or got[-1] != ref[-1] or len(set(got)) != len(got):
        return False
    w = p.get("weight")

    def length(path):
        t = 0
        for a, b in zip(path, path[1:]):
            if not G.has_edge(a, b):
                return None
            t += G[a][b].get(w, 1) if w else 1
        return t

    x, y = length(ref), length(got)
    return y is not None and abs(x - y) < 1e-9


op("bellman_ford_path", "weighted", "ud", wm(_st("source", "target")), w="weight", compare=path_ok)


def no_negative_cycle(spec, p):
    if not p.get("weight"):
        return True
    if not spec.directed:
        return all(w is None or w >= 0 for _, _, w in spec.edges)
    return not nx.negative_edge_cycle(spec.nx())


op("floyd_warshall", "floyd", "ud", wm(lambda g, L: [{}]), w="weight", scope=no_negative_cycle)


def _perms(g, L):
    yield {}
    if g.n > BIG:
        yield {"nodelist": list(range(g.n))[::-1]}
        return
    ps = itertools.permutations(range(g.n))
    for p in ps if g.n <= 3 else itertools.islice(ps, 1, None, 5):
        yield {"nodelist": list(p)}


def _dense_inf(x):
    return Rows(x.to_dense(fill_value=float("inf"), dtype=float)) if hasattr(x, "to_dense") else x


op("floyd_warshall_numpy", "floyd", "ud", wm(_perms), w="weight", scope=no_negative_cycle, raw=_dense_inf)


def _predecessors_ok(ref, got, spec, p, G):
    """Any predecessors which describe shortest paths are right."""
    if not (isinstance(got, tuple) and len(got) == 2):
        return False
    (rp, rd), (gp, gd) = ref, got
    if not same(rd, gd):
        return False
    w = p.get("weight")

    def length(a, b):
        return G[a][b].get(w, 1) if w else 1

    want = {(u, v) for u in rd for v in rd[u] if u != v and rd[u][v] < float("inf")}
    have = {(u, v) for u in gp for v in gp[u] if u != v}
    if want != have:
        return False
    for u, v in want:
        seen, x = {v}, v
        while x != u:
            q = gp[u][x] if x in gp[u] else None
            if not G.has_edge(q, x) or abs(rd[u][q] + length(q, x) - rd[u][x]) > 1e-9:
                return False
            if q in seen:
                return False
            seen.add(q)
            x = q
    return True


op("floyd_warshall_predecessor_and_distance", "floyd", "ud", wm(lambda g, L: [{}]), w="weight",
   scope=no_negative_cycle, compare=_predecessors_ok)

# ---------------------------------------------------------------- link analysis
def _maps(g):
    """Non-trivial node -> value maps: full, and one sparse one."""
    out = [[[i, 1.0 + i] for i in range(g.n)]]
    if g.n > 1:
        out.append([[g.n - 1, 1.0], [0, 3.0]])
        out.append([[0, 2.0]])
    return out


TIGHT = {"tol": 1e-10, "max_iter": 2000}


def _pagerank(g, L):
    base = []
    for a in (0.85, 0.5):
        base.append({"alpha": a, **TIGHT})
    base.append({})
    base.append({"alpha": 0.0})
    for m in _maps(g):
        base.append({"personalization": m, **TIGHT})
        base.append({"dangling": m, **TIGHT})
        base.append({"nstart": m, **TIGHT})
        base.append({"personalization": m, "dangling": _maps(g)[0], **TIGHT})
    for p in base:
        yield {**p, "weight": None}
        if g.weighted:
            yield {**p, "weight": "weight"}


def iter_tol(p):
    return 1e-7 if p.get("tol", 1) <= 1e-9 else 1e-4


op("pagerank", "link", "ud", _pagerank, w="weight", tol=iter_tol, scope=nonneg)


def _google(g, L):
    base = [{}, {"alpha": 0.5}]
    ms = _maps(g)
    for m in ms:
        base.append({"personalization": m})
        base.append({"dangling": m})
        base.append({"personalization": m, "dangling": ms[0]})
    base.append({"nodelist": list(range(g.n))[::-1]})
    base.append({"nodelist": list(range(g.n))[::-1], "personalization": ms[0], "dangling": ms[0]})
    if g.n > 1:
        pair = [g.n - 1, 0]
        base.append({"nodelist": pair, "personalization": ms[0]})
        base.append({"nodelist": pair, "personalization": ms[0], "dangling": ms[-1]})
    for p in base:
        yield {**p, "weight": None}
        if g.weighted:
            yield {**p, "weight": "weight"}


op("google_matrix", "link", "ud", _google, w="weight", scope=nonneg)


def _hits(g, L):
    yield {}
    yield {"normalized": False}
    for m in _maps(g)[:1]:
        yield {"nstart": m}


def separated(spec, p):
    """The dominant hub vector is unique and power iteration converges fast."""
    if not all(w is None or w >= 0 for _, _, w in spec.edges):
        return False
    A = nx.to_numpy_array(spec.nx())
    sv = np.sort(np.linalg.svd(A, compute_uv=False)) if spec.n else [0]
    return spec.n == 0 or sv[-1] > 1e-9 and (spec.n == 1 or sv[-2] < 0.9 * sv[-1])


def _hits_ref(G, spec, p):
    """The dominant left and right singular vectors; scaled to largest value 1 if not normalized."""
    if spec.n == 0:
        return ({}, {})
    u, _, vt = np.linalg.svd(nx.to_numpy_array(G))
    h, a = np.abs(u[:, 0]), np.abs(vt[0])
    scale = np.sum if p.get("normalized", True) else np.max
    return tuple(dict(zip(G, (x / scale(x)).tolist())) for x in (h, a))


op("hits", "link", "ud", _hits, tol=1e-5, reads=carried, scope=separated, ref=_hits_ref, modes=unweighted_dispatch)


def _eig(g, L):
    base = [{}, {"tol": 1e-9, "max_iter": 300}]
    base += [{"nstart": m} for m in _maps(g)[:1]]
    base += [{"nstart": m, "tol": 1e-9, "max_iter": 300} for m in _maps(g)[:1]]
    base += [{"max_iter": 0}]
    for p in base:
        yield {**p, "weight": None}
        if g.weighted:
            yield {**p, "weight": "weight"}


op("eigenvector_centrality", "link", "ud", _eig, w="weight", tol=iter_tol, scope=nonneg)


def _katz(g, L):
    base = [{}, {"alpha": 0.05, "tol": 1e-10, "max_iter": 2000}, {"normalized": False}, {"beta": 2.5, "normalized": False}]
    base += [{"beta": [[i, 1.0 + i] for i in range(g.n)]}] + [{"beta": [[0, 1.0]]}] * (g.n > 0)
    base += [{"nstart": m} for m in _maps(g)[:1]]
    base += [{"alpha": 2.0, "max_iter": 50}]
    for p in base:
        yield {**p, "weight": None}
        if g.weighted:
            yield {**p, "weight": "weight"}


op("katz_centrality", "link", "ud", _katz, w="weight", tol=iter_tol)

# ---------------------------------------------------------------- linear algebra
def _nodelists(g):
    out = [None, list(range(g.n))[::-1]]
    if g.n > BIG:
        return [*out, list(range(0, g.n, 2))[::-1]]
    for r in range(1, g.n):
        for c in itertools.combinations(range(g.n), r):
            out.append(list(c)[::-1])
    return out


def _lin(extra=({},)):
    def m(g, L):
        for nl in _nodelists(g):
            for e in extra:
                p = {**e, **({} if nl is None else {"nodelist": nl})}
                yield p

    return m


def edges_left(spec, p):
    """Modularity is relative to the total weight."""
    keep = set(p.get("nodelist") or range(spec.n))
    w = [(1 if w is None or not p.get("weight") else w) * (1 if spec.directed or i == j else 2) for i, j, w in spec.edges if {i, j} <= keep]
    return abs(sum(w)) > 1e-9


def commensurable(spec, p):
    """The entries are differences: nothing is left of a small value next to a huge one but rounding errors."""
    w = [abs(w) for _, _, w in spec.edges if w] if p.get("weight") else []
    return not w or max(w) < 1e9 * min(w)


op("adjacency_matrix", "linalg", "ud", wm(_lin([{}, {"dtype": float}])), w="weight", scope=nonempty)
op("laplacian_matrix", "linalg", "ud", wm(_lin()), w="weight", scope=nonempty)
op("normalized_laplacian_matrix", "linalg", "ud", wm(_lin()), w="weight", scope=both(nonempty, nonneg))
op("modularity_matrix", "linalg", "ud", wm(_lin()), w="weight", scope=both(nonempty, edges_left, commensurable))
op("directed_modularity_matrix", "linalg", "ud", wm(_lin()), w="weight", scope=both(nonempty, edges_left, commensurable))
op("bethe_hessian_matrix", "linalg", "ud", _lin([{}, {"r": 2.5}]), scope=both(nonempty, loopfree), reads=carried, modes=unweighted_dispatch)

# ---------------------------------------------------------------- operators
op("complement", "operators", "ud", reads=carried)
op("reverse", "operators", "ud", lambda g, L: [{}, {"copy": False}], reads=carried, modes=unweighted_dispatch)


def _ego(g, L):
    for i in nodes_(g):
        for r in (0, 1, 2, g.n) if g.n <= BIG else (1, g.n - 2, g.n):
            for c in (True, False):
                for u in (False, True):
                    p = {"n": i, "radius": r, "center": c, "undirected": u}
                    yield p
                    if g.weighted:
                        yield {**p, "distance": "weight"}


op("ego_graph", "operators", "ud", _ego, w="distance", reads=carried,
   modes=lambda s, p: "SPWD" if not s.weighted else "SPW",
   scope=lambda s, p: "distance" not in p or all(w is None or w >= 0 for _, _, w in s.edges)
   # which of the values of two opposite edges their undirected edge gets is unspecified
   and not (s.directed and p.get("undirected") and _conflicts(s)))


def _conflicts(s):
    w = {(i, j): 1 if v is None else v for i, j, v in s.edges}
    return any(w.get((j, i), v) != v for (i, j), v in w.items())

BINARY = ["compose", "difference", "disjoint_union", "full_join", "intersection",
          "symmetric_difference", "union", "fast_could_be_isomorphic", "faster_could_be_isomorphic"]


@functools.lru_cache(None)
def public(name):
    """The public networkx function (with its argument-checking decorators)."""
    import importlib

    f = nx.utils.backends._registered_algorithms[name].orig_func
    return getattr(importlib.import_module(f.__module__), f.__name__)


def reference(name):
    return public(name)


def implementation(name):
    from graphblas_algorithms.interface import Dispatcher

    return getattr(Dispatcher, name)


def outcome(fn):
    try:
        return ("ok", fn())
    except Exception as e:  # noqa: BLE001
        return ("exc", type(e), str(e)[:200])


NO_ANSWER = ("NodeNotFound", "NetworkXNoPath", "NetworkXUnbounded")


def agree(o, ref, got, spec, p, Gnx):
    """Do the reference outcome and the implementation outcome agree?"""
    if ref[0] == "exc" and got[0] == "exc":
        if ref[1].__name__ in NO_ANSWER and got[1].__name__ in NO_ANSWER and o.fam == "weighted":
            # Which of several applicable reasons is reported is not specified.
            return True
        return issubclass(got[1], ref[1]) or issubclass(ref[1], got[1])
    if ref[0] != got[0]:
        # From a node to itself there is the empty path, but no shortest one if the node reaches
        # a negative cycle.
        return (
            o.name in {"bellman_ford_path", "bellman_ford_path_length"}
            and p["source"] == p["target"]
            and "NetworkXUnbounded" in {x[1].__name__ for x in (ref, got) if x[0] == "exc"}
            and {repr(x[1]) for x in (ref, got) if x[0] == "ok"} <= {"0", "0.0", f"[{spec.K[p['source']]!r}]"}
            and outcome(lambda: nx.single_source_bellman_ford_path_length(Gnx, spec.K[p["source"]], weight=p["weight"]))[0] == "exc"
        )
    tol = o.tol(p)
    if same(ref[1], got[1], tol):
        return True
    if o.compare is not None:
        return bool(o.compare(ref[1], got[1], spec, p, Gnx))
    return False
