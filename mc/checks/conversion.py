"""Conversions: networkx graph -> graphblas graph -> networkx graph, matrices and key mappings.

A state is a graph (with its attribute layout and node keys), a multigraph, a matrix with a key
mapping, or a key mapping with a container content.  A transition is one conversion with one
argument record of its complete menu, after which everything that can be observed about the result
is compared with the definition in plain Python (no reference implementation is involved).
"""
from __future__ import annotations

import copy
import itertools
import math

import graphblas as gb
import networkx as nx
import numpy as np

import graphblas_algorithms as ga
from graphblas_algorithms.interface import Dispatcher

from .. import graphs
from ..engine import Report
from ..equiv import limited
from ..graphs import MISSING, Spec

ID = "P01"
LEVEL = "model_checking"
RULE = (
    "a state is a networkx graph with an attribute layout (every assignment of attribute sets to the edges) and a "
    "key scheme, a multigraph (every assignment of multiplicities), a matrix with a key mapping (every assignment of ids), "
    "or a key mapping with partial contents; a transition is one conversion with one record of its complete argument menu, "
    "all observers of whose result were compared with the definition"
)
ASSUMPTIONS = [
    "an edge without the chosen attribute has value 1; parallel edges add up (this is what networkx does for adjacency matrices)",
    "graph attributes are copied to the graphblas graph with preserve_graph_attrs, and not back",
    "values are compared as numbers; a storage type is only asked for when it can hold the values",
]

LAYOUTS = [{}, {"weight": 2}, {"cost": 3}, {"weight": -1.5, "cost": 0}, {"weight": True, "label": "x"}]
NUMERIC = [0, 1, -1, 2.5, True, math.inf, 2**53 + 1, np.float32(0.5), np.int64(-7), 255]
DTYPES = {None: None, "BOOL": bool, "UINT8": "u", "INT8": "i", "INT64": "i", "FP32": "f", "FP64": "f"}
MATRIX_NAMES = {
    "sparse": ["adjacency_matrix", "bethe_hessian_matrix", "laplacian_matrix", "normalized_laplacian_matrix", "tournament_matrix"],
    "dense": ["directed_modularity_matrix", "google_matrix", "modularity_matrix"],
    "distance": ["floyd_warshall_numpy"],
}


class Failure:
    """Compares, and reports what differs."""

    def __init__(self, rep, kind, state):
        self.rep, self.kind, self.state = rep, kind, state
        self.first = None

    def __call__(self, label, want, got):
        self.rep.n["comparisons"] += 1
        self.rep.outcome(self.kind, label.split("(")[0], repr(got)[:300])
        if not equal(want, got):
            what = f"{self.kind} {describe(self.kind, self.state)}: {label} is {got!r}, expected {want!r}"[:1500]
            if self.first is None:
                self.first = what
                if self.rep is not None:
                    self.rep.bad(what, {"kind": self.kind, "state": self.state, "label": label})

    def step(self, label, fn):
        """One transition; exceptions are outcomes."""
        self.rep.n["transitions"] += 1
        r = limited(fn)
        self.rep.outcome(self.kind, label.split("(")[0], r[0])
        if r[0] == "exc":
            self(label, "an answer", f"{r[1].__name__}: {r[2]}")
            return None
        return r[1]

    def refuses(self, label, types, fn):
        self.rep.n["transitions"] += 1
        r = limited(fn)
        self.rep.outcome(self.kind, label.split("(")[0], r[0])
        ok = r[0] == "exc" and issubclass(r[1], types)
        self(label, "refused", "refused" if ok else repr(r[1])[:200])


def equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return type(a is None) is type(b is None) and a == b


def describe(kind, state):
    return repr(state)[:400]


# --------------------------------------------------------------------- what a graph object shows
def seen(H):
    """Everything observable about a graphblas graph."""
    A = H.matrix
    r, c, v = (x.tolist() for x in A.to_coo())
    keys = H.list_to_keys(range(len(H)))
    d = {
        "type": type(H).__name__,
        "directed": H.is_directed(),
        "multigraph": H.is_multigraph(),
        "nodes": list(H),
        "len": (len(H), H.order(), H.number_of_nodes(), A.nrows, A.ncols),
        "in": [k in H for k in keys] + [MISSING in H, [] in H],
        "keys": keys,
        "ids": [int(i) for i in H.list_to_ids(list(H))] if len(H) else [],
        "entries": {(keys[i], keys[j]): x for i, j, x in zip(r, c, v)},
        "graph": dict(H.graph),
    }
    return d


def expected(type_, directed, nodes, entries, graph=(), multigraph=False):
    n = len(nodes)
    return {
        "type": type_,
        "directed": directed,
        "multigraph": multigraph,
        "nodes": list(nodes),
        "len": (n, n, n, n, n),
        "in": [True] * n + [False, False],
        "keys": list(nodes),
        "ids": list(range(n)),
        "entries": entries,
        "graph": dict(graph),
    }


def nx_seen(G):
    """Everything about a networkx graph, in order."""
    return (
        type(G).__name__,
        [(n, dict(d)) for n, d in G.nodes(data=True)],
        [(u, v, dict(d)) for u, v, d in G.edges(data=True)],
        {u: list(nbrs) for u, nbrs in G.adj.items()},
        dict(G.graph),
    )


def entries_of(G, weight, cast=lambda x: x):
    out = {}
    for u, v, d in G.edges(data=True):
        w = cast(d.get(weight, 1) if weight is not None else 1)
        out[u, v] = out.get((u, v), 0) + w if G.is_multigraph() else w
        if not G.is_directed() and u != v:
            out[v, u] = out[u, v]
    return out


def fits(x, dtype):
    kind = DTYPES[dtype]
    if kind is None:
        return True
    if abs(x) > 2**53 and x != math.inf:
        return dtype == "INT64"
    x = float(x)
    if kind is bool:
        return x in (0, 1)
    if kind == "f":
        return dtype == "FP64" or x == float(np.float32(x))
    lo, hi = {"UINT8": (0, 255), "INT8": (-128, 127), "INT64": (-(2**53), 2**53)}[dtype]
    return x.is_integer() and lo <= x <= hi


# ------------------------------------------------------------------------------------ the checks
def make(state):
    directed, n, edges, scheme, attrs = state
    G = nx.DiGraph(**attrs) if directed else nx.Graph(**attrs)
    K = graphs.keys(scheme, n)
    G.add_nodes_from(K)
    for i, j, d in edges:
        G.add_edge(K[i], K[j], **d)
    return G


def check_attributes(state, bad):
    """Every choice of attribute and dtype, and the way back."""
    G = make(state)
    before = nx_seen(copy.deepcopy(G))
    cls = ga.DiGraph if G.is_directed() else ga.Graph
    other = ga.Graph if G.is_directed() else ga.DiGraph
    T = cls.__name__
    for weight in (None, "weight", "cost", "no such attribute"):
        want = entries_of(G, weight)
        for dtype in DTYPES:
            if not all(fits(w, dtype) for w in want.values()):
                continue
            label = f"from_networkx(weight={weight!r}, dtype={dtype})"
            H = bad.step(label, lambda: cls.from_networkx(G, weight=weight, dtype=dtype))
            if H is None:
                continue
            bad(label, expected(T, G.is_directed(), G, want), seen(H))
            if dtype is not None:
                bad(label + " dtype", dtype, str(H.matrix.dtype))
            if dtype is None or dtype == "FP64":
                back(bad, label, G, H, want, weight)
        options = [{"weight": weight}]
        if weight is not None:
            options = [{"edge_attrs": {weight: None}}, {"edge_attrs": {weight: 1}}, {"weight": weight}]
        for o in options:
            for graph_attrs in (False, True):
                label = f"convert_from_nx({o}, preserve_graph_attrs={graph_attrs})"
                H = bad.step(label, lambda: Dispatcher.convert_from_nx(G, preserve_graph_attrs=graph_attrs, name="f", graph_name="G", **o))
                if H is not None:
                    bad(label, expected(T, G.is_directed(), G, want, G.graph if graph_attrs else ()), seen(H))
                    H.graph["new"] = 1
                    H.name = "other"
    bad.refuses("convert_from_nx(two attributes)", NotImplementedError, lambda: Dispatcher.convert_from_nx(G, edge_attrs={"weight": None, "cost": None}))
    bad.refuses("convert_from_nx(default 0)", NotImplementedError, lambda: Dispatcher.convert_from_nx(G, edge_attrs={"weight": 0}))
    bad.refuses("convert_from_nx(default 7)", NotImplementedError, lambda: Dispatcher.convert_from_nx(G, edge_attrs={"weight": 7}))
    bad.refuses("convert_from_nx(both)", TypeError, lambda: Dispatcher.convert_from_nx(G, edge_attrs={"weight": None}, weight="weight"))
    bad.refuses("convert_from_nx(node attributes)", NotImplementedError, lambda: Dispatcher.convert_from_nx(G, node_attrs={"color": None}))
    bad.refuses("convert_from_nx(not a graph)", TypeError, lambda: Dispatcher.convert_from_nx(dict(G.adj)))
    names = set().union(*(d for _, _, d in G.edges(data=True)))
    if len(names) <= 1:
        label = "convert_from_nx(preserve_edge_attrs=True)"
        H = bad.step(label, lambda: Dispatcher.convert_from_nx(G, preserve_edge_attrs=True))
        if H is not None:
            bad(label, expected(T, G.is_directed(), G, entries_of(G, next(iter(names), None))), seen(H))
    else:
        bad.refuses("convert_from_nx(preserve_edge_attrs=True)", NotImplementedError, lambda: Dispatcher.convert_from_nx(G, preserve_edge_attrs=True))
    label = "convert_from_nx(preserve_node_attrs=True)"
    H = bad.step(label, lambda: Dispatcher.convert_from_nx(G, preserve_node_attrs=True))
    if H is not None:
        bad(label, expected(T, G.is_directed(), G, entries_of(G, None)), seen(H))
    bad("networkx graph after the conversions", before, nx_seen(G))
    # The graphs share nothing afterwards.
    H = cls.from_networkx(G, weight="weight")
    was = seen(H)
    R = H.to_networkx()
    r = nx_seen(R)
    K = list(G)
    if K:
        G.add_edge(K[-1], K[0], weight=77)
        G.add_edge("new node", K[0])
        G.remove_node(K[-1])
    G.graph["changed"] = True
    bad("graphblas graph after the networkx graph was changed", was, seen(H))
    bad("result graph after the original was changed", r, nx_seen(R))
    if K:
        R.add_edge(K[0], K[0], weight=78)
        R.remove_node(K[-1])
        R.add_node("another")
    bad("graphblas graph after the result graph was changed", was, seen(H))
    G = make(state)
    if K:
        G.nodes[K[0]]["color"] = 1
        bad.refuses("convert_from_nx(preserve_node_attrs=True) with attributes", NotImplementedError, lambda: Dispatcher.convert_from_nx(G, preserve_node_attrs=True))
        label = "convert_from_nx() with node attributes"
        H = bad.step(label, lambda: Dispatcher.convert_from_nx(G))
        if H is not None:
            bad(label, expected(T, G.is_directed(), G, entries_of(G, None)), seen(H))
    # The class decides the direction only for graphs of its kind.
    del other


def back(bad, label, G, H, want, weight):
    for attr in ("default", "weight", "cost", None):
        lab = f"{label}.to_networkx({attr})"
        R = bad.step(lab, lambda: H.to_networkx() if attr == "default" else H.to_networkx(edge_attribute=attr))
        if R is None:
            continue
        key = "weight" if attr == "default" else attr
        bad(lab + " type", (G.is_directed(), False, list(G)), (R.is_directed(), R.is_multigraph(), list(R)))
        bad(lab + " attributes", [set() if key is None else {key}] * R.number_of_edges(), [set(d) for _, _, d in R.edges(data=True)])
        bad(lab + " edges", {e: 1 for e in want} if key is None else want, entries_of(R, key))
        bad(lab + " nodes", [{}] * len(G), [dict(R.nodes[k]) for k in R])
    for name in ("graph", None, "complement"):
        lab = f"{label} convert_to_nx(name={name})"
        R = bad.step(lab, lambda: Dispatcher.convert_to_nx(H, name=name))
        if R is not None:
            bad(lab, (G.is_directed(), list(G), want), (R.is_directed(), list(R), entries_of(R, "weight")))
    bad(f"{label} twice", seen(H)["entries"], seen(type(H).from_networkx(H.to_networkx(), weight="weight"))["entries"])


def check_multigraph(state, bad):
    directed, n, edges, scheme = state
    G = nx.MultiDiGraph() if directed else nx.MultiGraph()
    K = graphs.keys(scheme, n)
    G.add_nodes_from(K)
    for i, j, ws in edges:
        for w in ws:
            G.add_edge(K[i], K[j], **({} if w is None else {"weight": w}))
    before = nx_seen(G)
    T = type(G).__name__
    for weight in (None, "weight", "cost"):
        want = entries_of(G, weight)
        for lab, fn in (
            (f"{T}.from_networkx(weight={weight!r})", lambda: getattr(ga, T).from_networkx(G, weight=weight)),
            (f"convert_from_nx(weight={weight!r})", lambda: Dispatcher.convert_from_nx(G, weight=weight)),
        ):
            H = bad.step(lab, fn)
            if H is not None:
                bad(lab, expected(T, directed, G, want, multigraph=True), seen(H))
    names = {"weight"} & set().union(*(d for _, _, d in G.edges(data=True)))
    H = bad.step("convert_from_nx(preserve_edge_attrs=True)", lambda: Dispatcher.convert_from_nx(G, preserve_edge_attrs=True))
    if H is not None:
        bad("convert_from_nx(preserve_edge_attrs=True)", expected(T, directed, G, entries_of(G, next(iter(names), None)), multigraph=True), seen(H))
    bad("multigraph after the conversions", before, nx_seen(G))


def check_matrix(state, bad):
    """A graph made of a matrix and a key mapping; every assignment of ids to keys."""
    directed, n, edges, scheme, ids, dtype = state
    cls = ga.DiGraph if directed else ga.Graph
    K = graphs.keys(scheme, n)
    k2i = None if ids is None else dict(zip(K, ids))
    entries = {(i, j): w for i, j, w in edges}
    if not directed:
        entries.update({(j, i): w for i, j, w in edges})
    A = gb.Matrix(dtype, n, n)
    for (i, j), w in entries.items():
        A[i, j] = w
    at = dict(enumerate(range(n))) if k2i is None else {i: k for k, i in k2i.items()}
    nodes = list(range(n)) if k2i is None else K
    want = expected(cls.__name__, directed, nodes, {(at[i], at[j]): w for (i, j), w in entries.items()}, {"name": "G", "x": 1})
    want["keys"] = [at[i] for i in range(n)]
    want["ids"] = [{k: i for i, k in at.items()}[k] for k in nodes]
    H = bad.step(f"{cls.__name__}(matrix, key_to_id={k2i})", lambda: cls(A, key_to_id=k2i, name="G", x=1))
    if H is None:
        return
    bad("graph", want, seen(H))
    bad("name", "G", H.name)
    R = bad.step("to_networkx()", lambda: H.to_networkx())
    if R is not None:
        bad("to_networkx()", (directed, nodes, want["entries"]), (R.is_directed(), list(R), entries_of(R, "weight")))
    bad("id_to_key", at, dict(H.id_to_key))
    if directed:
        E = {(at[i], at[j]): w for (i, j), w in entries.items()}
        for copy_ in (True, False):
            R = bad.step(f"reverse(copy={copy_})", lambda: H.reverse(copy=copy_))
            if R is not None:
                bad("reverse", {**want, "entries": {(v, u): w for (u, v), w in E.items()}}, seen(R))
        for recip in (False, True):
            U = bad.step(f"to_undirected(reciprocal={recip})", lambda: H.to_undirected(reciprocal=recip))
            if U is None:
                continue
            s = seen(U)
            keep = {e for e in E if not recip or e[::-1] in E}
            keep |= {e[::-1] for e in keep}
            bad(f"to_undirected({recip}) edges", keep, set(s["entries"]))
            for e, w in s["entries"].items():
                bad(f"to_undirected({recip}) value of {e}", True, w in {E.get(e), E.get(e[::-1])} - {None} and s["entries"].get(e[::-1]) == w)
            for k in ("nodes", "keys", "len", "in", "ids"):
                bad(f"to_undirected({recip}) {k}", want[k], s[k])
            bad("to_undirected type", ("Graph", False), (s["type"], s["directed"]))
        bad.refuses("to_undirected(as_view=True)", NotImplementedError, lambda: H.to_undirected(as_view=True))
        bad("graph after to_undirected and reverse", want, seen(H))
    H.name = "other"
    bad("new name", ("other", "other"), (H.name, H.graph.get("name")))
    # Matrices on their own are graphs for the functions, with keys 0..n-1
    if n:
        for m in (n - 1, n + 1):
            bad.refuses("not square", ValueError, lambda: cls(gb.Matrix(dtype, n, m)))
    bad.refuses("not a matrix", TypeError, lambda: cls(gb.Vector(dtype, 2)))
    bad.refuses("not a matrix", TypeError, lambda: cls([[0, 1], [1, 0]]))
    E = cls()
    bad("no graph", expected(cls.__name__, directed, [], {}), seen(E))


def check_result(state, bad):
    """Matrices returned by functions become what networkx returns."""
    n, m, cells, dtype = state
    A = gb.Matrix(dtype, n, m)
    for (i, j), w in cells:
        A[i, j] = w
    cells = dict(map(lambda c: (tuple(c[0]), c[1]), cells))
    for kind, names in MATRIX_NAMES.items():
        for name in names:
            label = f"convert_to_nx(name={name!r})"
            R = bad.step(label, lambda: Dispatcher.convert_to_nx(A.dup(), name=name))
            if R is None:
                continue
            import scipy.sparse

            bad(label + " type", kind == "sparse", isinstance(R, scipy.sparse.sparray))
            if kind == "sparse":
                bad(label + " stored", len(cells), R.nnz)
                R = R.toarray()
            fill = math.inf if kind == "distance" else 0
            bad(label, [[float(cells.get((i, j), fill)) for j in range(m)] for i in range(n)], np.asarray(R, float).tolist())
    for x in (1, 2.5, None, "s", [1], {"a": 1}, {1}, (1, 2)):
        bad(f"convert_to_nx({x!r})", True, Dispatcher.convert_to_nx(x, name="s_metric") is x)


def check_keys(state, bad):
    """Translation of keys, positions, vectors and matrices; every assignment of ids."""
    scheme, ids, content = state
    n = len(ids)
    K = graphs.keys(scheme, n)
    k2i = dict(zip(K, ids))
    at = {i: k for k, i in k2i.items()}
    A = gb.Matrix(float, n, n)
    H = ga.DiGraph(A, key_to_id=k2i)
    some = [K[p] for p, _ in content]
    d = {K[p]: v for p, v in content}
    # Each helper is optional: these are conveniences of the graph object.
    def has(name):
        return hasattr(H, name)

    def pairs(v):
        i, x = v.to_coo()
        return dict(zip(i.tolist(), x.tolist()))

    t = bad.step
    if has("dict_to_vector"):
        for dtype in (None, "FP64"):
            if d or dtype:
                v = t("dict_to_vector", lambda: H.dict_to_vector(d, dtype=dtype))
                if v is not None:
                    bad("dict_to_vector", ({k2i[k]: x for k, x in d.items()}, n), (pairs(v), v.size))
        bad.refuses("dict_to_vector(unknown)", KeyError, lambda: H.dict_to_vector({**d, MISSING: 1}))
        bad("dict_to_vector(None)", None, H.dict_to_vector(None))
    for order in (some, some[::-1]):
        if has("list_to_vector"):
            v = t("list_to_vector", lambda: H.list_to_vector(order, dtype=bool))
            if v is not None:
                bad("list_to_vector", ({k2i[k] for k in order}, n), (set(pairs(v)), v.size))
        if has("set_to_vector"):
            for coll in (order, set(order), tuple(order), iter(order), dict.fromkeys(order), [*order, MISSING], {*order, MISSING}):
                v = t("set_to_vector", lambda: H.set_to_vector(coll, ignore_extra=True))
                if v is not None:
                    bad("set_to_vector", ({k2i[k]: True for k in order}, n), (pairs(v), v.size))
        bad("list_to_ids", [k2i[k] for k in order], [int(x) for x in H.list_to_ids(order)])
        bad("list_to_keys", order, H.list_to_keys([k2i[k] for k in order]))
        bad("list_to_keys of an array", order, H.list_to_keys(np.array([k2i[k] for k in order], dtype=np.uint64)))
        if has("renumber_key_to_id"):
            bad("renumber_key_to_id", {k: i for i, k in enumerate(order)}, H.renumber_key_to_id([k2i[k] for k in order]))
    bad.refuses("list_to_ids(unknown)", KeyError, lambda: H.list_to_ids([*some, MISSING]))
    bad("list_to_ids(None)", None, H.list_to_ids(None))
    bad("list_to_keys(None)", None, H.list_to_keys(None))

    def vec():
        return gb.Vector.from_coo([k2i[k] for k in d], list(d.values()), size=n, dtype=int)

    masks = [None, *itertools.chain.from_iterable(itertools.combinations(K, r) for r in (0, 1, n))]
    for fill in (None, 0, 5):
        for mk in masks:
            mask = None if mk is None else gb.Vector.from_coo([k2i[k] for k in mk], True, size=n, dtype=bool).S
            # The mask says which values may be there, so the vector has been masked
            dm = d if mk is None else {k: v for k, v in d.items() if k in mk}
            v0 = gb.Vector.from_coo([k2i[k] for k in dm], list(dm.values()), size=n, dtype=int)
            want = dict(dm)
            if fill is not None:
                want = {k: dm.get(k, fill) for k in (K if mk is None else mk)}
            if has("vector_to_dict"):
                r = t("vector_to_dict", lambda: H.vector_to_dict(v0.dup(), mask=mask, fill_value=fill))
                bad(f"vector_to_dict(mask={mk}, fill_value={fill})", want, r)
            if has("vector_to_nodemap"):
                r = t("vector_to_nodemap", lambda: H.vector_to_nodemap(v0.dup(), mask=mask, fill_value=fill))
                if r is not None:
                    bad(f"vector_to_nodemap(mask={mk}, fill_value={fill})", want, dict(r))
                    bad("len and in", (len(want), [k in want for k in K]), (len(r), [k in r for k in K]))
    if has("vector_to_nodeset"):
        bad("vector_to_nodeset", set(d), set(H.vector_to_nodeset(vec())))
    if has("vector_to_set"):
        bad("vector_to_set", set(d), H.vector_to_set(vec()))
    if has("vector_to_list"):
        bad("vector_to_list", [k for _, k in sorted((k2i[k], k) for k in d)] if False else [at[i] for i in sorted(k2i[k] for k in d)], H.vector_to_list(vec()))
        # values are ids: node d -> its value modulo n
        w = gb.Vector.from_coo([k2i[k] for k in d], [v % n for v in d.values()], size=n, dtype=int)
        byid = sorted((k2i[k], v % n) for k, v in d.items())
        bad("vector_to_list(values_are_keys)", [at[v] for _, v in byid], H.vector_to_list(w, values_are_keys=True))
        if has("vector_to_nodemap"):
            bad("vector_to_nodemap(values_are_keys)", {k: at[v % n] for k, v in d.items()}, dict(H.vector_to_nodemap(w.dup(), values_are_keys=True)))
    # A matrix whose rows have the content shifted by the row
    cells = {(i, (k2i[k] + i) % n): (v + i) % n for i in range(n) for k, v in d.items() if (i + k2i[k]) % 3 != 2}
    M = gb.Matrix(int, n, n)
    for (i, j), v in cells.items():
        M[i, j] = v
    if has("matrix_to_dicts"):
        for ri, ci, vk in itertools.product((False, True), repeat=3):
            want = {}
            for (i, j), v in cells.items():
                want.setdefault(i if ri else at[i], {})[j if ci else at[j]] = at[v] if vk else v
            for B in (M.dup(), M.T.new().T):
                if vk and B.nvals == 0:
                    continue
                r = t("matrix_to_dicts", lambda: H.matrix_to_dicts(B, use_row_index=ri, use_column_index=ci, values_are_keys=vk))
                if r is not None:
                    bad(f"matrix_to_dicts({ri}, {ci}, {vk})", want, {a: b for a, b in r.items() if b})
        if cells:
            one = M.dup()
            one(M.S) << 1
            want = {}
            for i, j in cells:
                want.setdefault(at[i], {})[at[j]] = 1
            bad("matrix_to_dicts of equal values", want, H.matrix_to_dicts(one))
    nested = {}
    for (i, j), v in cells.items():
        nested.setdefault(at[i], {})[at[j]] = v
    if has("matrix_to_nodenodemap"):
        r = t("matrix_to_nodenodemap", lambda: H.matrix_to_nodenodemap(M.dup()))
        if r is not None:
            bad("matrix_to_nodenodemap", nested, {a: dict(b) for a, b in r.items() if len(b)})
    if has("matrix_to_vectornodemap"):
        r = t("matrix_to_vectornodemap", lambda: H.matrix_to_vectornodemap(M.dup()))
        if r is not None:
            bad("matrix_to_vectornodemap", {a: {k2i[k]: v for k, v in b.items()} for a, b in nested.items()}, {a: dict(b) for a, b in r.items() if len(b)})


CHECKS = {"attributes": check_attributes, "multigraph": check_multigraph, "matrix": check_matrix, "result": check_result, "keys": check_keys}


# ------------------------------------------------------------------------------------- the states
def attribute_states(tier):
    thorough = tier == "thorough"
    k = 0

    def attrs():
        return [{}, {"name": "g"}, {"name": "g", "other": (1, 2)}][k % 3]

    for directed in (False, True):
        for n in (0, 1, 2):
            slots = graphs.slots(directed, n, True)
            for choice in itertools.product([None, *LAYOUTS], repeat=len(slots)):
                edges = [(i, j, d) for (i, j), d in zip(slots, choice) if d is not None]
                if not thorough and len(edges) > 3 and len({repr(d) for _, _, d in edges}) > 2:
                    continue
                k += 1
                yield directed, n, edges, graphs.SCHEMES[k % 6], attrs()
        # Every kind of value next to a missing one
        for a, b in itertools.product(NUMERIC, [None, *NUMERIC]):
            k += 1
            edges = [(0, 1, {"weight": a}), (1, 1, {} if b is None else {"weight": b})]
            if inexact([a, b]) or b == math.inf and not directed:
                continue  # (networkx's own adjacency matrix is nan for an infinite undirected self-edge)
            yield directed, 2, edges, graphs.SCHEMES[k % 6], attrs()
        for s in itertools.chain(graphs.labelled(directed, 3, not directed), graphs.classes(directed, 3, True), graphs.classes(directed, 4, False) if thorough else ()):
            for shift in range(len(LAYOUTS) if thorough else 2):
                k += 1
                edges = [(i, j, LAYOUTS[(q * (shift + 1) + k) % len(LAYOUTS)]) for q, (i, j, _) in enumerate(s.edges)]
                yield directed, s.n, edges, graphs.SCHEMES[k % 6], attrs()


def inexact(values):
    """Would a common type lose a value?  (Then the conversion isn't expected to keep it.)"""
    big = any(isinstance(v, int) and abs(v) > 2**53 for v in values)
    return big and any(isinstance(v, (float, np.floating)) for v in values)


def multigraph_states(tier):
    k = 0
    ways = [(), (None,), (2,), (2, None), (1, -1, 5)]
    for directed in (False, True):
        for n in (0, 1, 2):
            slots = graphs.slots(directed, n, True)
            for choice in itertools.product(ways, repeat=len(slots)):
                k += 1
                yield directed, n, [(i, j, ws) for (i, j), ws in zip(slots, choice) if ws], graphs.SCHEMES[k % 6]


def matrix_states(tier):
    thorough = tier == "thorough"
    k = 0
    for directed in (False, True):
        for n in (0, 1, 2, 3):
            space = graphs.labelled(directed, n, True) if n < 3 else graphs.classes(directed, 3, True)
            for s in space:
                for ids in [None, *itertools.permutations(range(n))]:
                    k += 1
                    if not thorough and n == 3 and directed and k % 3:
                        continue
                    dtype = ["INT64", "FP64", "BOOL", "UINT8"][k % 4]
                    edges = [(i, j, 1 if dtype == "BOOL" else 1 + q % 3) for q, (i, j, _) in enumerate(s.edges)]
                    yield directed, n, edges, graphs.SCHEMES[k % 6], ids, dtype


def result_states(tier):
    for n, m in ((1, 1), (2, 2), (3, 3)) + (((2, 3), (1, 2)) if tier == "thorough" else ((2, 3),)):
        slots = list(itertools.product(range(n), range(m)))
        for bits in range(1 << len(slots)):
            cells = [(s, 1 + b % 4) for b, s in enumerate(slots) if bits >> b & 1]
            for dtype in ("INT64", "FP64", "BOOL") if len(slots) < 9 or tier == "thorough" else (["INT64", "FP64", "BOOL"][bits % 3],):
                yield n, m, [(s, 1 if dtype == "BOOL" else v) for s, v in cells], dtype


def key_states(tier):
    k = 0
    for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for ids in itertools.permutations(range(n)):
            for vals in itertools.product((None, 4, 0, 7), repeat=n):
                k += 1
                content = [(p, v) for p, v in enumerate(vals) if v is not None]
                yield graphs.SCHEMES[k % 6], ids, content


STATES = {"attributes": attribute_states, "multigraph": multigraph_states, "matrix": matrix_states, "result": result_states, "keys": key_states}
SIZE = {"attributes": 6, "multigraph": 40, "matrix": 30, "result": 40, "keys": 12}


def tasks(tier):
    out = []
    for kind, make_states in STATES.items():
        items = list(make_states(tier))
        out += [(kind, items[i : i + SIZE[kind]]) for i in range(0, len(items), SIZE[kind])]
    return out


def work(task):
    kind, items = task
    rep = Report()
    for state in items:
        rep.state(kind, state)
        bad = Failure(rep, kind, state)
        CHECKS[kind](state, bad)
        rep.n["traces"] += 1
        if kind == "attributes" and len(state[2]) > 2:
            rep.sample({"state": repr(state)}, limit=1)
    return rep


def thaw(kind, state):
    """A state read from JSON."""
    if kind == "attributes":
        d, n, edges, scheme, attrs = state
        return d, n, [(i, j, x) for i, j, x in edges], scheme, attrs
    if kind == "result":
        n, m, cells, dtype = state
        return n, m, [(tuple(s), v) for s, v in cells], dtype
    if kind == "matrix":
        d, n, edges, scheme, ids, dtype = state
        return d, n, edges, scheme, None if ids is None else tuple(ids), dtype
    return state


class Silent(Report):
    def bad(self, what, case):
        pass


def replay(case):
    kind = case["kind"]
    state = thaw(kind, case["state"])
    bad = Failure(Silent(), kind, state)
    CHECKS[kind](state, bad)
    return bad.first


_ = Spec
