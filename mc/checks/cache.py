"""Cached graph properties never depend on what was asked for before.

State: the property cache of one graph object (reached by a sequence of requests).
Transition: one request -- a property, unmasked or restricted to a set of nodes, or several
properties at once.  Breadth-first search from the empty cache, replaying every history on a new
graph object; states with equal cache contents are merged.  Invariant: the answer equals the
definition, computed from the edge list by plain Python, and the adjacency matrix is unchanged.
"""
from __future__ import annotations

import collections
import itertools
import json

import graphblas as gb
import networkx as nx
import numpy as np

import graphblas_algorithms as ga

from .. import graphs
from ..engine import Report
from ..graphs import Spec

ID = "P02"
LEVEL = "model_checking"
RULE = (
    "graph x storage type x request alphabet; breadth-first search over sequences of property "
    "requests (unmasked, masked, several at once) from the empty cache, merging equal caches; "
    "a transition is one request whose answer was compared with its definition"
)
ASSUMPTIONS = [
    "requests are made through get_property/get_properties with node masks by structure",
    "states are merged when all cached values are equal",
]

MATRIX = ["A", "AT", "offdiag", "U+", "L+", "U-", "L-"]
FLAGS = ["has_self_edges", "has_negative_diagonal", "has_negative_edges-", "has_negative_edges+"]
ISO = ["is_iso", "iso_value"]
UDEG = ["degrees+", "degrees-"]
DDEG = ["row_degrees+", "row_degrees-", "column_degrees+", "column_degrees-", "total_degrees+",
        "total_degrees-", "recip_degrees+", "recip_degrees-"]
RECIP = ["total_recip+", "total_recip-"]


def red(ops, kinds):
    return [f"{o}_{k}" for o in ops for k in kinds]


GROUPS_U = {
    "structure": ["AT", "offdiag", "U+", "L+", "U-", "L-", "diag", "has_self_edges"],
    "degrees": [*UDEG, "offdiag", "L-", "U-", "L+", "diag", "has_self_edges"],
    "negative": ["min_element+", "min_element-", "min_diagonal", *FLAGS, "iso_value"],
    "max": ["max_element+", "max_element-", "max_diagonal", "L-", "U-", "max_rowwise+", "max_rowwise-", "has_self_edges"],
    "plus": ["plus_rowwise+", "plus_rowwise-", "plus_columnwise+", "plus_columnwise-", "plus_element+", "plus_element-", "plus_diagonal", "offdiag"],
    "min": ["min_rowwise+", "min_rowwise-", "min_columnwise-", "min_element+", "min_element-", "L-", "U-", "diag"],
    "iso": ["is_iso", "iso_value", "has_negative_edges+", "has_negative_edges-", "has_negative_diagonal", "U+", "min_element-"],
}
GROUPS_D = {
    "structure": ["AT", "offdiag", "U+", "L+", "U-", "L-", "diag", "has_self_edges"],
    "rowcol": ["row_degrees+", "row_degrees-", "column_degrees+", "column_degrees-", "AT", "L-", "U-", "has_self_edges"],
    "total": ["total_degrees+", "total_degrees-", "row_degrees+", "column_degrees-", "row_degrees-", "has_self_edges", "diag"],
    "recip": ["recip_degrees+", "recip_degrees-", "total_recip+", "total_recip-", "AT", "offdiag", "diag", "has_self_edges"],
    "recipLU": ["recip_degrees+", "recip_degrees-", "total_recip-", "L-", "U-", "AT", "total_degrees-"],
    "negative": GROUPS_U["negative"],
    "max": GROUPS_U["max"],
    "plus": ["plus_rowwise+", "plus_rowwise-", "plus_columnwise+", "plus_columnwise-", "plus_element+", "plus_element-", "AT", "offdiag"],
    "min": ["min_rowwise-", "min_columnwise+", "min_columnwise-", "min_element+", "min_element-", "L-", "U-", "diag"],
    "iso": GROUPS_U["iso"],
}
ALL_U = [*MATRIX, "diag", *UDEG, *FLAGS, *ISO,
         *red(["min", "max", "plus"], ["element+", "element-", "diagonal", "rowwise+", "rowwise-", "columnwise+", "columnwise-"])]
ALL_D = [*MATRIX, "diag", *DDEG, *RECIP, *FLAGS, *ISO,
         *red(["min", "max", "plus"], ["element+", "element-", "diagonal", "rowwise+", "rowwise-", "columnwise+", "columnwise-"])]

COUNTS = {"degrees", "rowcol", "total", "recip", "recipLU"}  # edge values do not matter
VECTORS = {"diag", *UDEG, *DDEG}


def is_vector(name):
    return name in VECTORS or "wise" in name


# ------------------------------------------------------------------------------- the definition
def expected(name, E, n, directed):
    """The definition of a property, from {(i, j): value}."""
    if name in {"A"}:
        return dict(E)
    if name == "AT":
        return {(j, i): w for (i, j), w in E.items()}
    off = {k: w for k, w in E.items() if k[0] != k[1]}
    if name == "offdiag":
        return off
    if name in {"U+", "U-", "L+", "L-"}:
        D = E if name[1] == "+" else off
        return {k: w for k, w in D.items() if (k[0] <= k[1] if name[0] == "U" else k[0] >= k[1])}
    dia = {i: w for (i, j), w in E.items() if i == j}
    if name == "diag":
        return dia
    if name == "has_self_edges":
        return bool(dia)
    if name == "has_negative_diagonal":
        return any(w < 0 for w in dia.values())
    if name == "has_negative_edges+":
        return any(w < 0 for w in E.values())
    if name == "has_negative_edges-":
        return any(w < 0 for w in off.values())
    if name[-1] in "+-":
        D = E if name[-1] == "+" else off
        base = name[:-1]
    else:
        D, base = dia, name
    name = name.rstrip("+-")

    def count(side):
        return dict(collections.Counter(k[side] for k in D))

    if base in {"degrees", "row_degrees"}:
        return count(0)
    if base == "column_degrees":
        return count(1)
    if base == "total_degrees":
        return dict(collections.Counter(count(0)) + collections.Counter(count(1)))
    if base == "recip_degrees":
        return dict(collections.Counter(i for (i, j) in D if (j, i) in D))
    if base == "total_recip":
        return sum((j, i) in D for (i, j) in D)
    opname, _, kind = base.partition("_")
    f = {"min": min, "max": max, "plus": sum}[opname]
    if kind == "diagonal":
        return f(dia.values()) if dia else None
    if kind == "element":
        return f(D.values()) if D else None
    out = collections.defaultdict(list)
    for (i, j), w in D.items():
        out[i if kind == "rowwise" else j].append(w)
    return {k: f(v) for k, v in out.items()}


def plain(x):
    """Plain Python form of an answer."""
    if isinstance(x, (gb.Matrix, gb.core.matrix.TransposedMatrix)):
        r, c, v = x.to_coo() if isinstance(x, gb.Matrix) else x.new().to_coo()
        return {(i, j): w for i, j, w in zip(r.tolist(), c.tolist(), v.tolist())}
    if isinstance(x, gb.Vector):
        i, v = x.to_coo()
        return dict(zip(i.tolist(), v.tolist()))
    if isinstance(x, gb.Scalar):
        return x.value if x.nvals else None
    if isinstance(x, (np.bool_, np.integer, np.floating)):
        return x.item()
    return x


def isclose(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(isclose(a[k], b[k]) for k in a)
    if a is None or b is None:
        return a is b
    return abs(a - b) < 1e-9


def right(name, got, E, n, directed):
    got = plain(got)
    if name == "is_iso":
        # May be False for a uniform graph stored explicitly, but True must be true.
        return not got or len(set(E.values())) <= 1
    if name == "iso_value":
        return got is None or all(w == got for w in E.values())
    want = expected(name, E, n, directed)
    if isinstance(want, bool):
        return bool(got) == want and got is not None
    return isclose(want, got)


# ------------------------------------------------------------------------------------ the system
def build(spec, dtype, iso):
    """The adjacency matrix of a spec (position == index)."""
    rows, cols, vals = [], [], []
    for i, j, w in spec.edges:
        w = 1 if w is None else w
        rows.append(i), cols.append(j), vals.append(w)
        if not spec.directed and i != j:
            rows.append(j), cols.append(i), vals.append(w)
    if iso:
        A = gb.Matrix.from_coo(rows, cols, vals[0] if vals else 1, dtype=dtype, nrows=spec.n, ncols=spec.n)
    else:
        A = gb.Matrix.from_coo(rows, cols, vals, dtype=dtype, nrows=spec.n, ncols=spec.n)
    return A


def make(spec, A):
    return (ga.DiGraph if spec.directed else ga.Graph)(A)


def request(G, req, n):
    """Carry out one request; returns [(property, mask positions or None, answer)]."""
    kind, arg = req[0], req[1]
    if kind == "get":
        return [(arg, None, G.get_property(arg))]
    if kind == "many":
        names = arg.split()
        return list(zip(names, [None] * len(names), G.get_properties(arg)))
    ids = [i for i in req[2] if i < n]
    v = gb.Vector.from_coo(ids, True, size=n, dtype=bool)
    if kind == "mask":
        return [(arg, ids, G.get_property(arg, mask=v.S))]
    if kind == "cmask":
        rest = [i for i in range(n) if i not in ids]
        return [(arg, rest, G.get_property(arg, mask=~v.S))]
    raise ValueError(kind)


def restrict(name, ids, E, n, directed):
    want = expected(name, E, n, directed)
    return {i: want[i] for i in want if i in ids}


def cache_key(G, hist):
    cache = getattr(G, "_cache", None)
    if not isinstance(cache, dict):
        return tuple(hist)
    return tuple(sorted((str(k), repr(plain(v))) for k, v in cache.items()))


def run(spec, A, hist):
    """Replay a history on a new graph; returns (graph, verdicts of the last request)."""
    G = make(spec, A)
    last = None
    for req in hist:
        last = request(G, req, spec.n)
    return G, last


def check_history(spec, dtype, iso, hist):
    A = build(spec, dtype, iso)
    E = plain(A)
    try:
        G, last = run(spec, A, hist)
    except Exception as e:  # noqa: BLE001
        return None, f"request {hist[-1]} after {hist[:-1]} raised {type(e).__name__}: {str(e)[:120]}"
    for name, ids, got in last:
        if ids is None:
            ok = right(name, got, E, spec.n, spec.directed)
            want = None if name in ISO else expected(name, E, spec.n, spec.directed)
        else:
            want = restrict(name, ids, E, spec.n, spec.directed)
            ok = isclose(want, plain(got))
        if not ok:
            return None, f"{name} restricted to {ids} after {hist[:-1]} is {plain(got)!r}, expected {want!r} (edges {E})"
    if plain(A) != E or plain(G.matrix) != E:
        return None, f"the adjacency matrix changed after {hist}"
    return G, None


def alphabet(spec, names, masks, many=()):
    out = [("get", x) for x in names]
    for x in names:
        if is_vector(x):
            out += [(k, x, m) for k, m in masks]
    out += [("many", m) for m in many]
    return out


def tasks(tier):
    thorough = tier == "thorough"
    out = []
    masks = (("mask", (0, 2)), ("cmask", (1,)))
    for directed, groups, everything in ((False, GROUPS_U, ALL_U), (True, GROUPS_D, ALL_D)):
        for spec, dtype, iso in graph_space(directed, thorough):
            for g in groups:
                if not thorough and dtype != "FP64" and g in COUNTS:
                    continue
                out.append(("group", spec, dtype, iso, g, masks if g in COUNTS else ()))
        for spec, dtype, iso in graph_space(directed, thorough, core=True):
            out.append(("depth", spec, dtype, iso, 3 if thorough else 2, (("mask", (0, 2)), ("cmask", (1,)), ("cmask", (0,)))))
    return out


def graph_space(directed, thorough, core=False):
    P = lambda n, *e: Spec(directed, n, e)  # noqa: E731
    S = []
    if directed:
        S += [
            P(3, (0, 1, 2), (1, 0, 2), (1, 2, 2)),
            P(3, (0, 1, 2), (1, 0, -1), (1, 2, 3), (2, 2, 5)),
            P(3, (0, 0, -1), (0, 1, 2), (2, 1, 3)),
            P(3, (0, 0, 2), (1, 1, -3), (1, 2, -1), (2, 0, 4)),
            P(2, (0, 0, 3), (1, 1, 4)),
            P(3, (2, 0, 7), (1, 1, 7)),
            P(3),
            P(3, (0, 1, 0), (1, 2, -2), (2, 0, 4), (0, 0, 4)),
            P(3, (0, 2, 1), (2, 0, 2), (0, 1, 5), (1, 0, 6), (0, 0, 9), (2, 2, 1)),
        ]
    else:
        S += [
            P(3, (0, 1, 2), (1, 2, 2)),
            P(3, (0, 1, -1), (1, 2, 3), (2, 2, 5)),
            P(3, (0, 0, -1), (0, 1, 2), (1, 2, 3)),
            P(3, (0, 0, 2), (1, 1, -3), (0, 1, -1)),
            P(2, (0, 0, 3), (1, 1, 4)),
            P(3, (0, 2, 7), (1, 1, 7)),
            P(3),
            P(3, (0, 1, 0), (1, 2, -2), (0, 2, 4), (0, 0, 4)),
            P(3, (0, 1, 1), (0, 2, 2), (1, 2, 5), (0, 0, 9), (1, 1, 1), (2, 2, 4)),
        ]
    for k, s in enumerate(S):
        yield s, "FP64", False
        if core and not thorough:
            continue
        pos = Spec(directed, s.n, tuple((i, j, abs(w)) for i, j, w in s.edges))
        if thorough or k in (1, 3):
            yield s, "INT64", False
            yield pos, "UINT8", False
        if not s.edges:
            yield s, "FP64", True
        if s.edges and (thorough or k in (0, 5, 1)):
            yield Spec(directed, s.n, tuple((i, j, -2) for i, j, _ in s.edges)), "INT64", True
            yield Spec(directed, s.n, tuple((i, j, 1) for i, j, _ in s.edges)), "BOOL", True
            if k == 1 or thorough:
                yield Spec(directed, s.n, tuple((i, j, q % 2) for q, (i, j, _) in enumerate(s.edges))), "BOOL", False
    if thorough and not core:
        for n in (1, 2, 3) if not directed else (1, 2):
            for s in graphs.classes(directed, n, True):
                for w in graphs.weightings(s, (2, -1)):
                    yield w, "FP64", False


def work(task):
    mode, spec, dtype, iso, how, masks = task
    rep = Report()
    if mode == "group":
        names = list((GROUPS_D if spec.directed else GROUPS_U)[how])
        depth = 99
        many = (" ".join(names), " ".join(names[::-1]), " ".join(names[:2]), " ".join(names[-2:]))
    else:
        names = list(ALL_D if spec.directed else ALL_U)
        depth = how
        many = ("offdiag AT", "L- U-", "U- L-", "offdiag has_negative_edges- has_negative_diagonal",
                "offdiag has_negative_diagonal", "has_negative_edges+ iso_value", "has_self_edges diag",
                "offdiag has_self_edges")
    alpha = alphabet(spec, names, masks, many)
    explore(rep, spec, dtype, iso, alpha, depth)
    rep.n["traces"] += 1
    return rep


def explore(rep, spec, dtype, iso, alpha, depth):
    A = build(spec, dtype, iso)
    tag = (spec, dtype, iso)
    start = cache_key(make(spec, A), [])
    seen = {start}
    rep.state(tag, start)
    frontier = [()]
    level = 0
    if not isinstance(getattr(make(spec, A), "_cache", None), dict):
        depth = min(depth, 2)  # states can't be compared, so every history is a state
    while frontier and level < depth:
        nxt = []
        for hist in frontier:
            for req in alpha:
                h = (*hist, req)
                rep.n["transitions"] += 1
                G, bad = check_history(spec, dtype, iso, h)
                if bad is not None:
                    rep.bad(bad, {"spec": spec.to_json(), "dtype": dtype, "iso": iso, "history": [list(r) for r in h]})
                    if rep.n["violating"] > 200:
                        return
                    continue
                k = cache_key(G, h)
                if k not in seen:
                    seen.add(k)
                    rep.state(tag, k)
                    nxt.append(h)
        frontier = nxt
        level += 1
        rep.n["max_depth"] = level
    if frontier == []:
        rep.n["fixpoints"] += 1
    if len(rep.samples) < 1 and seen:
        rep.sample({"graph": spec.to_json(), "dtype": dtype, "states": len(seen), "depth": level,
                    "example_request": list(alpha[-1])})


def replay(case):
    spec = Spec.from_json(case["spec"])
    hist = [tuple(tuple(x) if isinstance(x, list) else x for x in r) for r in case["history"]]
    for i in range(1, len(hist) + 1):
        _, bad = check_history(spec, case["dtype"], case["iso"], hist[:i])
        if bad is not None:
            return bad
    return None


def coverage(total, tasks):
    return {
        "states": len(total.states),
        "transitions": total.n["transitions"],
        "traces_validated_against_impl": total.n["traces"],
        "fixpoints_reached": total.n["fixpoints"],
        "rule": RULE,
    }
