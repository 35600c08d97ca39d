"""Canonical Python values for results, and comparison with a float tolerance."""
from __future__ import annotations

import math
import types
from collections.abc import Mapping, Set

import graphblas as gb
import networkx as nx
import numpy as np


class Rows:
    """A dense 2-d array result."""

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return f"Rows({np.asarray(self.a).tolist()})"


class G_:
    """A graph result: directedness, node list, {(u, v): w}."""

    def __init__(self, directed, nodes, edges):
        self.directed, self.nodes, self.edges = directed, nodes, edges

    def __repr__(self):
        return f"G(directed={self.directed}, nodes={list(self.nodes)}, edges={self.edges})"


def graph(x, weight="weight"):
    """Canonical form of an nx or ga graph."""
    import graphblas_algorithms as ga

    if isinstance(x, ga.Graph):
        directed = x.is_directed()
        ids = list(x)
        A = x.matrix
        r, c, v = A.to_coo()
        edges = {}
        order = x.list_to_keys(range(len(x)))
        for i, j, w in zip(r.tolist(), c.tolist(), v.tolist()):
            edges[order[i], order[j]] = w
        return G_(directed, frozenset(ids), edges)
    edges = {}
    for u, v, w in x.edges(data=weight, default=1):
        edges[u, v] = w
        if not x.is_directed():
            edges[v, u] = w
    return G_(x.is_directed(), frozenset(x), edges)


def canon(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if x is None or isinstance(x, (str, int)):
        return x
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, gb.Scalar):
        return canon(x.value)
    if isinstance(x, (gb.Matrix, gb.core.matrix.TransposedMatrix)):
        return Rows(x.to_dense(fill_value=0))
    if isinstance(x, gb.Vector):
        return {int(i): canon(v) for i, v in zip(*(a.tolist() for a in x.to_coo()))}
    if isinstance(x, np.ndarray):
        return Rows(x) if x.ndim == 2 else [canon(v) for v in x.tolist()]
    if hasattr(x, "toarray"):  # scipy sparse
        return Rows(x.toarray())
    if isinstance(x, (nx.Graph,)) or hasattr(x, "__networkx_backend__"):
        return graph(x)
    if isinstance(x, Mapping):
        return {k: canon(v) for k, v in x.items()}
    if isinstance(x, (Set, frozenset, set)):
        return frozenset(x)
    if isinstance(x, tuple):
        return tuple(canon(v) for v in x)
    if isinstance(x, (list, types.GeneratorType)) or hasattr(x, "__next__"):
        return [canon(v) for v in x]
    return x


def close(a, b, tol):
    if a == b:
        return True
    try:
        if math.isnan(a) and math.isnan(b):
            return True
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    except (TypeError, OverflowError):
        return False


def same(a, b, tol=1e-9):
    """Do two canonical values agree?"""
    if isinstance(a, Rows) or isinstance(b, Rows):
        if not (isinstance(a, Rows) and isinstance(b, Rows)):
            return False
        x, y = np.asarray(a.a), np.asarray(b.a)
        if x.shape != y.shape:
            return False
        x = x.astype(float)
        y = y.astype(float)
        return bool(np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True))
    if isinstance(a, G_) or isinstance(b, G_):
        return (
            isinstance(a, G_)
            and isinstance(b, G_)
            and a.directed == b.directed
            and a.nodes == b.nodes
            and same(a.edges, b.edges, tol)
        )
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return False
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        # bool vs number: a truth value is not a count, except where == holds
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(a, b, tol)
    return a == b
