"""Bounded graph spaces.

A graph is described by a ``Spec``: directed flag, number of nodes, a tuple of weighted
edges over *positions* 0..n-1, and a key scheme that says which Python objects name the
positions.  Position == insertion order.  Every space is enumerated completely.
"""
from __future__ import annotations

import functools
import itertools
from dataclasses import dataclass

import networkx as nx

MISSING = "no such node"  # a key which is in no graph


class Tag:
    """A hashable key with identity semantics (not orderable, not an int, not a str)."""

    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __hash__(self):
        return hash(("Tag", self.i))

    def __eq__(self, other):
        return isinstance(other, Tag) and other.i == self.i

    def __repr__(self):
        return f"Tag({self.i})"


def keys(scheme, n):
    """The ``n`` node keys of a key scheme, in insertion order."""
    if scheme == "int":  # key == position
        return list(range(n))
    if scheme == "rev":  # ints, but key != position
        return list(range(n - 1, -1, -1))
    if scheme == "rot":  # ints, cyclically shifted
        return [(i + 1) % n for i in range(n)]
    if scheme == "gap":  # ints outside 0..n-1
        return [10 * i + 5 for i in range(n)]
    if scheme == "str":
        return [chr(ord("z") - i) if i < 26 else f"z{i}" for i in range(n)]
    if scheme == "mix":  # unorderable mixture
        kinds = [
            lambda i: f"n{i}",
            lambda i: (i, "t"),
            lambda i: i - 1,
            lambda i: frozenset([i]),
            lambda i: Tag(i),
            lambda i: i + 0.5,
        ]
        return [kinds[i % len(kinds)](i) for i in range(n)]
    raise ValueError(scheme)


SCHEMES = ("int", "rev", "rot", "gap", "str", "mix")


@dataclass(frozen=True)
class Spec:
    directed: bool
    n: int
    edges: tuple  # ((i, j, w), ...) ; w None means "no weight attribute"
    scheme: str = "int"

    @property
    def K(self):
        return keys(self.scheme, self.n)

    def with_(self, **kw):
        d = {"directed": self.directed, "n": self.n, "edges": self.edges, "scheme": self.scheme}
        d.update(kw)
        return Spec(**d)

    def nx(self):
        G = nx.DiGraph() if self.directed else nx.Graph()
        K = self.K
        G.add_nodes_from(K)
        for i, j, w in self.edges:
            if w is None:
                G.add_edge(K[i], K[j])
            else:
                G.add_edge(K[i], K[j], weight=w)
        return G

    @property
    def loops(self):
        return any(i == j for i, j, _ in self.edges)

    @property
    def weighted(self):
        return any(w is not None for _, _, w in self.edges)

    def to_json(self):
        return {
            "directed": self.directed,
            "n": self.n,
            "edges": [list(e) for e in self.edges],
            "scheme": self.scheme,
        }

    @staticmethod
    def from_json(d):
        return Spec(d["directed"], d["n"], tuple(tuple(e) for e in d["edges"]), d["scheme"])


def slots(directed, n, loops):
    """All possible edges (positions)."""
    if directed:
        it = itertools.product(range(n), repeat=2)
    else:
        it = itertools.combinations_with_replacement(range(n), 2)
    return [(i, j) for i, j in it if loops or i != j]


def labelled(directed, n, loops, scheme="int"):
    """Every labelled graph on n nodes."""
    S = slots(directed, n, loops)
    for bits in range(1 << len(S)):
        yield Spec(
            directed, n, tuple((i, j, None) for b, (i, j) in enumerate(S) if bits >> b & 1), scheme
        )


@functools.lru_cache(None)
def _classes(directed, n, loops):
    S = slots(directed, n, loops)
    idx = {s: b for b, s in enumerate(S)}
    maps = []
    for p in itertools.permutations(range(n)):
        m = []
        for i, j in S:
            a, b = p[i], p[j]
            if not directed and a > b:
                a, b = b, a
            m.append(idx[a, b])
        maps.append(m)
    seen = bytearray(1 << len(S))
    reps = []
    for bits in range(1 << len(S)):
        if seen[bits]:
            continue
        reps.append(bits)
        on = [b for b in range(len(S)) if bits >> b & 1]
        for m in maps:
            x = 0
            for b in on:
                x |= 1 << m[b]
            seen[x] = 1
    return S, reps


def classes(directed, n, loops, scheme="int"):
    """One representative of every isomorphism class of graphs on n nodes."""
    S, reps = _classes(directed, n, loops)
    for bits in reps:
        yield Spec(
            directed, n, tuple((i, j, None) for b, (i, j) in enumerate(S) if bits >> b & 1), scheme
        )


def relabel(spec, perm):
    """The isomorphic copy whose position perm[i] plays the role of position i."""
    return spec.with_(edges=tuple((perm[i], perm[j], w) for i, j, w in spec.edges))


def weightings(spec, alphabet):
    """Every assignment of weights from ``alphabet`` to the edges."""
    for ws in itertools.product(alphabet, repeat=len(spec.edges)):
        yield spec.with_(edges=tuple((i, j, w) for (i, j, _), w in zip(spec.edges, ws)))


def families(directed, sizes):
    """Structured graphs of larger size: every member of each family with n in ``sizes``."""
    for n in sizes:
        fam = {}
        fam["path"] = [(i, i + 1) for i in range(n - 1)]
        fam["cycle"] = [(i, (i + 1) % n) for i in range(n)] if n > 2 else fam["path"]
        fam["star"] = [(0, i) for i in range(1, n)]
        fam["instar"] = [(i, n - 1) for i in range(n - 1)]
        fam["complete"] = list(itertools.combinations(range(n), 2))
        fam["wheel"] = fam["star"] + [(i, i + 1) for i in range(1, n - 1)] + ([(n - 1, 1)] if n > 3 else [])
        fam["ladder"] = (
            [(2 * i, 2 * i + 1) for i in range(n // 2)]
            + [(2 * i, 2 * i + 2) for i in range(n // 2 - 1)]
            + [(2 * i + 1, 2 * i + 3) for i in range(n // 2 - 1)]
        )
        fam["tree"] = [((i - 1) // 2, i) for i in range(1, n)]
        fam["bipartite"] = [(i, j) for i in range(n // 2) for j in range(n // 2, n)]
        fam["twoparts"] = [(i, i + 1) for i in range(n - 1) if i + 1 != n // 2]
        fam["zigzag"] = [
            (a, b) if k % 2 == 0 else (b, a) for k, (a, b) in enumerate((i, i + 1) for i in range(n - 1))
        ]
        fam["chord"] = fam["cycle"] + [(i, (i + 2) % n) for i in range(n) if n > 4]
        fam["looped"] = fam["path"] + [(i, i) for i in range(0, n, 2)]
        if n > 20:
            fam["book"] = [(0, 1)] + [(i, j) for j in range(2, n) for i in (0, 1)]
        for name, edges in fam.items():
            if directed:
                E = list(dict.fromkeys(edges))
            else:
                E = list(dict.fromkeys((min(e), max(e)) for e in edges))
            yield name, Spec(directed, n, tuple((i, j, None) for i, j in E))
