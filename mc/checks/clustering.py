"""Triangles, transitivity, and clustering coefficients."""
from __future__ import annotations

from .. import graphs
from ..family import ASSUMPTIONS, RULE, batch, large, names, patterns, replay, rotate, small, structured, uniform, weighted, work

ID = "P08"
LEVEL = "model_checking"
NAMES = ["triangles", "transitivity", "clustering", "average_clustering"]


def space(directed, tier):
    thorough = tier == "thorough"
    yield from small(directed, tier)
    yield from weighted(directed, tier, tiny=(1, 2, -1) if thorough or not directed else (3, -1), three=(1, 3, -2) if thorough else (3, -2), edges=3, four=(1, 3), edges4=6 if not directed else 3)
    for s in graphs.classes(False, 4, True) if not directed else ():
        if s.edges and s.loops:
            yield from patterns(s)
    for s in graphs.classes(directed, 3, False):
        # triangles some of whose edges have the value zero
        if len(s.edges) >= 3:
            for z in range(1, 2 ** min(len(s.edges), 3) - 1):
                yield s.with_(edges=tuple((i, j, 0 if z >> q % 3 & 1 else q + 1) for q, (i, j, _) in enumerate(s.edges)))
    yield from uniform(directed, tier, values=(2, 0.5, -1))
    yield from structured(directed, (5, 6, 7) if thorough else (5, 6))


def tasks(tier):
    out = large(False, NAMES, tier) + large(True, NAMES, tier)
    for directed in (False, True):
        out += batch(rotate(dict.fromkeys(space(directed, tier))), NAMES, 4, tier)
    return out
