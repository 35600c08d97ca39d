"""PageRank, Google matrix, HITS, eigenvector and Katz centrality."""
from __future__ import annotations

from ..family import ASSUMPTIONS, RULE, batch, large, names, replay, rotate, small, structured, uniform, weighted, work

ID = "P12"
LEVEL = "model_checking"
NAMES = names("link")


def space(directed, tier):
    thorough = tier == "thorough"
    yield from small(directed, tier, n4=thorough, n5=thorough, loops=directed or thorough)
    yield from weighted(directed, tier, tiny=(1, 2, 0), three=(1, 3), edges=3 if thorough else 2, loops=False, four=())
    yield from uniform(directed, tier, values=(2, 0.5), loops=False)
    yield from structured(directed, (5, 6, 7) if thorough else (5,))


def tasks(tier):
    out = large(False, NAMES, tier, size=140, base=2) + large(True, NAMES, tier, size=140, base=2)
    for directed in (False, True):
        out += batch(rotate(dict.fromkeys(space(directed, tier))), NAMES, 2, tier)
    return out
