"""Square clustering, generalized degree, and k-truss."""
from __future__ import annotations

from .. import graphs
from ..family import ASSUMPTIONS, RULE, batch, large, names, replay, rotate, small, structured, uniform, weighted, work

ID = "P09"
LEVEL = "model_checking"
NAMES = ["square_clustering", "generalized_degree", "k_truss"]


def space(directed, tier):
    thorough = tier == "thorough"
    if directed:
        yield from small(True, "quick", n4=False)
        return
    yield from small(directed, tier, loops=False)
    if not thorough:
        yield from graphs.classes(False, 6, False)
    yield from weighted(directed, tier, tiny=(2, -1, 0), three=(2, 3, -1), loops=False, four=(1, 2), edges4=5)
    yield from structured(directed, (6, 7, 8, 9) if thorough else (6, 7))


def tasks(tier):
    out = large(False, NAMES, tier) + large(True, NAMES, tier)
    for directed in (False, True):
        out += batch(rotate(dict.fromkeys(space(directed, tier))), NAMES, 6, tier)
    return out
