"""Reachability, components, BFS layers, ancestors, common ancestors, simple paths."""
from __future__ import annotations

from ..family import ASSUMPTIONS, RULE, batch, large, names, replay, rotate, small, structured, uniform, weighted, work

ID = "P04"
LEVEL = "model_checking"
NAMES = names("traversal")


def space(directed, tier):
    thorough = tier == "thorough"
    yield from small(directed, tier)
    yield from structured(directed, (6, 7, 8, 9, 10) if thorough else (6, 7), weights=False)
    yield from weighted(directed, tier, tiny=(2, 0, -1), three=(2, 0), edges=2, four=())


def tasks(tier):
    out = large(False, NAMES, tier) + large(True, NAMES, tier)
    for directed in (False, True):
        out += batch(rotate(dict.fromkeys(space(directed, tier))), NAMES, 8, tier)
    return out
