"""Floyd-Warshall distances and predecessors."""
from __future__ import annotations

from ..family import ASSUMPTIONS, RULE, batch, large, names, replay, rotate, small, structured, uniform, weighted, work

ID = "P07"
LEVEL = "model_checking"
NAMES = names("floyd")


def space(directed, tier):
    thorough = tier == "thorough"
    yield from small(directed, tier)
    yield from weighted(directed, tier, tiny=(1, 2, -1, 0), three=(1, 3, -2) if thorough else (3, -2), edges=4, four=(1, 3, -1), edges4=3)
    yield from uniform(directed, tier, values=(1, 2, 0.5, -1, 0))
    yield from structured(directed, (6, 7, 8, 9) if thorough else (5, 6))


def tasks(tier):
    out = large(False, NAMES, tier, size=140, kinds=("path", "star", "looped"), dense=0) + large(True, NAMES, tier, size=140, kinds=("path", "star", "looped"), dense=0)
    for directed in (False, True):
        out += batch(rotate(dict.fromkeys(space(directed, tier))), NAMES, 8, tier)
    return out
