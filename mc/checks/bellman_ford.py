"""Bellman-Ford path lengths, paths, and negative cycles."""
from __future__ import annotations

from ..family import ASSUMPTIONS, RULE, batch, large, names, replay, rotate, small, structured, uniform, weighted, work

ID = "P06"
LEVEL = "model_checking"
NAMES = names("weighted")


def space(directed, tier):
    thorough = tier == "thorough"
    yield from small(directed, tier, n5=thorough)
    yield from weighted(directed, tier, tiny=(1, 2, -1, 0), three=(1, 3, -2), edges=4 if thorough or not directed else 3, four=(1, 3, -1), edges4=3)
    yield from uniform(directed, tier, values=(1, 2, 0.5, -1, 0))
    yield from uniform(directed, tier, values=(3,), n=(4,), loops=False)
    yield from structured(directed, (6, 7, 8, 9) if thorough else (6, 7))


def tasks(tier):
    out = large(False, NAMES, tier, kinds=("path", "star", "wheel")) + large(True, NAMES, tier, kinds=("path", "star", "wheel"))
    for directed in (False, True):
        out += batch(rotate(dict.fromkeys(space(directed, tier))), NAMES, 8, tier)
    return out
