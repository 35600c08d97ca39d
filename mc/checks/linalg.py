"""Matrices of graphs."""
from __future__ import annotations

from ..family import ASSUMPTIONS, RULE, batch, large, names, replay, rotate, small, structured, uniform, weighted, work

ID = "P13"
LEVEL = "model_checking"
NAMES = names("linalg")


def space(directed, tier):
    thorough = tier == "thorough"
    yield from small(directed, tier)
    yield from weighted(directed, tier, tiny=(1, 2, -1, 0), three=(1, 3, -2), edges=3, four=(1, 2))
    yield from structured(directed, (5, 6, 7) if thorough else (5, 6))


def tasks(tier):
    out = large(False, NAMES, tier) + large(True, NAMES, tier)
    for directed in (False, True):
        out += batch(rotate(dict.fromkeys(space(directed, tier))), NAMES, 6, tier)
    return out
