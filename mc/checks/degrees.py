"""Degrees, isolates, regularity, reciprocity, and other local measures."""
from __future__ import annotations

from ..family import ASSUMPTIONS, RULE, batch, large, names, replay, rotate, small, structured, uniform, weighted, work

ID = "P11"
LEVEL = "model_checking"
NAMES = names("degree")


def space(directed, tier):
    thorough = tier == "thorough"
    yield from small(directed, tier)
    yield from weighted(directed, tier, tiny=(1, 2, -1, 0), three=(1, 3, -2), edges=4, four=(1, 2))
    yield from structured(directed, (6, 7, 8, 9) if thorough else (6, 7))


def tasks(tier):
    out = large(False, NAMES, tier) + large(True, NAMES, tier)
    for directed in (False, True):
        out += batch(rotate(dict.fromkeys(space(directed, tier))), NAMES, 8, tier)
    return out
