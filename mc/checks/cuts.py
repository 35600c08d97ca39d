"""Boundaries, cuts, expansions, communities, and dominating sets."""
from __future__ import annotations

from ..family import ASSUMPTIONS, RULE, batch, large, names, replay, rotate, small, structured, uniform, weighted, work

ID = "P10"
LEVEL = "model_checking"
NAMES = names("cuts")


def space(directed, tier):
    thorough = tier == "thorough"
    yield from small(directed, tier, n5=thorough)
    yield from weighted(directed, tier, tiny=(1, 2, -1, 0) if thorough or not directed else (3, -1), three=(1, 3), edges=2 + thorough, four=(1, 2), edges4=2)
    yield from structured(directed, (5, 6) if thorough else (5,))


def tasks(tier):
    out = large(False, NAMES, tier) + large(True, NAMES, tier)
    for directed in (False, True):
        out += batch(rotate(dict.fromkeys(space(directed, tier))), NAMES, 2, tier)
    return out
