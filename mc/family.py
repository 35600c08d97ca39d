"""Check modules that compare a family of operations with the reference on a graph space."""
from __future__ import annotations

from . import equiv, graphs
from .engine import Report

RULE = (
    "a state is a graph of the bounded space (with its node keys and edge values); a transition is one "
    "call of a public function with one argument record of its complete menu, in one execution mode, "
    "whose outcome (value or exception type) was compared with the reference; a trace is the sequence "
    "of calls made on one graph object"
)
ASSUMPTIONS = [
    "networkx 3.2.1 (or the stated definition) is the reference; equally good answers (another shortest "
    "path, another lowest common ancestor) are accepted; floats agree within a tolerance",
    "bounds: the graph space and argument menus listed in DESIGN.md; outside of them nothing is claimed",
]


def batch(items, names, size, level):
    """Work items of ``size`` states each: [(spec, modes)]."""
    items = list(items)
    return [(names, items[i : i + size], level) for i in range(0, len(items), size)]


def work(task):
    names, items, level = task
    rep = Report()
    for spec, modes in items:
        equiv.run_spec(rep, spec, names, modes, level)
    return rep


replay = equiv.replay


def rotate(specs, schemes=("int", "rev", "str", "gap", "mix", "rot"), modes=("S", "SD", "SP", "SW")):
    """Give each state of the space a key scheme and execution modes, in turn."""
    for k, s in enumerate(specs):
        yield s.with_(scheme=schemes[k % len(schemes)]), modes[(k // len(schemes) + k) % len(modes)]


def large(directed, names, tier, **kw):
    """Work items of their own for the graphs of ``big``, and for extreme values."""
    out = list(big(directed, **kw))
    if kw.get("size", 260) == 260:
        out += big(directed, size=140, kinds=("path", "star"), dense=0, weights=False)
    return batch(rotate(out), names, 1, tier) + batch(rotate(extreme(directed)), names, 12, tier)


def names(*fams):
    from .ops import OPS

    return [n for n, o in OPS.items() if o.fam in fams]


# ------------------------------------------------------------------------------ graph spaces
def small(directed, tier, loops=True, n4=True, n5=True):
    """Unweighted graphs: every labelled graph up to 3 nodes (directed with self-edges: up to 2),
    every isomorphism class above."""
    for n in (0, 1, 2, 3):
        if n == 3 and directed and loops and tier != "thorough":
            yield from graphs.labelled(directed, n, False)
            yield from graphs.classes(directed, n, True)
        else:
            yield from graphs.labelled(directed, n, loops)
    if n4:
        if not directed:
            yield from graphs.labelled(False, 4, False)
            if loops:
                yield from graphs.classes(False, 4, True)
        else:
            yield from graphs.classes(True, 4, False)
    if n5 and not directed:
        yield from graphs.classes(False, 5, False)
    if tier == "thorough":
        if directed:
            if n4:
                yield from graphs.labelled(True, 4, False)
                if loops:
                    yield from graphs.classes(True, 4, True)
        else:
            if n4:
                yield from graphs.labelled(False, 4, loops)
            if n5:
                yield from graphs.labelled(False, 5, False)
                if loops:
                    yield from graphs.classes(False, 5, True)
                yield from graphs.classes(False, 6, False)


def structured(directed, sizes, weights=True):
    """Structured graphs, without and with (positive, partly repeated) edge values."""
    for _, s in graphs.families(directed, sizes):
        yield s
        if weights and s.edges:
            yield s.with_(edges=tuple((i, j, (3 * i + 5 * j) % 7 + 1) for i, j, _ in s.edges))


def weighted(directed, tier, tiny=(1, 2, -1, 0), three=(2, 3, -1), edges=4, loops=True, four=(1, 2), edges4=4):
    """Edge values: every assignment from an alphabet to the edges of small graphs."""
    thorough = tier == "thorough"
    for n in (1, 2):
        for s in graphs.labelled(directed, n, loops):
            if s.edges:
                yield from graphs.weightings(s, tiny)
    for s in graphs.classes(directed, 3, loops):
        if 0 < len(s.edges) <= edges + thorough:
            yield from graphs.weightings(s, three)
        elif s.edges:
            yield from patterns(s)
    if four:
        for s in graphs.classes(directed, 4, False):
            if 0 < len(s.edges) <= edges4 + 2 * thorough:
                yield from graphs.weightings(s, four)


def patterns(s):
    """Two value assignments in which self-edges have the largest and the smallest values."""
    yield s.with_(edges=tuple((i, j, 7 + i if i == j else (3 * i + 5 * j) % 4 + 1) for i, j, _ in s.edges))
    yield s.with_(edges=tuple((i, j, 0.5 if i == j else (i + 2 * j) % 4 + 2) for i, j, _ in s.edges))


def uniform(directed, tier, values=(1, 2, 0.5, -1, 0), n=(3,), loops=True):
    """All edges have the same value."""
    for k in n:
        for s in graphs.classes(directed, k, loops):
            if s.edges:
                for v in values:
                    yield s.with_(edges=tuple((i, j, v) for i, j, _ in s.edges))


def big(directed, size=260, kinds=("path", "star", "instar", "wheel", "looped", "book"), dense=30, weights=True, base=1000):
    """A few graphs that are larger than narrow integers can count (their menus are restricted)."""
    for name, s in graphs.families(directed, (size,)):
        if name in kinds:
            yield s
            if weights:
                yield s.with_(edges=tuple((i, j, base + i % 3) for i, j, _ in s.edges))
    for name, s in graphs.families(directed, (dense,)) if dense else ():
        if name == "complete":
            yield s
            if weights:
                yield s.with_(edges=tuple((i, j, base + (i + j) % 3) for i, j, _ in s.edges))


def extreme(directed, loops=False):
    """Values that narrow integers or short floats do not hold."""
    for s in graphs.classes(directed, 3, loops):
        if 0 < len(s.edges) <= 4:
            for vals in ((10**9 + 7, 3 * 10**9), (0.1, 0.3), (1e-5, 7e9), (300, 70000)):
                yield s.with_(edges=tuple((i, j, vals[(i + 2 * j) % 2]) for i, j, _ in s.edges))
