"""Iterators, and results that were obtained earlier, however they are interleaved with other calls.

State: a graph object, the iterators that its functions returned and how far each of them was
taken, and the items and results obtained so far.  Transitions: one step of an iterator, leaving
an iterator for good, overwriting an item, a call.  Every merge of the steps of two iterators,
every position of a call or of overwriting within one, and every abandonment point is run on the
real code.  Each item is compared with the item at the same place of the iteration alone, when it
appears and again at the end.
"""
from __future__ import annotations

import itertools

from ..canon import canon, same
from ..engine import Report
from ..equiv import limited, snapshot
from ..graphs import Spec
from ..ops import OPS, agree, convert, implementation, outcome, public
from .. import graphs
from .histories import letters_of, spoil
from .schedules import Shared

ID = "P21"
LEVEL = "model_checking"
RULE = (
    "an iterator (or two) that functions returned on one graph object, and an order of steps: every merge of two step sequences, "
    "every place for a call, for overwriting an item, and for giving up; a transition is one step whose item was compared with that "
    "of the iteration alone, or one call whose answer and effect on the results held so far were compared"
)
ASSUMPTIONS = [
    "the items of an iteration alone are compared with the reference; the order of items is the one of the iteration alone",
]


def makers(spec):
    """{name: function of (shared, graph object) that returns an iterator}."""
    out = {}

    def call(name, kw, how=iter, direct=False):
        f = implementation(name) if direct else public(name)
        label = f"{'iter' if how is iter else how.__name__}({name}({kw}))"
        out[label] = (name, kw, lambda sh, H: how(f(H, **(convert(kw, sh.spec.K) if not direct else kw))))

    def items(x):
        return iter(x.items())

    def values(x):
        return iter(x.values())

    call("bfs_layers", {"sources": [0]})
    call("bfs_layers", {"sources": [spec.n - 1, 1]})
    call("edge_boundary", {"nbunch1": [0, 1]})
    call("edge_boundary", {"nbunch1": [0, 2], "nbunch2": [1, spec.n - 1], "data": "weight"})
    call("isolates", {})
    call("node_boundary", {"nbunch1": [0]})
    call("descendants", {"source": 0})
    call("single_source_shortest_path_length", {"source": 0})
    call("single_source_shortest_path_length", {"source": 1}, items)
    call("single_target_shortest_path_length", {"target": 1})
    call("floyd_warshall", {"weight": "weight"}, items)
    if spec.directed:
        call("reciprocity", {"nodes": list(range(spec.n))}, items)
    else:
        call("clustering", {}, items)
        call("triangles", {}, values)
        if not spec.loops:
            call("generalized_degree", {}, items)
    for chunk in (1, 2, 3, None):
        call("all_pairs_shortest_path_length", {"chunksize": chunk}, direct=True)
        call("all_pairs_bellman_ford_path_length", {"weight": "weight", "chunksize": chunk}, direct=True)
    call("all_pairs_shortest_path_length", {"cutoff": 1})
    call("all_pairs_bellman_ford_path_length", {"weight": "weight"})
    out["iter(G)"] = (None, {}, lambda sh, H: iter(H))
    out["nbunch"] = (None, {}, lambda sh, H: iter(H.nodes) if hasattr(H, "nodes") and not callable(H.nodes) else iter(H))
    return out


END = ("end",)
LIMIT = 12  # steps; every iteration of the space is shorter


class Walk:
    """One iteration: the items so far."""

    def __init__(self, sh, H, make):
        self.it = make(sh, H)
        self.items = []

    def step(self):
        try:
            x = next(self.it)
        except StopIteration:
            self.items.append((END, END))
            return END
        self.items.append((x, canon(x)))
        return self.items[-1][1]


def alone(sh, make):
    w = Walk(sh, sh.fresh(), make)
    out = []
    while not out or out[-1] != END:
        out.append(w.step())
        if len(out) > LIMIT:
            break
    return out


def play(sh, names, sched, want, calls, answer):
    """Run a schedule: [("step", i) | ("drop", i) | ("spoil", i) | ("call", letter)].  None, or what went wrong."""
    H = sh.fresh()
    snap = sh.snap
    ms = makers(sh.spec)
    walks = [None] * len(names)
    spoiled = set()
    held = []

    def where(q):
        return f"{' and '.join(names)} on {'directed' if sh.spec.directed else 'undirected'} {sh.spec.edges} (keys {sh.spec.K}), in the order {sched[: q + 1]}: "

    for q, (what, x) in enumerate(sched):
        if what == "call":
            got, raw = ask(sh, H, x)
            if not agree(OPS[x[0]], answer(x), got, sh.spec, x[1], sh.G):
                return where(q) + f"{x[0]} answers {got!r:.300}, alone {answer(x)!r:.300}"
            held.append((x, raw, repr(canon(raw)) if got[0] == "ok" and not hasattr(raw, "__next__") else None))
            continue
        if walks[x] is None:
            walks[x] = Walk(sh, H, ms[names[x]][2])
        w = walks[x]
        if what == "drop":
            if hasattr(w.it, "close"):
                w.it.close()
            w.it = None
        elif what == "spoil":
            if w.items and w.items[-1][0] is not END:
                spoil(w.items[-1][0])
                spoiled.add((x, len(w.items) - 1))
        else:
            i = len(w.items)
            got = w.step()
            if not like(want[x][i], got):
                return where(q) + f"item {i} is {got!r:.300}, alone {want[x][i]!r:.300}"
    for x, w in enumerate(walks):
        for i, (raw, _) in enumerate(w.items if w else ()):
            if raw is not END and (x, i) not in spoiled and not like(want[x][i], canon(raw)):
                return where(len(sched)) + f"item {i} of {names[x]} has become {canon(raw)!r:.300}, it was {want[x][i]!r:.300}"
    for x, raw, was in held:
        if was is not None and repr(canon(raw)) != was:
            return where(len(sched)) + f"the result of {x} has become {canon(raw)!r:.300}, it was {was:.300}"
    if snapshot(H) != snap:
        return where(len(sched)) + f"the graph was modified: {snap} -> {snapshot(H)}"
    return None


def like(a, b):
    return a == END and b == END if END in (a, b) else same(a, b, 1e-9)


def ask(sh, H, letter):
    name, p = letter
    box = []

    def g(G, **kw):
        box.append(public(name)(H, **kw))
        return box[-1]

    got = outcome(lambda: OPS[name].run(g, sh.G, sh.spec, p, H))
    return got, box[0] if box else None


def merges(a, b):
    """All merges of a steps of 0 and b steps of 1."""
    for at in itertools.combinations(range(a + b), a):
        yield [("step", 0 if i in at else 1) for i in range(a + b)]


def explore(rep, sh, names, scheds, want, answer):
    for sched in scheds:
        bad = limited(lambda s=sched: play(sh, names, s, want, None, answer))
        rep.n["transitions"] += len(sched)
        rep.n["schedules"] += 1
        rep.state(sh.spec, names, sched)
        bad = bad[1] if bad[0] == "ok" else f"{names} on {sh.spec}, in the order {sched}: {bad[1].__name__} {bad[2]}"
        if bad:
            rep.bad(bad, {"spec": sh.spec.to_json(), "names": names, "sched": [list(s) for s in sched]})
            return
    rep.n["traces"] += 1


def singles(n, letters):
    """Schedules of one iterator of n steps: overwriting after each set of places, calls and giving up at each place."""
    for k in range(n):
        yield [*[("step", 0)] * k, ("drop", 0), *[("call", x) for x in letters[:2]]]
        for x in letters:
            yield [*[("step", 0)] * k, ("call", x), *[("step", 0)] * (n - k)]
    for places in itertools.product((False, True), repeat=n - 1):
        if any(places):
            yield [s for at in places for s in ([("step", 0), ("spoil", 0)] if at else [("step", 0)])] + [("step", 0)]


def doubles(a, b):
    yield from merges(a, b)
    for k in range(a):
        # the first is given up; both orders of garbage
        yield [*[("step", 0)] * k, ("step", 1), ("drop", 0), *[("step", 1)] * (b - 1)]
        # overwritten items of one do not reach the other
        yield [s for i in range(k + 1) for s in (("step", 0), ("spoil", 0))] + [("step", 1)] * b + [("step", 0)] * (a - k - 1)


def holds(letters):
    """The results of pairs of calls are held while the other is made."""
    for a, b in itertools.product(letters, letters):
        yield [("call", a), ("call", b)]


def space(tier):
    S = lambda d, n, *e: Spec(d, n, e, "mix")  # noqa: E731
    out = [
        S(False, 4, (0, 1, 2), (1, 2, 3), (0, 2, 1), (2, 3, 2)),
        S(True, 4, (0, 1, 2), (1, 2, 3), (2, 0, 1), (2, 3, 2), (1, 0, 1)),
        S(False, 4, (0, 1, 2), (1, 1, 3), (1, 2, 2)),
        S(True, 3, (0, 1, 2), (1, 2, 2), (2, 2, 2)),
        S(False, 4, (0, 1, 1), (1, 2, 1), (2, 3, 1)),
    ]
    if tier == "thorough":
        for d in (False, True):
            out += [s.with_(scheme="mix", edges=tuple((i, j, q + 1) for q, (i, j, _) in enumerate(s.edges))) for s in graphs.classes(d, 3, True) if s.edges]
            out += [s.with_(scheme="rev", edges=tuple((i, j, q + 1) for q, (i, j, _) in enumerate(s.edges))) for s in list(graphs.classes(d, 4, False))[1 :: 1 if not d else 9]]
    return out


def tasks(tier):
    out = []
    thorough = tier == "thorough"
    for s, spec in enumerate(space(tier)):
        names = list(makers(spec))
        for i, a in enumerate(names):
            bs = names if thorough and s < 5 else [b for j, b in enumerate(names) if (i + j + s) % 3 == 0 or a == b]
            out.append((spec, a, bs, thorough))
        out.append((spec, None, [], thorough))
    return out


def work(task):
    spec, a, bs, thorough = task
    rep = Report()
    sh = Shared(spec)
    ms = makers(spec)
    letters = letters_of(spec, 1)
    memo = {}

    def answer(x):
        k = repr(x)
        if k not in memo:
            memo[k] = ask(sh, sh.fresh(), x)[0]
        return memo[k]

    if a is None:
        explore(rep, sh, [], holds(letters), [], answer)
        return rep
    want = limited(lambda: alone(sh, ms[a][2]))
    bad = None if want[0] == "ok" else f"{want[1].__name__}: {want[2]}"
    if not bad and (want[1][-1] != END or not right(sh, a, want[1][:-1])):
        bad = f"{want[1]!r:.600}"
    rep.state(spec, a)
    if bad:
        rep.bad(f"{a} on {spec} gives {bad}", {"spec": spec.to_json(), "names": [a], "alone": True})
        return rep
    first = want[1]
    explore(rep, sh, [a], singles(len(first), letters if len(first) < 7 or thorough else letters[::3]), [first], answer)
    for b in bs:
        second = limited(lambda b=b: alone(sh, ms[b][2]))
        if second[0] != "ok" or second[1][-1] != END:
            continue  # reported when it is the first
        explore(rep, sh, [a, b], doubles(len(first), len(second[1])), [first, second[1]], answer)
    rep.outcome(spec, a, repr(first)[:300])
    rep.sample({"graph": spec.to_json(), "iterator": a, "items": len(first) - 1, "merged with": len(bs)}, limit=1)
    return rep


def right(sh, a, items):
    """Are the items those of the definition?"""
    name, kw, _ = makers(sh.spec)[a]
    if name is None:
        return sorted(map(repr, items)) == sorted(map(repr, sh.spec.K))
    p = {k: v for k, v in kw.items() if k != "chunksize"}
    o = OPS[name]
    ref = outcome(lambda: o.ref(sh.G, sh.spec, p) if o.ref else o.run(public(name), sh.G, sh.spec, p, None))
    if ref[0] != "ok":
        return False
    ref = ref[1]
    if name == "bfs_layers":
        return len(items) == len(ref) and all(frozenset(x) == frozenset(y) and len(x) == len(y) for x, y in zip(items, ref))
    if isinstance(ref, dict):
        if a.startswith("items"):
            return same(ref, dict(items)) and len(items) == len(ref) if name != "generalized_degree" else {k: v for k, v in items if v} == {k: v for k, v in ref.items() if v}
        if a.startswith("values"):
            return sorted(ref.values()) == sorted(items)
        if items and isinstance(items[0], tuple) and name.startswith("all_pairs"):
            return same(ref, dict(items)) and len(items) == len(ref)
        return len(items) == len(ref) and set(items) == set(ref)
    if isinstance(ref, list) and name.startswith("all_pairs"):
        return same(dict(ref), dict(items)) and len(ref) == len(items)
    return sorted(map(repr, items)) == sorted(map(repr, ref))


def replay(case):
    spec = Spec.from_json(case["spec"])
    sh = Shared(spec)
    ms = makers(spec)
    if case.get("alone"):
        (a,) = case["names"]
        want = limited(lambda: alone(sh, ms[a][2]))
        ok = want[0] == "ok" and want[1][-1] == END and right(sh, a, want[1][:-1])
        return None if ok else f"{a} on {spec} gives {want[1]!r:.600}"
    want = [alone(sh, ms[x][2]) for x in case["names"]]
    sched = [(w, tuple(x) if isinstance(x, (list, tuple)) else x) for w, x in case["sched"]]
    bad = limited(lambda: play(sh, case["names"], sched, want, None, lambda x: ask(sh, sh.fresh(), x)[0]))
    return bad[1] if bad[0] == "ok" else f"{case['names']} on {spec}, in the order {sched}: {bad[1].__name__} {bad[2]}"
