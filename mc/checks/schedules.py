"""Calls by several threads on one graph object.

State: a graph object used by two threads, and where each of them stands.  Transition: a turn of
one thread (some lines of the package, or all that is left).  Every schedule with at most the
stated number of preemptions, at any executed source line of the package, is run on the real
code by a scheduler that lets one thread run at a time.  Both answers are compared with the
answers of the calls alone, and afterwards every derived property with its definition.
"""
from __future__ import annotations

from .. import trace
from ..engine import Enough, Report
from ..equiv import ga_class, snapshot
from ..graphs import Spec
from ..ops import OPS, convert, outcome, public
from . import cache as P
from .histories import equal, letters_of

ID = "P20"
LEVEL = "model_checking"
RULE = (
    "two calls on one graph object in threads of their own, and a schedule: the executed source line of the package at which each "
    "preemption happens; a transition is one turn of a thread; every schedule up to the preemption bound was executed"
)
ASSUMPTIONS = [
    "preemption at source lines of the package; what the GraphBLAS library does between two lines is taken as atomic",
    "each call alone on a fresh object answers rightly (the other checks compare that with the reference)",
]


class Shared:
    """One graph, and fresh graph objects of it."""

    def __init__(self, spec):
        self.spec = spec
        self.G = spec.nx()
        self.A = P.build(spec, "FP64" if any(w is not None and w != int(w) for *_, w in spec.edges) else "INT64", False)
        n = spec.n
        self.order = [(i + 1) % n for i in range(n)][::-1]  # id -> position
        self.A = self.A[self.order, self.order].new()
        self.ids = {spec.K[p]: i for i, p in enumerate(self.order)}
        self.keys = {k: self.ids[k] for k in spec.K}
        self.E = P.plain(self.A)
        self.names = P.ALL_D if spec.directed else P.ALL_U
        self.snap = snapshot(self.fresh())  # of another object: taking it makes an object remember things

    def fresh(self):
        return ga_class(self.spec)(self.A, key_to_id=dict(self.keys))

    def actor(self, letter, H):
        """A function of no arguments that makes the call, and gives its outcome."""
        if letter[0] == "property":
            names = letter[1]
            return lambda: outcome(lambda: [P.plain(H.get_property(names))] if " " not in names else [P.plain(x) for x in H.get_properties(names)])
        if letter[0] == "properties":
            return lambda: outcome(lambda: [P.plain(H.get_property(x)) for x in (self.names if letter[1] else self.names[::-1])])
        _, name, p = letter
        f = public(name)
        return lambda: outcome(lambda: OPS[name].run(lambda G, **kw: f(H, **kw), self.G, self.spec, p, H))

    def alone(self, letter):
        return self.actor(letter, self.fresh())()

    def same(self, letter, want, got):
        if letter[0] in ("property", "properties"):
            if got[0] != "ok":
                return False
            names = letter[1].split() if letter[0] == "property" else self.names if letter[1] else self.names[::-1]
            return all(P.right(x, y, self.E, self.spec.n, self.spec.directed) for x, y in zip(names, got[1]))
        return equal(OPS[letter[1]], want, got, self.spec, letter[2], self.G)

    def intact(self, H, snap):
        """What is wrong with the graph object now?"""
        for x in self.names:
            got = outcome(lambda x=x: H.get_property(x))
            if got[0] != "ok" or not P.right(x, got[1], self.E, self.spec.n, self.spec.directed):
                have = P.plain(got[1]) if got[0] == "ok" else f"{got[1].__name__}: {got[2]}"
                want = None if x in P.ISO else P.expected(x, self.E, self.spec.n, self.spec.directed)
                return f"the property {x} is then {have!r}, not {want!r}"
        now = snapshot(H)
        if now != snap:
            return f"the graph was modified: {snap} -> {now}"
        return None

    def show(self, letter):
        if letter[0] == "call":
            return f"{letter[1]}({', '.join(f'{k}={v!r}' for k, v in convert(letter[2], self.spec.K).items())})"
        return f"get_property({letter[1]!r})" if letter[0] == "property" else "all properties" + ("" if letter[1] else ", last first")


def verdict(sh, letters, want, turns, after):
    """Run one schedule.  None, or what went wrong."""
    H = sh.fresh()
    snap = sh.snap
    try:
        got = trace.schedule([sh.actor(a, H) for a in letters], turns)
    except trace.Stuck:
        return f"{describe(sh, letters, turns)}: no answer"
    for a, w, g in zip(letters, want, got):
        if not sh.same(a, w, g):
            have = g[1] if g[0] == "ok" else f"{g[1].__name__}: {g[2]}"
            right = w[1] if w[0] == "ok" else w[1].__name__
            return f"{describe(sh, letters, turns)}: {sh.show(a)} answers {have!r:.300}, alone {right!r:.300}"
    if after:
        bad = sh.intact(H, snap)
        if bad:
            return f"{describe(sh, letters, turns)}: {bad}"
        for a, w in zip(letters, want):
            if a[0] == "call":
                g = sh.actor(a, H)()
                if not sh.same(a, w, g):
                    return f"{describe(sh, letters, turns)}: {sh.show(a)} later answers {g[1]!r:.300}, alone {w[1]!r:.300}"
    return None


def describe(sh, letters, turns):
    how = ", ".join(f"thread {i} {'to its end' if k is None else f'for {k} lines'}" for i, k in turns)
    return (
        f"{' while '.join(sh.show(a) for a in letters)} on {'directed' if sh.spec.directed else 'undirected'} {sh.spec.edges} "
        f"(keys {sh.spec.K}), scheduled {how}"
    )


def points(sh, letter, repeats):
    """Where the call can be preempted: after the k-th line."""
    return [k - 1 for k in trace.points(sh.actor(letter, sh.fresh()), repeats) if k > 1]


def explore(rep, sh, a, b, bound, want, repeats):
    """All the schedules of ``a`` and ``b`` with ``bound`` preemptions, ``a`` first."""
    letters = [a, b]
    for k in points(sh, a, repeats):
        for turns in [[(0, k), (1, None), (0, None)]] if bound == 1 else [[(0, k), (1, m), (0, None), (1, None)] for m in points(sh, b, repeats)]:
            bad = verdict(sh, letters, [want(a), want(b)], turns, bound == 2 or b == a or b[0] == "properties")
            rep.n["transitions"] += len(turns)
            rep.n["schedules"] += 1
            rep.state(sh.spec, a, b, turns)
            if bad:
                rep.bad(bad, {"spec": sh.spec.to_json(), "letters": [list(a), list(b)], "turns": [list(t) for t in turns]})
                if "no answer" in bad:
                    raise Enough(rep)
                return
    rep.n["traces"] += 1


def alphabet(spec, per_op=1):
    calls = [("call", n, p) for n, p in letters_of(spec, per_op)]
    names = P.ALL_D if spec.directed else P.ALL_U
    props = [("property", x) for x in names if x != "A"]
    props += [("property", x) for x in ("offdiag AT", "L- U-", "has_self_edges diag", "offdiag has_negative_edges- has_negative_diagonal")]
    return calls, props


def space(tier):
    S = lambda d, n, *e: Spec(d, n, e, "mix")  # noqa: E731
    out = [
        S(False, 4, (0, 1, 2), (1, 2, 3), (0, 2, 1), (2, 3, 2), (1, 1, 4)),
        S(True, 4, (0, 1, 2), (1, 0, 3), (1, 2, 1), (2, 0, 5), (3, 1, 1), (2, 2, 2)),
        S(False, 4, (0, 1, 2), (1, 2, 3), (0, 2, 1), (2, 3, 2)),
        S(True, 4, (0, 1, 2), (1, 0, 3), (1, 2, 1), (2, 0, 5), (3, 1, 1)),
    ]
    if tier == "thorough":
        out += [S(d, 3, (0, 1, -1), (1, 2, 4), (0, 0, 2)) for d in (False, True)]
        out += [S(d, 3, (0, 1, 2), (1, 2, 2), (2, 0, 2)) for d in (False, True)]
    return out


def relatives(a, s, others):
    """The same function with other arguments, and another function of the family (in turn)."""
    out = [b for b in others if b[1] == a[1] and b[2] != a[2]][:1]
    fam = list(dict.fromkeys(b[1] for b in others if OPS[b[1]].fam == OPS[a[1]].fam))
    other = fam[(fam.index(a[1]) + 1 + s) % len(fam)]
    if other != a[1]:
        out.append(next(b for b in others if b[1] == other))
    return out


def tasks(tier):
    out = []
    thorough = tier == "thorough"
    for s, spec in enumerate(space(tier)):
        calls, props = alphabet(spec)
        every = calls + props
        others = alphabet(spec, 2)[0]
        for i, a in enumerate(every):
            bs = [("properties", bool((i + s) % 2)), a]
            if thorough:
                bs += [("properties", not (i + s) % 2)]
                bs += [b for b in every if b != a]
            else:
                bs += [every[(i * 7 + s * 13 + 29 * m + 1) % len(every)] for m in range(1 if a[0] == "call" else 3)]
                if a[0] == "call":
                    bs += relatives(a, s, others)
            for j in range(0, len(bs), 12):
                out.append((spec, a, bs[j : j + 12], 1, None if thorough else 2 if s < 2 and a[0] == "property" else 1))
        for i, a in enumerate(props):
            bs = [a, *props] if thorough else [a if (i + s) % 4 == 0 else props[(i * 5 + s * 11 + 3) % len(props)]] if (i + s) % 2 and s < 2 else []
            for j in range(0, len(bs), 4):
                out.append((spec, a, bs[j : j + 4], 2, 3 if thorough else 1))
        if thorough:
            for a in calls:
                out.append((spec, a, [a], 2, 1))
    return out


def work(task):
    spec, a, bs, bound, repeats = task
    rep = Report()
    sh = Shared(spec)
    memo = {}

    def want(x):
        if repr(x) not in memo:
            memo[repr(x)] = sh.alone(x)
        return memo[repr(x)]

    for b in dict.fromkeys(map(repr, bs)):
        b = next(x for x in bs if repr(x) == b)
        explore(rep, sh, a, b, bound, want, repeats)
    rep.outcome(spec, a, repr(want(a))[:200])
    rep.sample({"graph": spec.to_json(), "call": sh.show(a), "against": [sh.show(b) for b in bs[:4]], "preemptions": bound}, limit=1)
    return rep


def thaw(letter):
    return tuple(letter)


def replay(case):
    sh = Shared(Spec.from_json(case["spec"]))
    letters = [thaw(x) for x in case["letters"]]
    return verdict(sh, letters, [sh.alone(x) for x in letters], [tuple(t) for t in case["turns"]], True)
