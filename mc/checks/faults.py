"""A call that fails at any point leaves the graph object as good as new.

State: a graph object after some calls, the last of which was cut off at an executed source line
of the package by an exception.  Transition: a call with a fault at one line, or a later call.
Every fault point of every call is visited on the real code; then the matrix and the keys are
compared with their snapshot, every derived property with its definition, and the answers of the
same call and of probe calls with their answers on a fresh object.
"""
from __future__ import annotations

from .. import trace
from ..engine import Report
from ..graphs import Spec
from ..ops import OPS
from .schedules import Shared, alphabet, space, thaw

ID = "P22"
LEVEL = "model_checking"
RULE = (
    "a call on a graph object and the executed source line of the package at which an exception strikes; a transition is one call "
    "with one such fault, or one later request whose answer was compared; every line of every call was a fault point"
)
ASSUMPTIONS = [
    "faults strike at source lines of the package, as an interruption (KeyboardInterrupt) or as an error of the runtime",
    "each call alone on a fresh object answers rightly (the other checks compare that with the reference)",
]


class Interrupted(KeyboardInterrupt):
    """Somebody pressed Ctrl-C."""


class Broken(MemoryError):
    """The runtime gave up."""


KINDS = {"interrupt": Interrupted, "error": Broken}
PROBES = [
    ("transitivity", {}), ("average_clustering", {}), ("clustering", {}), ("triangles", {}), ("overall_reciprocity", {}), ("pagerank", {}), ("square_clustering", {}),
    ("degree_centrality", {}), ("in_degree_centrality", {}), ("out_degree_centrality", {}), ("is_connected", {}), ("is_weakly_connected", {}),
    ("all_pairs_bellman_ford_path_length", {"weight": "weight"}), ("laplacian_matrix", {}),
]


def probes(spec):
    return [("call", n, p) for n, p in PROBES if OPS[n].applies(spec) and OPS[n].in_scope(spec, p)]


def strike(sh, H, letter, k, kind):
    """Make the call; the k-th line raises.  The outcome, if the call swallowed the fault."""

    def act(i):
        if i == k:
            raise KINDS[kind]("injected")

    fn = sh.actor(letter, H)
    try:
        return trace.Steps(act).run(fn)
    except Interrupted:
        return None


def verdict(sh, before, letter, k, kind, want, probing=True):
    H = sh.fresh()
    snap = sh.snap
    for b in before:
        sh.actor(b, H)()
    got = strike(sh, H, letter, k, kind)
    what = f"{sh.show(letter)}{' after ' + ', '.join(map(sh.show, before)) if before else ''} on {'directed' if sh.spec.directed else 'undirected'} " \
           f"{sh.spec.edges} (keys {sh.spec.K}), {kind} at its line event {k}: "
    if got is not None and got[0] == "ok" and not sh.same(letter, want(letter), got):
        return what + f"answers {got[1]!r:.200} in spite of it, alone {want(letter)[1]!r:.200}"
    # The same call first: it sees what was left behind
    for a in [letter, *(probes(sh.spec) if probing else ())]:
        g = sh.actor(a, H)()
        if not sh.same(a, want(a), g):
            w = want(a)
            return what + f"then {sh.show(a)} answers {g[1] if g[0] == 'ok' else g[1:]!r:.300}, alone {w[1]!r:.300}"
    bad = sh.intact(H, snap)
    return what + bad if bad else None


def setups(sh, letter, thorough):
    """What the graph object remembers before."""
    yield []
    if thorough:
        yield [("properties", True)]
        yield [("property", "L- U-")]
    yield [("property", "AT")] if sh.spec.directed else [("property", "U- L-")]


def explore(rep, sh, letter, repeats, thorough, want):
    for s, before in enumerate(setups(sh, letter, thorough)):
        H = sh.fresh()
        for b in before:
            sh.actor(b, H)()
        for i, k in enumerate(trace.points(sh.actor(letter, H), repeats)):
            for kind in KINDS if thorough else [list(KINDS)[(i + s) % 2]]:
                bad = verdict(sh, before, letter, k, kind, want, thorough or (i + s) % 4 == 0)
                rep.n["transitions"] += 2 + len(sh.names)
                rep.n["faults"] += 1
                rep.state(sh.spec, letter, before, k, kind)
                if bad:
                    rep.bad(bad, {"spec": sh.spec.to_json(), "letter": list(letter), "before": [list(b) for b in before], "k": k, "kind": kind})
                    return
        rep.n["traces"] += 1


def tasks(tier):
    out = []
    thorough = tier == "thorough"
    for spec in space(tier):
        calls, props = alphabet(spec, 3 if thorough else 2)
        for a in calls:
            out.append((spec, [a], None if thorough else 1, thorough))
        for i in range(0, len(props), 8):
            out.append((spec, props[i : i + 8], None if thorough else 2, thorough))
    return out


def work(task):
    spec, letters, repeats, thorough = task
    rep = Report()
    sh = Shared(spec)
    memo = {}

    def want(x):
        if repr(x) not in memo:
            memo[repr(x)] = sh.alone(x)
        return memo[repr(x)]

    for a in letters:
        explore(rep, sh, a, repeats, thorough, want)
        rep.outcome(spec, a, repr(want(a))[:200])
    rep.sample({"graph": spec.to_json(), "calls": [sh.show(a) for a in letters[:3]]}, limit=1)
    return rep


def replay(case):
    sh = Shared(Spec.from_json(case["spec"]))
    return verdict(sh, [thaw(b) for b in case["before"]], thaw(case["letter"]), case["k"], case["kind"], sh.alone)


