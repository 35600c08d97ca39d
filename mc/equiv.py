"""Agreement of the implementation with the networkx reference model on a bounded graph space.

States are the graphs of the space (each reachable from an edgeless graph by adding edges);
on every state the complete argument menu of every operation of the family is executed, and each
execution is compared with the reference model.  Execution modes:

``S``   one graphblas graph object per weight choice is shared by all the calls of the session,
        so every call runs in the state its predecessors left behind
``P``   as S, but the node ids of the graph object are a permutation of the node order
``W``   as S, for operations without a weight argument: the object carries edge values
``D``   networkx dispatch with ``backend="graphblas"``: a new conversion for every call
"""
from __future__ import annotations

import signal

import graphblas as gb
import networkx as nx

import graphblas_algorithms as ga

from .canon import G_, Rows, canon, graph, same
from .engine import Enough, Report
from .graphs import Spec
from .ops import OPS, agree, convert, outcome, public

CALL_LIMIT = 20  # seconds; a call of this size takes milliseconds


class TooLong(BaseException):
    pass


def _alarm(*_):
    raise TooLong


def limited(fn):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CALL_LIMIT)
    try:
        return outcome(fn)
    except TooLong:
        return ("exc", TooLong, f"no answer within {CALL_LIMIT} s")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def ga_class(spec):
    return ga.DiGraph if spec.directed else ga.Graph


def to_ga(spec, G, weight, permuted=False, dtype=None):
    """The graphblas graph of a networkx graph."""
    H = ga_class(spec).from_networkx(G, weight=weight, dtype=dtype)
    if permuted and spec.n > 1:
        n = spec.n
        order = [(i + 1) % n for i in range(n)][::-1]  # new id -> old id
        A = H.matrix[order, order].new()
        pos = {old: new for new, old in enumerate(order)}
        H = ga_class(spec)(A, key_to_id={k: pos[i] for i, k in enumerate(G)})
    return H


def snapshot(H):
    A = H.matrix
    r, c, v = A.to_coo()
    return (str(A.dtype), A.shape, tuple(zip(r.tolist(), c.tolist(), v.tolist())), tuple(H), tuple(map(repr, H.list_to_keys(range(len(H))))), repr(dict(H.graph)))


class Session:
    """The graph objects of one state."""

    def __init__(self, spec):
        self.spec = spec
        self.G = spec.nx()
        self.shared = {}
        self.snap = {}

    def graph(self, mode, weight):
        k = (mode, weight)
        if k not in self.shared:
            H = to_ga(self.spec, self.G, weight, permuted=mode == "P")
            self.shared[k] = H
            self.snap[k] = snapshot(H)
        return self.shared[k]

    def unchanged(self):
        for k, H in self.shared.items():
            if snapshot(H) != self.snap[k]:
                return f"graph object {k} was modified: {self.snap[k]} -> {snapshot(H)}"
        if canon(self.G).edges != canon(self.spec.nx()).edges or list(self.G) != list(self.spec.nx()):
            return "the networkx graph was modified"
        return None


def modes_for(o, spec, p, weight, all_modes):
    out = ["S"]
    if spec.n > 1:
        out.append("P")
    if o.w is None and o.reads is None and spec.weighted:
        out.append("W")
    out.append("D")
    return [m for m in out if m in all_modes]


def call(o, sess, mode, p):
    spec, G = sess.spec, sess.G
    f = public(o.name)
    if mode == "D":
        g = lambda G, **kw: f(G, backend="graphblas", **kw)  # noqa: E731
        return limited(lambda: o.run(g, G, spec, p, None))
    w = o.weight(spec, p)
    H = sess.graph(mode, "weight" if mode == "W" else w)
    return limited(lambda: o.run(lambda G, **kw: f(H, **kw), G, spec, p, H))


def reference(o, sess, p):
    if o.ref is not None:
        return limited(lambda: o.ref(sess.G, sess.spec, p))
    return limited(lambda: o.run(public(o.name), sess.G, sess.spec, p, None))


def explain(o, spec, p, mode, ref, got):
    return (
        f"{o.name}({', '.join(f'{k}={v!r}' for k, v in convert(p, spec.K).items())}) [mode {mode}] on "
        f"{'directed' if spec.directed else 'undirected'} nodes={spec.K} edges="
        f"{[(spec.K[i], spec.K[j], w) for i, j, w in spec.edges]}: expected {show(ref)}, got {show(got)}"
    )


def show(x):
    return f"{x[1].__name__}: {x[2]}" if x[0] == "exc" else repr(x[1])[:600]


def run_spec(rep: Report, spec, names, modes="SPWD", level="quick"):
    """All calls of the operations on one state."""
    sess = Session(spec)
    rep.state(spec)
    done = []
    for name in names:
        o = OPS[name]
        if not o.applies(spec):
            continue
        for p in o.menu(spec, level):
            if not o.in_scope(spec, p):
                continue
            ref = reference(o, sess, p)
            rep.n["reference"] += 1
            allowed = "SPWD" if o.modes is None else o.modes if isinstance(o.modes, str) else o.modes(spec, p)
            for mode in modes_for(o, spec, p, o.weight(spec, p), modes):
                if mode not in allowed:
                    continue
                got = call(o, sess, mode, p)
                rep.n["transitions"] += 1
                rep.outcome(name, got[0], repr(got[1])[:300])
                if not agree(o, ref, got, spec, p, sess.G):
                    # Is it this call alone, or what came before it on the shared object?
                    slow = got[:2] == ("exc", TooLong)
                    alone = got if slow else call(o, Session(spec), mode, p)
                    hist = []
                    if mode != "D" and agree(o, ref, alone, spec, p, sess.G):
                        hist = shrink(o, spec, mode, p, ref, list(done))
                    rep.bad(
                        explain(o, spec, p, mode, ref, got),
                        {"spec": spec.to_json(), "op": name, "args": p, "mode": mode, "history": hist},
                    )
                    if slow:
                        raise Enough(rep)
                elif mode != "D":
                    done.append((name, p, mode))
    bad = sess.unchanged()
    if bad:
        # Find the call
        for name, p, mode in done:
            s2 = Session(spec)
            call(OPS[name], s2, mode, p)
            if s2.unchanged():
                rep.bad(f"{name}({p}) {bad}", {"spec": spec.to_json(), "op": name, "args": p, "mode": mode, "history": [], "purity": True})
                break
        else:
            rep.bad(bad, {"spec": spec.to_json(), "op": None, "args": {}, "mode": "S", "history": [[a, b, c] for a, b, c in done], "purity": True})
    rep.n["traces"] += len(sess.shared) + 1
    if spec.edges:
        rep.sample({"graph": spec.to_json(), "operations": list(names), "calls": len(done)}, limit=1)


def shrink(o, spec, mode, p, ref, done):
    """A shortest suffix-free history that still makes the call fail."""

    def fails(h):
        sess = Session(spec)
        for name, q, m in h:
            call(OPS[name], sess, m, q)
        return not agree(o, ref, call(o, sess, mode, p), spec, p, sess.G)

    for d in done:
        if fails([d]):
            return [list(d)]
    return [list(d) for d in done]


def replay(case):
    spec = Spec.from_json(case["spec"])
    sess = Session(spec)
    for name, q, m in case.get("history", []):
        call(OPS[name], sess, m, q)
    if case.get("purity"):
        if case["op"]:
            call(OPS[case["op"]], sess, case["mode"], case["args"])
        return sess.unchanged()
    o = OPS[case["op"]]
    p = case["args"]
    ref = reference(o, sess, p)
    got = call(o, sess, case["mode"], p)
    if agree(o, ref, got, spec, p, sess.G):
        return None
    h = f" after {case['history']}" if case.get("history") else ""
    return explain(o, spec, p, case["mode"], ref, got) + h
