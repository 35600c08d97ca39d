"""Answers do not depend on earlier calls, and results do not share state with the graph.

State: one graphblas graph object with whatever it remembers (reached by a sequence of calls).
Transitions: ("call", operation, arguments) -- call a public function and compare its answer with
the answer on a fresh object -- and ("spoil", operation, arguments) -- call it and then overwrite
everything in the object that it returned.  Breadth-first search from the fresh object, replaying
every history on a new object; states in which the object remembers the same are merged.
"""
from __future__ import annotations

import copy
import types

import graphblas as gb
import networkx as nx
import numpy as np

from .. import graphs
from ..canon import canon
from ..engine import Enough, Report
from ..equiv import TooLong, limited, snapshot, to_ga
from ..graphs import Spec
from ..ops import OPS, agree, convert, public

ID = "P03"
LEVEL = "model_checking"
RULE = (
    "breadth-first search over sequences of public calls on one graph object (and of calls followed by "
    "overwriting the result), merging states in which the object remembers the same; a transition is one "
    "call whose answer was compared with the answer on a fresh object, after which the adjacency, the "
    "keys and the arguments were compared with their snapshots"
)
ASSUMPTIONS = [
    "the answer on a fresh object is taken as right here (the other checks compare it with the reference)",
    "states are merged by the remembered derived properties of the object, where they can be observed",
]


def shape(p):
    """Argument records of the same shape exercise the same code."""
    return tuple(sorted((k, type(v).__name__, len(v) if isinstance(v, list) else None if not isinstance(v, (bool, str)) else v) for k, v in p.items()))


def alphabet(spec, per_op):
    """A few argument records of each operation, of different shapes."""
    out = []
    for name, o in OPS.items():
        if not o.applies(spec):
            continue
        picked = {}
        for p in o.menu(spec, "quick"):
            if o.in_scope(spec, p) and o.weight(spec, p) == ("weight" if spec.weighted else None) or o.w is None or p.get(o.w) is None:
                if o.in_scope(spec, p):
                    picked.setdefault(shape(p), p)
        ps = list(picked.values())
        if len(ps) > per_op:
            ps = [ps[i * (len(ps) - 1) // (per_op - 1)] for i in range(per_op)] if per_op > 1 else [ps[-1]]
        for p in ps:
            out.append((name, p))
    return out


def spoil(x, depth=0):
    """Overwrite whatever is mutable in a result."""
    if depth > 4:
        return
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x.fill(77) if x.dtype != object else None
    elif isinstance(x, gb.Matrix):
        if x.nrows and x.ncols:
            x[0, 0] = 1
        x.clear()
    elif isinstance(x, gb.Vector):
        if x.size:
            x[0] = 1
        x.clear()
    elif isinstance(x, gb.Scalar):
        x.clear()
    elif hasattr(x, "toarray") and hasattr(x, "data"):
        x.data.fill(77)
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, depth + 1)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            spoil(v, depth + 1)
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            spoil(v, depth + 1)
    elif isinstance(x, types.GeneratorType):
        for v in x:
            spoil(v, depth + 1)
    elif isinstance(x, (set,)):
        x.clear()
    elif hasattr(x, "__networkx_backend__") or isinstance(x, nx.Graph):
        return
    elif hasattr(x, "__setitem__"):  # NodeMap and the like
        ks = list(x)
        for k in ks:
            try:
                v = x[k]
            except KeyError:
                continue
            if hasattr(v, "__setitem__") or isinstance(v, np.ndarray):
                spoil(v, depth + 1)
            elif isinstance(v, (bool, int, float)):
                try:
                    x[k] = 0
                except Exception:  # noqa: BLE001, S110
                    pass
            else:  # a node
                try:
                    x[k] = ks[0]
                except Exception:  # noqa: BLE001, S110
                    pass
        for k in ks[1:]:
            try:
                del x[k]
            except Exception:  # noqa: BLE001, S110
                pass
    elif hasattr(x, "discard") and hasattr(x, "add"):
        for k in list(x):
            x.discard(k)


def use_graph(R):
    """Make a returned graph remember things."""
    for f in ("triangles", "transitivity") if not R.is_directed() else ("overall_reciprocity",):
        limited(lambda: canon(public(f)(R)))
    for name in ("offdiag", "AT", "L-", "U-", "diag", "has_self_edges", "plus_rowwise-"):
        limited(lambda: R.get_property(name))


class Run:
    """One graph object and what is done with it."""

    def __init__(self, spec):
        self.spec = spec
        self.G = spec.nx()
        self.H = to_ga(spec, self.G, "weight" if spec.weighted else None, permuted=True)
        # Of another object: taking it makes an object remember things
        self.snap = snapshot(to_ga(spec, self.G, "weight" if spec.weighted else None, permuted=True))
        self.note = None

    def step(self, kind, name, p):
        """The canonical outcome of one transition."""
        o = OPS[name]
        f = public(name)
        H = self.H

        def g(G, **kw):
            before = copy.deepcopy(kw)
            x = f(H, **kw)
            if isinstance(x, types.GeneratorType) or (hasattr(x, "__next__") and not hasattr(x, "__len__")):
                x = list(x)
            if repr(kw) != repr(before):
                self.note = f"{name} modified its argument: {before} -> {kw}"
            self.last = x
            return x

        self.last = None
        got = limited(lambda: o.run(g, self.G, self.spec, p, H))
        if kind == "spoil" and self.last is not None:
            x = self.last
            if getattr(x, "__networkx_backend__", None) and not isinstance(x, nx.Graph):
                use_graph(x)
                if p.get("copy", True):  # reverse(copy=False) may be a view
                    x.matrix.clear()
            else:
                spoil(x)
        return got

    def changed(self):
        if self.note:
            return self.note
        now = snapshot(self.H)
        if now != self.snap:
            return f"the graph was modified: {self.snap} -> {now}"
        if canon(self.G).edges != canon(self.spec.nx()).edges:
            return "the networkx graph was modified"
        return None

    def key(self, hist):
        cache = getattr(self.H, "_cache", None)
        if not isinstance(cache, dict):
            return tuple((k, n, repr(p)) for k, n, p in hist)
        return tuple(sorted((str(k), repr(canon(v)), str(getattr(v, "dtype", ""))) for k, v in cache.items()))


def play(spec, hist):
    r = Run(spec)
    got = None
    for kind, name, p in hist:
        got = r.step(kind, name, p)
    return r, got


def verdict(spec, hist, fresh):
    r, got = play(spec, hist)
    kind, name, p = hist[-1]
    bad = r.changed()
    if bad:
        return r, f"after {show(hist)}: {bad}"
    if not equal(OPS[name], fresh, got, spec, p, r.G):
        want = fresh[1] if fresh[0] == "ok" else f"{fresh[1].__name__}"
        have = got[1] if got[0] == "ok" else f"{got[1].__name__}: {got[2]}"
        return r, (
            f"{name}({convert(p, spec.K)}) after {show(hist[:-1])} on {'directed' if spec.directed else 'undirected'} "
            f"{spec.edges} (keys {spec.K}) answers {have!r:.300}, on a fresh object {want!r:.300}"
        )
    return r, None


def equal(o, a, b, spec, p, G):
    if a[0] == "exc" and b[0] == "exc":
        return a[1] is b[1] or agree(o, a, b, spec, p, G)
    return agree(o, a, b, spec, p, G)


def show(hist):
    return [f"{'overwriting the result of ' if k == 'spoil' else ''}{n}({p})" for k, n, p in hist]


def graph_space(tier):
    P = lambda d, n, *e: Spec(d, n, e, "mix")  # noqa: E731
    S = [
        P(False, 4, (0, 1, None), (1, 2, None), (0, 2, None), (2, 3, None)),
        P(True, 4, (0, 1, None), (1, 0, None), (1, 2, None), (2, 3, None), (0, 2, None)),
        P(False, 4, (0, 1, 2), (1, 2, 3), (0, 2, 1), (2, 2, 4)),
        P(True, 4, (0, 1, 2), (1, 0, 3), (1, 2, 1), (2, 0, 5), (3, 3, 2)),
        P(True, 3, (0, 1, -1), (1, 2, 4), (0, 0, 2)),
        P(False, 3, (0, 1, 2), (1, 2, 2), (0, 2, 2)),
        P(True, 3, (0, 1, 0.5), (1, 0, 2.0), (1, 2, 1.5)),
    ]
    if tier == "thorough":
        S += [P(d, 3, *s.edges) for d in (False, True) for s in graphs.classes(d, 3, True)]
    return S


def letters_of(spec, per_op):
    skip = "link" if spec.weighted and any(w < 0 for *_, w in spec.edges) else None  # no convergence
    return [a for a in alphabet(spec, per_op) if OPS[a[0]].fam != skip]


def first_states(spec, alpha):
    """One history for each state that one call leads to."""
    seen = {}
    for a in alpha:
        for kind in ("call", "spoil"):
            h = [(kind, *a)]
            r, _ = play(spec, h)
            if r.changed():
                continue
            if not isinstance(getattr(r.H, "_cache", None), dict):
                # States can't be told apart: one state per operation.
                seen.setdefault(a[0], h)
            else:
                seen.setdefault(r.key(h), h)
    return list(seen.values())


def tasks(tier):
    out = []
    thorough = tier == "thorough"
    for k, spec in enumerate(graph_space(tier)):
        per_op = 3
        alpha = letters_of(spec, per_op)
        out += [(spec, per_op, [], alpha[i : i + 24], 0) for i in range(0, len(alpha), 24)]
        deep = 0 if k > 5 else 2 if thorough else k < 2
        for h in first_states(spec, alpha):
            out.append((spec, per_op, h, alpha, deep))
    for spec in sweep_space(tier):
        out.append(("sweep", spec))
    return out


def sweep_space(tier):
    """Graphs on which the complete menus of all the operations are run, forwards and backwards, on one object."""
    thorough = tier == "thorough"
    out = []
    for d in (False, True):
        for k, s in enumerate(graphs.classes(d, 3, True)):
            if not thorough and (k % (6 if not d else 26) != 5):
                continue
            out.append(s.with_(scheme="mix"))
            if s.edges:
                out.append(s.with_(scheme="rev", edges=tuple((i, j, 1 + (2 * i + j) % 3) for i, j, _ in s.edges)))
    P = lambda d, n, *e: Spec(d, n, e, "str")  # noqa: E731
    out += [
        P(False, 4, (0, 1, 2), (1, 2, 3), (0, 2, 1), (2, 3, 1), (3, 3, 4)),
        P(False, 4, (0, 1, None), (1, 2, None), (0, 2, None), (2, 3, None)),
        P(True, 4, (0, 1, 2), (1, 0, 3), (1, 2, 1), (2, 0, 5), (2, 3, 2)),
        P(True, 3, (0, 1, 2), (1, 0, 2), (1, 2, 2), (2, 2, 2)),
        P(True, 4, (0, 1, 0.5), (1, 0, 2.0), (1, 2, 1.5), (3, 1, 1.0), (2, 2, 2.5)),
        P(False, 4, (0, 1, 0.5), (1, 2, 2.0), (0, 2, 1.5), (3, 1, 1.0)),
        P(False, 3, (0, 1, 2.0), (1, 2, 2.0)),
    ]
    return out


def sweep_letters(spec):
    return [(n, p) for n, o in OPS.items() if o.applies(spec) for p in o.menu(spec, "quick") if o.in_scope(spec, p)]


def sweep(spec):
    rep = Report()
    letters = sweep_letters(spec)
    skip = spec.weighted and any(w < 0 for *_, w in spec.edges)
    letters = [a for a in letters if not (skip and OPS[a[0]].fam == "link")]
    fresh = [play(spec, [("call", *a)])[1] for a in letters]
    for order in (range(len(letters)), range(len(letters) - 1, -1, -1)):
        r = Run(spec)
        done = []
        for i in order:
            name, p = letters[i]
            got = r.step("call", name, p)
            rep.n["transitions"] += 1
            if not equal(OPS[name], fresh[i], got, spec, p, r.G):
                last = ("call", name, p)
                for h in [[d] for d in done] + [list(done)]:
                    _, bad = verdict(spec, [*h, last], fresh[i])
                    if bad:
                        rep.bad(bad, {"spec": spec.to_json(), "history": [list(x) for x in [*h, last]]})
                        break
                raise Enough(rep)
            done.append(("call", name, p))
        bad = r.changed()
        if bad:
            for a in letters:
                _, bad = verdict(spec, [("call", *a)], play(spec, [("call", *a)])[1])
                if bad:
                    rep.bad(bad, {"spec": spec.to_json(), "history": [["call", *a]]})
                    break
        rep.state(spec, r.key([]))
        rep.n["traces"] += 1
    return rep


def work(task):
    """Explore every letter after the history, and ``deep`` levels below the new states."""
    if task[0] == "sweep":
        return sweep(task[1])
    spec, per_op, start, alpha, deep = task
    rep = Report()
    fresh = {}

    def alone(name, p):
        k = (name, repr(p))
        if k not in fresh:
            fresh[k] = play(spec, [("call", name, p)])[1]
        return fresh[k]

    seen = set()
    frontier = [list(start)]
    for level in range(deep + 1):
        nxt = []
        for hist in frontier:
            for a in alpha if level == 0 else letters_of(spec, 1):
                for kind in ("call", "spoil"):
                    if kind == "spoil" and level == deep and deep:
                        continue  # nothing follows that could notice it
                    h = [*hist, (kind, *a)]
                    r, bad = verdict(spec, h, alone(*a))
                    rep.n["transitions"] += 1
                    rep.outcome(spec, a[0], repr(alone(*a))[:300])
                    if bad:
                        rep.bad(bad, {"spec": spec.to_json(), "history": [list(x) for x in h]})
                        if "TooLong" in bad:
                            raise Enough(rep)
                        continue
                    k = r.key(h)
                    if k not in seen:
                        seen.add(k)
                        rep.state(spec, k)
                        nxt.append(h)
        if not isinstance(getattr(r.H, "_cache", None), dict):
            break
        frontier = nxt
        rep.n["traces"] += len(nxt)
    rep.sample({"graph": spec.to_json(), "after": show(start), "calls": len(alpha), "depth": len(start) + deep + 1, "states": len(seen)}, limit=1)
    return rep


def replay(case):
    spec = Spec.from_json(case["spec"])
    hist = [(k, n, p) for k, n, p in case["history"]]
    for i in range(1, len(hist) + 1):
        _, n, p = hist[i - 1]
        fresh = play(spec, [("call", n, p)])[1]
        _, bad = verdict(spec, hist[:i], fresh)
        if bad:
            return bad
    return None
