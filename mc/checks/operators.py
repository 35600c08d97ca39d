"""Complement, reverse, ego graphs, and the operators on two graphs."""
from __future__ import annotations

import itertools

import networkx as nx

import graphblas_algorithms as ga

from .. import equiv, family, graphs
from ..canon import canon, same
from ..engine import Report
from ..equiv import ga_class, limited, snapshot
from ..family import ASSUMPTIONS, batch, names, rotate, small, structured, weighted
from ..graphs import Spec
from ..ops import public

ID = "P14"
LEVEL = "model_checking"
RULE = family.RULE + (
    "; for operators on two graphs a state is a pair of graphs with a key pattern (same keys, same keys in "
    "another order, disjoint, overlapping, contained), and every graph returned is used as the argument of "
    "further calls"
)

SET_OPS = ["compose", "difference", "intersection", "symmetric_difference"]
JOIN_OPS = ["union", "full_join"]
ISO = ["fast_could_be_isomorphic", "faster_could_be_isomorphic"]
RENAMES = [(), ("a-", "b-"), ("a-",), (None, "b-"), ("x", "x")]
PATTERNS = ["same", "order", "disjoint", "overlap", "shifted"]


def second_keys(pattern, n, m):
    """Keys of the second graph; the keys of the first are "k0" ... f"k{n-1}"."""
    k = [f"k{i}" for i in range(max(n, m) + m + 1)]
    return {
        "same": k[:m],
        "order": k[:m][::-1],
        "disjoint": k[n : n + m],
        "overlap": k[n - 1 : n - 1 + m][::-1] if n else k[:m],
        "shifted": k[1 : m + 1],
    }[pattern]


def build(directed, n, edges, keys):
    G = nx.DiGraph() if directed else nx.Graph()
    G.add_nodes_from(keys)
    for i, j, w in edges:
        if w is None:
            G.add_edge(keys[i], keys[j])
        else:
            G.add_edge(keys[i], keys[j], weight=w)
    return G


def convert(G, spec, mode):
    """The graphblas graph, or G itself for dispatching."""
    if mode == "D":
        return G
    H = ga_class(spec).from_networkx(G, weight="weight" if spec.weighted else None)
    n = spec.n
    if mode == "P" and n > 1:
        order = [(i + 1) % n for i in range(n)][::-1]
        A = H.matrix[order, order].new()
        pos = {old: new for new, old in enumerate(order)}
        H = ga_class(spec)(A, key_to_id={k: pos[i] for i, k in enumerate(G)})
    return H


def calls(a, b):
    """Every call on a pair."""
    for name in SET_OPS:
        if mixed(a, b) and "difference" in name:
            continue  # networkx doesn't check this
        yield name, {}
    for name in JOIN_OPS:
        for r in RENAMES:
            if name == "full_join" and len(r) == 1:
                continue  # networkx requires both or neither
            yield name, {"rename": r} if r else {}
    yield "disjoint_union", {}
    if a.directed == b.directed and (a.directed or not (a.loops or b.loops)):
        for name in ISO[a.directed :]:  # the first is for undirected graphs
            yield name, {}


def probes(R):
    """Use a returned graph: what other functions say about it."""
    out = [len(R), R.is_directed(), R.is_multigraph(), frozenset(R), R.number_of_nodes() if hasattr(R, "number_of_nodes") else len(R)]
    ks = sorted(R, key=repr)
    out.append([k in R for k in ks] + ["no such node" in R])
    if ks:
        out.append(canon(public("adjacency_matrix")(R, nodelist=ks, weight=None)))
    out.append(public("number_of_isolates")(R))
    out.append([canon(public("descendants")(R, k)) for k in ks])
    out.append(canon(public("complement")(R)))
    out.append(canon(public("compose")(R, R)))
    return out


def mixed(ra, rb):
    return ra.directed != rb.directed


def run_pair(a, b, pattern, mode, name, kw, objs=None):
    """(reference, answer, changed) of one call."""
    ka = [f"k{i}" for i in range(a.n)]
    kb = second_keys(pattern, a.n, b.n)
    G, H = build(a.directed, a.n, a.edges, ka), build(b.directed, b.n, b.edges, kb)
    f = public(name)

    def both(x, y, **more):
        r = f(x, y, **kw, **more)
        if isinstance(r, bool):
            return r
        return [canon(r), probes(r)]

    ref = limited(lambda: both(G, H))
    if mode == "D":
        return ref, limited(lambda: both(G, H, backend="graphblas")), None
    X, Y = objs or (convert(G, a, "S" if mode == "M" else mode), convert(H, b, "P" if mode == "M" else mode))
    sx, sy = snapshot(X), snapshot(Y)
    got = limited(lambda: both(X, Y))
    changed = None
    if snapshot(X) != sx or snapshot(Y) != sy:
        changed = "an argument was modified"
    return ref, got, changed


def explain(a, b, pattern, mode, name, kw, ref, got):
    kb = second_keys(pattern, a.n, b.n)
    return (
        f"{name}({'Di' if a.directed else ''}Graph nodes=k0..k{a.n - 1} edges={a.edges}, "
        f"{'Di' if b.directed else ''}Graph nodes={kb} edges={b.edges}, {kw}) [mode {mode}]: "
        f"expected {equiv.show(ref)}, got {equiv.show(got)}"
    )


def agree(ref, got):
    if ref[0] == "exc" and got[0] == "exc":
        return issubclass(got[1], ref[1]) or issubclass(ref[1], got[1])
    return ref[0] == got[0] and same(ref[1], got[1])


def skip(name, a, b, mode):
    # disjoint_union numbers the nodes in the order of the graph.
    return name == "disjoint_union" and mode in "PM"


def work_pairs(items):
    rep = Report()
    for a, b, pattern, modes in items:
        rep.state(a, b, pattern)
        for mode in modes:
            for name, kw in calls(a, b):
                if skip(name, a, b, mode):
                    continue
                ref, got, changed = run_pair(a, b, pattern, mode, name, kw)
                rep.n["transitions"] += 1
                rep.outcome(name, got[0], repr(got[1])[:400])
                if changed or not agree(ref, got):
                    case = {"a": a.to_json(), "b": b.to_json(), "pattern": pattern, "mode": mode, "op": name, "kw": kw}
                    rep.bad(changed or explain(a, b, pattern, mode, name, kw, ref, got), case)
            rep.n["traces"] += 1
        if a.edges and b.edges:
            rep.sample({"first": a.to_json(), "second": b.to_json(), "keys": pattern}, limit=1)
    return rep


def work(task):
    if task[0] == "pairs":
        return work_pairs(task[1])
    return family.work(task)


def replay(case):
    if "pattern" not in case:
        return equiv.replay(case)
    a, b = Spec.from_json(case["a"]), Spec.from_json(case["b"])
    kw = {k: tuple(v) if isinstance(v, list) else v for k, v in case["kw"].items()}
    ref, got, changed = run_pair(a, b, case["pattern"], case["mode"], case["op"], kw)
    if changed:
        return changed
    return None if agree(ref, got) else explain(a, b, case["pattern"], case["mode"], case["op"], kw, ref, got)


def values(spec, base):
    return spec.with_(edges=tuple((i, j, base + k if k != 1 else 0) for k, (i, j, _) in enumerate(spec.edges)))


def pairs(tier):
    thorough = tier == "thorough"
    k = 0
    for d in (False, True):
        two = [s for n in (0, 1, 2) for s in graphs.labelled(d, n, True)]
        three = list(graphs.classes(d, 3, d or thorough or True))
        other = list(graphs.labelled(d, 3, False)) if not d or thorough else list(graphs.classes(d, 3, False))
        sets = [(two, two), (three, [s for s in two if s.n == 2] if not d else two[3::3]), (three[:: 1 if thorough else 3], other)]
        if thorough:
            sets.append(([s for s in two if s.n == 2], three))
            sets.append((list(graphs.classes(d, 4, False))[:: 1 if not d else 7], list(graphs.classes(d, 4, False))[:: 1 if not d else 5]))
        for A, B in sets:
            for x, y in itertools.product(A, B):
                for p in PATTERNS:
                    k += 1
                    if not thorough and (x.n >= 3) and k % 3:
                        continue
                    m = "S" if thorough else ("S", "P", "D", "M")[k % 4]
                    if k % 2:
                        x2, y2 = values(x, 2), values(y, 20)
                    else:
                        x2, y2 = x, y
                    yield x2, y2, p, ("S", "P", "D", "M") if thorough else (m,)
    # one directed, the other undirected
    for x in graphs.classes(True, 2, True):
        for y in graphs.classes(False, 2, True):
            for p in PATTERNS:
                yield x, y, p, ("S",)
                yield y, x, p, ("S",)


def space(directed, tier):
    thorough = tier == "thorough"
    yield from small(directed, tier, n5=thorough)
    yield from weighted(directed, tier, tiny=(1, 2, 0), three=(1, 3), edges=2 + thorough, four=())
    yield from family.uniform(directed, tier, values=(2, 0.5, 0))
    yield from structured(directed, (5, 6, 7) if thorough else (5, 6))


def tasks(tier):
    out = []
    for directed in (False, True):
        out += batch(rotate(dict.fromkeys(space(directed, tier))), names("operators"), 6, tier)
    ps = list(pairs(tier))
    out += [("pairs", ps[i : i + 40]) for i in range(0, len(ps), 40)]
    return out
