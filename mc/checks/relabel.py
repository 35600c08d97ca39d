"""Answers follow a renaming of the nodes and ignore node order and node ids.

State: a graph with a node insertion order, an edge insertion order, an assignment of matrix
positions (ids) to nodes, an order of the key mapping, and a key scheme: the whole orbit of each
graph of the space.  Transition: a call; its answer must agree with the one reference answer of
the orbit (computed once, in terms of the node keys).
"""
from __future__ import annotations

import itertools

import networkx as nx

from .. import equiv, family, graphs
from ..canon import Rows
from ..engine import Report
from ..equiv import explain, ga_class, limited, reference, snapshot
from ..graphs import Spec
from ..ops import BINARY, OPS, agree, public

ID = "P18"
LEVEL = "model_checking"
RULE = (
    "a state is a member of the orbit of a graph of the space: node insertion order x edge insertion order x id of each node x "
    "order of the key mapping x key scheme; a transition is one call of a public function with one record of its complete menu, "
    "compared with the reference answer of the orbit"
)
ASSUMPTIONS = family.ASSUMPTIONS
NAMES = [n for n in OPS if n not in BINARY]


def member(spec, order, ids, keys, flip):
    """A graphblas graph of the orbit: nodes are inserted in ``order``, position p gets id ``ids[p]``, and the
    mapping lists the keys in the order ``keys``."""
    K = spec.K
    G = nx.DiGraph() if spec.directed else nx.Graph()
    G.add_nodes_from(K[p] for p in order)
    for i, j, w in spec.edges[::-1] if flip else spec.edges:
        if flip and not spec.directed:
            i, j = j, i
        G.add_edge(K[i], K[j], **({} if w is None else {"weight": w}))
    return G


def build(spec, order, ids, keys, flip, weight):
    G = member(spec, order, ids, keys, flip)
    H = ga_class(spec).from_networkx(G, weight=weight)
    if ids is None:
        return H
    n = spec.n
    where = {p: k for k, p in enumerate(order)}
    back = {i: where[p] for p, i in enumerate(ids)}  # id -> row of H
    rows = [back[i] for i in range(n)]
    A = H.matrix[rows, rows].new() if n else H.matrix
    return ga_class(spec)(A, key_to_id={spec.K[p]: ids[p] for p in keys})


def run(o, spec, p, H):
    f = public(o.name)
    return limited(lambda: o.run(lambda G, **kw: f(H, **kw), spec.nx(), spec, p, H))


class Sess:
    def __init__(self, spec):
        self.spec, self.G = spec, spec.nx()


def explore(rep, spec, names, members, level, every=1):
    sess = Sess(spec)
    records = []
    for name in names:
        o = OPS[name]
        if o.applies(spec):
            for p in o.menu(spec, level):
                if o.in_scope(spec, p) and (o.modes is None or "P" in (o.modes if isinstance(o.modes, str) else o.modes(spec, p))):
                    records.append((o, p, reference(o, sess, p)))
    rep.n["reference"] += len(records)
    for m, mem in enumerate(members):
        rep.state(spec, mem)
        made = {}
        for k, (o, p, ref) in enumerate(records):
            if every > 1 and (k + m) % every:
                continue
            w = o.weight(spec, p)
            if w not in made:
                H = build(spec, *mem, w)
                made[w] = (H, snapshot(H))
            got = run(o, spec, p, made[w][0])
            rep.n["transitions"] += 1
            rep.outcome(o.name, got[0], repr(got[1])[:200])
            if not agree(o, ref, got, spec, p, sess.G):
                rep.bad(f"nodes inserted in the order {mem[0]}, ids {mem[1]}, mapping order {mem[2]}, edges reversed {mem[3]}: " + explain(o, spec, p, "-", ref, got),
                        {"op": o.name, "spec": spec.to_json(), "args": p, "member": [list(x) if isinstance(x, tuple) else x for x in mem]})
        rep.n["traces"] += 1


def orbit(n, full):
    """Members of the orbit: all of them, or all ids with one insertion order and all insertion orders with one id assignment."""
    perms = list(itertools.permutations(range(n)))
    out = []
    for a, order in enumerate(perms):
        out.append((order, None, None, bool(a % 2)))
        for b, ids in enumerate(perms):
            if not full and (a + b) % max(1, len(perms) // 2):
                continue
            out.append((order, ids, perms[(a + 2 * b) % len(perms)], bool((a + b) % 2)))
    return list(dict.fromkeys(out))


def space(directed, tier):
    thorough = tier == "thorough"
    for n in (1, 2):
        for s in graphs.classes(directed, n, True):
            yield s, True
    for k, s in enumerate(graphs.classes(directed, 3, False)):
        yield s, thorough or not directed or k % 4 == 0
    for k, s in enumerate(graphs.classes(directed, 3, True)):
        if s.loops and (thorough or k % (3 if not directed else 17) == 0):
            yield s, False
    for k, s in enumerate(graphs.classes(directed, 4, False)):
        if thorough and k % (1 if not directed else 11) == 0:
            yield s, False


def tasks(tier):
    out = []
    k = 0
    for directed in (False, True):
        for s, full in space(directed, tier):
            k += 1
            specs = [s.with_(scheme=graphs.SCHEMES[k % 6])]
            if s.edges:
                # values which tell the edges apart
                specs.append(s.with_(scheme=graphs.SCHEMES[(k + 2) % 6], edges=tuple((i, j, q + 1) for q, (i, j, _) in enumerate(s.edges))))
            for spec in specs:
                if tier == "thorough" or not spec.weighted or k % 2:
                    members = orbit(s.n, full)
                    every = 1 if tier == "thorough" or s.n < 3 else 3
                    for i in range(0, len(members), 14):
                        out.append((spec, members[i : i + 14], tier, every))
    # Names: every key scheme, one insertion order
    for directed in (False, True):
        for s in graphs.classes(directed, 3, False):
            for scheme in graphs.SCHEMES:
                out.append((s.with_(scheme=scheme), [((0, 1, 2), None, None, False)], tier, 1 if tier == "thorough" else 2))
    return out


def work(task):
    spec, members, level, every = task
    rep = Report()
    explore(rep, spec, NAMES, members, "quick", every)
    if len(spec.edges) > 2:
        rep.sample({"graph": spec.to_json(), "members": [repr(m) for m in members[:3]]}, limit=1)
    return rep


def replay(case):
    spec = Spec.from_json(case["spec"])
    o, p = OPS[case["op"]], case["args"]
    order, ids, keys, flip = (tuple(x) if isinstance(x, list) else x for x in case["member"])
    sess = Sess(spec)
    ref = reference(o, sess, p)
    got = run(o, spec, p, build(spec, order, ids, keys, flip, o.weight(spec, p)))
    return None if agree(o, ref, got, spec, p, sess.G) else explain(o, spec, p, "-", ref, got)


_ = equiv, Rows
