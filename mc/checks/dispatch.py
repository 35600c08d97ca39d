"""Every calling convention of every advertised function gives the networkx answer.

State: a graph and an argument record of a function.  Transition: one call by one convention:
through networkx with the backend named, through networkx with a graphblas graph, directly with
either kind of graph or a matrix; arguments by keyword, by position (split at every place),
the graph by keyword, defaults written out; node collections as any kind of collection.
"""
from __future__ import annotations

import inspect
import itertools

import graphblas as gb
import networkx as nx

import graphblas_algorithms as ga
from graphblas_algorithms import nxapi
from graphblas_algorithms.interface import Dispatcher

from .. import equiv, graphs
from ..canon import canon, same
from ..engine import Report
from ..equiv import explain, ga_class, limited, show, to_ga
from ..graphs import MISSING, Spec
from ..ops import BINARY, NODELIST, NODESET, OPS, agree, convert, implementation, public

ID = "P17"
LEVEL = "model_checking"
RULE = (
    "a state is a graph of the space with one argument record of a function's complete menu; a transition is one call by one "
    "calling convention (who is called, with which kind of graph, which arguments by position, which defaults written out, "
    "which kind of collection), whose outcome was compared with networkx"
)
ASSUMPTIONS = [
    "networkx 3.2.1 without a backend is the reference",
    "a collection of nodes may be a list, tuple, set, frozenset, generator, dict, or networkx node view; where order or "
    "repetition matter (node lists of matrices and paths) only lists and tuples are used",
]


def parameters(name):
    """(graph parameter, [(other parameter, default)]) of the networkx function."""
    ps = list(inspect.signature(nx.utils.backends._registered_algorithms[name].orig_func).parameters.values())
    return ps[0].name, [(p.name, p.default) for p in ps[1:] if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)]


def positional(name, kw, k):
    """Arguments with the first ``k`` of the parameters (after the graph) by position; None if impossible."""
    rest = dict(kw)
    args = []
    for pname, default in parameters(name)[1][:k]:
        if pname in rest:
            args.append(rest.pop(pname))
        elif default is inspect.Parameter.empty:
            return None
        else:
            args.append(default)
    return args, rest


def written_out(name, kw):
    return {**{p: d for p, d in parameters(name)[1] if d is not inspect.Parameter.empty}, **kw}


# A convention is (target, graph kind, style); the callable made of it has the interface f(G, **kw).
TARGETS = ["networkx+backend", "networkx", "direct", "nxapi"]
KINDS = {"networkx+backend": ["nx"], "networkx": ["ga"], "direct": ["nx", "ga"], "nxapi": ["ga"]}


def target(name, t):
    if t.startswith("networkx"):
        return public(name)
    if t == "nxapi":
        return nxapi_function(name)
    return implementation(name)


def nxapi_function(name):
    """The function of the same name in graphblas_algorithms.nxapi (some live in submodules there too)."""
    return getattr(nxapi, name)


def caller(name, t, style):
    f = target(name, t)
    more = {"backend": "graphblas"} if t == "networkx+backend" else {}
    g = parameters(name)[0]

    def call(G, **kw):
        if style == "keyword":
            return f(G, **kw, **more)
        if style == "all keyword":
            return f(**{g: G}, **kw, **more)
        if style == "defaults":
            return f(G, **written_out(name, kw), **more)
        args, rest = positional(name, kw, style)
        return f(G, *args, **rest, **more)

    return call


def styles(name, kw):
    out = ["keyword", "all keyword", "defaults"]
    known = [p for p, _ in parameters(name)[1]]
    last = max([known.index(k) for k in kw if k in known], default=-1) + 1
    for k in range(1, last + 1):
        if positional(name, kw, k) is not None:
            out.append(k)
    return out


def conventions(name, kw):
    for t in TARGETS:
        if t == "nxapi" and not hasattr(nxapi, name):
            continue
        for kind in KINDS[t]:
            for s in styles(name, kw):
                yield t, kind, s


class UserGraph(nx.Graph):
    """Somebody's own class of graphs."""


class UserDiGraph(nx.DiGraph):
    """Somebody's own class of graphs."""


def dress(kind, G):
    """The networkx graph as another kind of networkx graph with the same content."""
    if kind == "subclass":
        H = (UserDiGraph if G.is_directed() else UserGraph)()
        H.add_nodes_from(G.nodes(data=True))
        H.add_edges_from(G.edges(data=True))
        return H
    if kind == "view":
        return nx.subgraph_view(G)
    if kind == "frozen":
        return nx.freeze(G.copy())
    if kind == "reversed":
        return G.reverse().reverse(copy=False) if G.is_directed() else nx.subgraph_view(G)
    return G


DRESSED = [("direct", "subclass"), ("direct", "view"), ("direct", "frozen"), ("direct", "reversed"), ("networkx+backend", "subclass"), ("networkx+backend", "view")]


def as_collection(how, x, G):
    return {
        "tuple": tuple, "set": set, "frozenset": frozenset, "generator": lambda x: (k for k in x),
        "dict": dict.fromkeys, "keys": lambda x: dict.fromkeys(x).keys(), "view": lambda x: G.subgraph(x).nodes,
        "repeated": lambda x: [*x, *x],
    }[how](x)


UNORDERED = {"S", "T", "nbunch1", "nbunch2", "nbunch"}
SUBSET_OF = {"clustering", "triangles", "square_clustering", "generalized_degree", "average_clustering", "reciprocity"}


def collections_of(name, kw):
    """The ways to give the node collections of a call."""
    params = [k for k, v in kw.items() if k in NODESET | NODELIST and isinstance(v, list)]
    if not params or not any(kw[k] for k in params):
        return []
    if all(k in UNORDERED for k in params) or name in SUBSET_OF:
        hows = ["tuple", "set", "frozenset", "generator", "dict", "keys"]
        return hows if any(MISSING in kw[k] for k in params) else [*hows, "view"]
    if name == "bfs_layers":
        return ["tuple", "set", "generator", "keys"] + ([] if any(MISSING in kw[k] for k in params) else ["view"])
    return ["tuple"]


def reference(o, spec, p):
    G = spec.nx()
    if o.ref is not None:
        return limited(lambda: o.ref(G, spec, p))
    return limited(lambda: o.run(public(o.name), G, spec, p, None))


def one(o, spec, p, conv):
    """Outcome of one call by a convention."""
    t, kind, style = conv[:3]
    how = conv[3] if len(conv) > 3 else None
    G = spec.nx()
    f = caller(o.name, t, style)
    w = o.weight(spec, p)
    if kind == "ga":
        H = to_ga(spec, G, w)
    else:
        H = None
        G = dress(kind, G)

    def run(G, **kw):
        if how is not None:
            kw = {k: as_collection(how, v, G) if k in NODESET | NODELIST and isinstance(v, list) else v for k, v in kw.items()}
        return f(G if H is None else H, **kw)

    return limited(lambda: o.run(run, G, spec, p, None))


def applicable(o, spec, p, conv):
    t, kind, style = conv[:3]
    allowed = "SPWD" if o.modes is None else o.modes if isinstance(o.modes, str) else o.modes(spec, p)
    w = o.weight(spec, p)
    if t == "networkx+backend" and "D" not in allowed:
        return False
    # Are there values which no argument names?  A direct call doesn't convert them.
    return not (t == "direct" and kind != "ga" and w is not None and "D" not in allowed and w != p.get(o.w))


def work_calls(names, specs, level):
    rep = Report()
    row = 0
    for spec in specs:
        rep.state(spec)
        for name in names:
            o = OPS[name]
            if not o.applies(spec):
                continue
            for p in o.menu(spec, level):
                if not o.in_scope(spec, p):
                    continue
                ref = reference(o, spec, p)
                rep.state(spec, name, repr(p))
                kw = convert(p, spec.K)
                convs = list(conventions(name, kw))
                for how in collections_of(name, kw):
                    convs.append(("direct", "nx", "keyword", how))
                    convs.append(("networkx", "ga", "keyword", how))
                convs += [(t, kind, "keyword") for t, kind in DRESSED]
                row += 1
                for turn, conv in enumerate(convs):
                    if level == "quick" and spec.n > 2 and (turn + row) % 4:
                        continue  # every fourth on the larger graphs
                    if not applicable(o, spec, p, conv):
                        continue
                    got = one(o, spec, p, conv)
                    rep.n["transitions"] += 1
                    rep.outcome(name, got[0], repr(got[1])[:200])
                    if not agree(o, ref, got, spec, p, spec.nx()):
                        rep.bad(f"{conv}: " + explain(o, spec, p, "-", ref, got),
                                {"kind": "call", "op": name, "spec": spec.to_json(), "p": p, "conv": list(conv)})
                rep.n["traces"] += 1
        rep.sample(spec.to_json(), limit=1)
    return rep


# -------------------------------------------------------------------------- functions of two graphs
PAIR_CONVS = [("networkx+backend", "nx", "nx"), ("networkx", "ga", "ga"), ("direct", "nx", "nx"), ("direct", "ga", "ga"), ("direct", "ga", "nx"), ("direct", "nx", "ga"), ("nxapi", "ga", "ga"), ("direct", "subclass", "view")]


def pair(name, a, b, kw, conv, style):
    t, ka, kb = conv
    G, H = a.nx(), nx.relabel_nodes(b.nx(), {k: f"b{k}" for k in b.K} if name in ("union", "full_join") else {})
    ref = limited(lambda: canon(public(name)(G, H, **kw)))
    X = to_ga(a, G, None) if ka == "ga" else dress(ka, G)
    Y = ga_class(b).from_networkx(H) if kb == "ga" else dress(kb, H)
    more = {"backend": "graphblas"} if t == "networkx+backend" else {}
    f = target(name, t)
    g1, others = parameters(name)
    g2 = others[0][0]
    if style == "positional":
        got = limited(lambda: canon(f(X, Y, *kw.values(), **more)))
    elif style == "keyword":
        got = limited(lambda: canon(f(X, Y, **kw, **more)))
    elif style == "second by keyword":
        got = limited(lambda: canon(f(X, **{g2: Y}, **kw, **more)))
    else:
        got = limited(lambda: canon(f(**{g2: Y, g1: X}, **kw, **more)))
    return ref, got


def pair_agree(ref, got):
    if ref[0] == "exc" and got[0] == "exc":
        return issubclass(got[1], ref[1]) or issubclass(ref[1], got[1])
    return ref[0] == got[0] and same(ref[1], got[1])


def work_pairs(items):
    rep = Report()
    for name, a, b, kw in items:
        rep.state(name, a, b, repr(kw))
        for conv in PAIR_CONVS:
            for style in ("positional", "keyword", "second by keyword", "all keyword"):
                ref, got = pair(name, a, b, kw, conv, style)
                rep.n["transitions"] += 1
                rep.outcome(name, got[0], repr(got[1])[:200])
                if not pair_agree(ref, got):
                    rep.bad(pair_what(name, a, b, kw, conv, style, ref, got),
                            {"kind": "pair", "op": name, "a": a.to_json(), "b": b.to_json(), "kw": kw, "conv": list(conv), "style": style})
        rep.n["traces"] += 1
    return rep


def pair_what(name, a, b, kw, conv, style, ref, got):
    return f"{conv} {style}: {name}({a}, {b}, {kw}): expected {show(ref)}, got {show(got)}"


# ----------------------------------------------------------------------------- what is advertised
def advertised():
    hooks = {"convert_from_nx", "convert_to_nx", "on_start_tests"}
    return sorted(n for n in dir(Dispatcher) if not n.startswith("_") and n not in hooks)


class Recorder:
    """Stands for a function of the backend; records that it was called."""

    def __init__(self):
        self.calls = []

    def __call__(self, *args, **kw):
        self.calls.append((args, kw))
        return "recorded"


def routing(name):
    """networkx calls the advertised function; yields (what, expected, found)."""
    regs = nx.utils.backends._registered_algorithms
    yield f"{name} is a function of networkx", True, name in regs
    if name not in regs:
        return
    yield f"{name} can be called", True, callable(getattr(Dispatcher, name))
    yield f"nxapi.{name} exists if nx.{name} does", True, callable(getattr(nxapi, name, None)) or not hasattr(nx, name)
    yield f"{name} is in the catalogue of this check", True, name in OPS or name in BINARY
    G = nx.DiGraph([(0, 1), (1, 2)])
    H = ga.DiGraph.from_networkx(G)
    two = name in BINARY
    for label, X, more in (("backend named", G, {"backend": "graphblas"}), ("graphblas graph", H, {})):
        rec = Recorder()
        was = Dispatcher.__dict__.get(name)
        try:
            setattr(Dispatcher, name, staticmethod(rec))
            disp = regs[name]
            filler = [0 for p, d in parameters(name)[1] if d is inspect.Parameter.empty]
            if two:
                filler = [X, *filler[1:]]
            r = limited(lambda: disp(X, *filler, **more))
        finally:
            setattr(Dispatcher, name, was)
        yield f"{name}, {label}: goes to the backend", ("ok", "recorded", 1), (r[0], r[1], len(rec.calls))
        if rec.calls:
            args, kw = rec.calls[0]
            gs = [*args, *kw.values()]
            yield f"{name}, {label}: the backend is given graphblas graphs", True, any(isinstance(x, ga.DiGraph) for x in gs) and not any(isinstance(x, nx.Graph) for x in gs)


MINIMUM = [n for n in [*OPS, *BINARY]]


def refusals(name):
    """Arguments no convention accepts."""
    o = OPS.get(name)
    for directed in (False, True):
        G = (nx.DiGraph if directed else nx.Graph)([(0, 1), (1, 2)])
        H = (ga.DiGraph if directed else ga.Graph).from_networkx(G)
        filler = [0 if p not in ("distance", "k") else 1 for p, d in parameters(name)[1] if d is inspect.Parameter.empty]
        for label, f, X, more in (
            ("direct", implementation(name), H, {}),
            ("direct on a networkx graph", implementation(name), G, {}),
            ("networkx", public(name), H, {}),
            ("networkx+backend", public(name), G, {"backend": "graphblas"}),
        ):
            args = [X, *filler[1:]] if name in BINARY else filler
            r = limited(lambda: consume(f(X, *args, no_such_argument=1, **more)))
            yield f"{name} {label}, unknown argument, directed={directed}", "refused", "refused" if r[0] == "exc" and issubclass(r[1], TypeError) or refused_kind(r) else repr(r)[:200]
        for bad in (5, "graph", gb.Vector(int, 3), gb.Matrix(int, 2, 3), [[0, 1], [1, 0]]):
            args = [bad, *filler[1:]] if name in BINARY else filler
            r = limited(lambda: consume(implementation(name)(bad, *args)))
            yield f"{name} direct on {type(bad).__name__}", "refused", "refused" if r[0] == "exc" else repr(r)[:200]
    del o


def refused_kind(r):
    return r[0] == "exc" and issubclass(r[1], (nx.NetworkXNotImplemented, NotImplementedError))


def consume(x):
    return list(x) if hasattr(x, "__next__") else x


def catalogue_items():
    import _nx_graphblas

    for name in MINIMUM:
        yield f"{name} is advertised", True, name in advertised()
    # What networkx tells its users about the backend
    info = _nx_graphblas.get_info()
    yield "name of the backend", "graphblas", info["backend_name"]
    yield "functions in the description of the backend and not in the backend", [], sorted(set(info["functions"]) - set(advertised()))
    yield "functions of the backend which its description leaves out", [], sorted(set(MINIMUM) - set(info["functions"]))
    for name, about in info["functions"].items():
        for param in about.get("extra_parameters", ()):
            param = param.split(":")[0].strip()
            f = getattr(Dispatcher, name, None)
            yield f"{name} has the parameter {param} of its description", True, f is not None and param in inspect.signature(f).parameters


def work_names(names):
    rep = Report()
    for name in names:
        rep.state(name)
        it = catalogue_items() if name == "*" else itertools.chain(routing(name), refusals(name) if name in nx.utils.backends._registered_algorithms else ())
        for what, want, got in it:
            rep.n["transitions"] += 1
            rep.outcome(what, repr(got))
            if want != got:
                rep.bad(f"{what}: expected {want!r}, found {got!r}", {"kind": "name", "name": name, "what": what})
        rep.n["traces"] += 1
    return rep


# ------------------------------------------------------------------------------------------ engine
def specs(tier):
    thorough = tier == "thorough"
    k = 0
    for directed in (False, True):
        base = [s for n in (0, 1, 2) for s in graphs.classes(directed, n, True)]
        three = list(graphs.classes(directed, 3, True))
        base += three if thorough else three[3 :: 5 if not directed else 17]
        for s in base:
            k += 1
            yield s.with_(scheme=graphs.SCHEMES[k % 6])
            if s.edges and (thorough or k % 2):
                yield s.with_(scheme=graphs.SCHEMES[(k + 1) % 6], edges=tuple((i, j, (2 * i + 3 * j) % 4 + 1) for i, j, _ in s.edges))


def pair_items(tier):
    k = 0
    for directed in (False, True):
        base = [s for n in (0, 1, 2) for s in graphs.classes(directed, n, False)] + list(graphs.classes(directed, 3, False))[1 :: 1 if not directed else 5]
        for a, b in itertools.product(base, base):
            for name in BINARY:
                k += 1
                if name in ("fast_could_be_isomorphic", "faster_could_be_isomorphic") and directed:
                    continue
                kws = [{}]
                if name in ("union", "full_join"):
                    kws = [{}, {"rename": ("x", "y")}]
                for kw in kws:
                    yield name, a, b, kw


def tasks(tier):
    out = [("names", [n]) for n in ["*", *advertised()]]
    all_specs = list(specs(tier))
    names = [n for n in OPS if n not in BINARY]
    for s in range(0, len(all_specs)):
        for i in range(0, len(names), 20):
            out.append(("calls", names[i : i + 20], all_specs[s : s + 1], tier))
    ps = list(pair_items(tier))
    out += [("pairs", ps[i : i + 100]) for i in range(0, len(ps), 100)]
    return out


def work(task):
    if task[0] == "names":
        return work_names(task[1])
    if task[0] == "pairs":
        return work_pairs(task[1])
    return work_calls(*task[1:])


def replay(case):
    if case["kind"] == "name":
        name = case["name"]
        it = catalogue_items() if name == "*" else itertools.chain(routing(name), refusals(name))
        for what, want, got in it:
            if what == case["what"] and want != got:
                return f"{what}: expected {want!r}, found {got!r}"
        return None
    if case["kind"] == "pair":
        a, b = Spec.from_json(case["a"]), Spec.from_json(case["b"])
        kw = {k: tuple(v) for k, v in case["kw"].items()}
        ref, got = pair(case["op"], a, b, kw, tuple(case["conv"]), case["style"])
        return None if pair_agree(ref, got) else pair_what(case["op"], a, b, kw, case["conv"], case["style"], ref, got)
    o = OPS[case["op"]]
    spec = Spec.from_json(case["spec"])
    p = equiv.thaw(case["p"]) if hasattr(equiv, "thaw") else case["p"]
    ref = reference(o, spec, p)
    conv = tuple(case["conv"])
    got = one(o, spec, p, conv)
    return None if agree(o, ref, got, spec, p, spec.nx()) else f"{conv}: " + explain(o, spec, p, "-", ref, got)
