"""Node-keyed containers behave as the Python mappings and sets with the same content.

State: one container (its content, whether it was looked at before, and the last operation).
Transition: one mutating method call on the real container and on a Python dict/set model, after
which every observer is compared.  Breadth-first search over sequences from the initial contents,
replaying every sequence on a new container, to the fixpoint of (content, looked at, last
operation).  Keys which are not nodes are part of the alphabet.
"""
from __future__ import annotations

import itertools
import json

import graphblas as gb
import networkx as nx

import graphblas_algorithms as ga
from graphblas_algorithms.classes.nodemap import NodeMap, NodeNodeMap, VectorMap, VectorNodeMap
from graphblas_algorithms.classes.nodeset import NodeSet

from ..engine import Report
from ..equiv import limited

ID = "P15"
LEVEL = "model_checking"
RULE = (
    "container kind x value dtype x key universe; breadth-first search over mutating method calls with a "
    "complete argument alphabet (including keys that are not nodes), every history replayed on a new "
    "container and on a dict/set model; a transition is one call whose return value or exception and whose "
    "resulting content, seen through every observer, were compared with the model"
)
ASSUMPTIONS = [
    "the iteration order of the containers is unspecified; popitem and pop of a set may take any element",
    "a mapping with a fill value has a value for every node: deleting a value reverts it to the fill value, "
    "and clear drops the fill value; None is not a value",
    "rows of nested mappings are copies; an empty row is the same as no row",
]

KEYSETS = {
    "mixed": (["a", 7, ("t",)], [2, 0, 1]),
    "ints": ([0, 1, 2], [0, 1, 2]),
    "shift": ([1, 2, 0], [0, 1, 2]),
}
BAD = "zz"  # not a node


def key_to_id(ks):
    return dict(zip(*KEYSETS[ks]))


# ------------------------------------------------------------------------------- the systems
class Flat:
    """NodeMap (and VectorMap when ``plain``)."""

    def __init__(self, ks, dtype, fill, keyed, plain=False, values=(1, 2)):
        self.cfg = (ks, dtype, fill, keyed, plain)
        self.keys = KEYSETS[ks][0]
        self.k2i = key_to_id(ks)
        self.dtype, self.fill, self.keyed, self.plain = dtype, fill, keyed, plain
        self.values = list(self.keys[:2]) if keyed else list(values)
        self.fill_value = (self.keys[2] if keyed else fill) if fill is not None else None
        if keyed:
            self.dtype = "INT64"

    def initial(self):
        k = self.keys
        yield {}
        yield {k[0]: self.values[0], k[2]: self.values[1]}
        yield {k[1]: self.values[1], k[0]: self.values[1], k[2]: self.values[1]}

    def vector(self, content):
        idx = [self.k2i[k] for k in content]
        vals = [self.k2i[v] if self.keyed else v for v in content.values()]
        return gb.Vector.from_coo(idx, vals if vals else [], dtype=self.dtype, size=len(self.keys))

    def real(self, content, filled=True):
        v = self.vector(content)
        if self.plain:
            return VectorMap(v)
        return NodeMap(v, fill_value=self.fill_value if filled else None, values_are_keys=self.keyed, key_to_id=self.k2i)

    def model(self, content):
        return Total(content, self.fill_value, self.keys)

    def alphabet(self):
        out = []
        unknown = [] if self.plain else [BAD]
        for k in [*self.keys, *unknown]:
            for v in self.values:
                out.append(("set", k, v))
            out += [("del", k), ("pop", k), ("popd", k, "dflt"), ("setdefault", k, self.values[-1])]
        k = self.keys
        out += [
            ("popitem",), ("clear",), ("look",),
            ("update", {k[0]: self.values[1], k[1]: self.values[0]}), ("update", {}),
            ("updatepairs", [[k[2], self.values[0]], [k[2], self.values[1]]]),
            ("bulk", [self.values[0], self.values[0], self.values[0]]),
        ]
        if unknown:
            out.append(("update", {BAD: self.values[0]}))
        if self.keyed:
            out.append(("set", k[0], BAD))
        return out

    def apply(self, c, op):
        kind, *a = op
        if kind == "set":
            c[a[0]] = a[1]
        elif kind == "del":
            del c[a[0]]
        elif kind == "pop":
            return c.pop(a[0])
        elif kind == "popd":
            return c.pop(a[0], a[1])
        elif kind == "setdefault":
            return c.setdefault(a[0], a[1])
        elif kind == "popitem":
            return c.popitem()
        elif kind == "clear":
            c.clear()
        elif kind == "look":
            return len(c), [k in c for k in self.keys]
        elif kind == "update":
            c.update(a[0])
        elif kind == "updatepairs":
            c.update([tuple(x) for x in a[0]])
        elif kind == "bulk":
            for k, v in zip(self.keys, a[0]):
                c[k] = v
        return None

    def observe(self, c, m):
        """Every observer; yields (what, model, container)."""
        want = m.view()
        keys = [*self.keys, *([] if self.plain else [BAD])]
        yield "len", len(want), len(c)
        yield "bool", bool(want), bool(c)
        ks = list(c)
        yield "iteration", sorted(want, key=repr), sorted(ks, key=repr)
        yield "keys", set(want.keys()), set(c.keys())
        yield "items", want, dict(c.items())
        yield "dict", want, dict(c)
        yield "values", sorted(map(repr, map(num, want.values()))), sorted(map(repr, map(num, c.values())))
        for k in keys:
            yield f"{k!r} in", k in want, k in c
            yield f"get({k!r})", want.get(k), c.get(k)
            yield f"get({k!r}, default)", want.get(k, "dflt"), c.get(k, "dflt")
            yield f"[{k!r}]", outcome(lambda: want[k]), outcome(lambda: c[k])
        if not self.plain:
            yield "unhashable-free in", False, None in c
        yield "== dict", True, c == want
        yield "== reversed dict", True, c == dict(reversed(list(want.items())))
        yield "!= dict", False, c != want
        other = dict(want)
        other[keys[0]] = self.values[0] if want.get(keys[0]) != self.values[0] else self.values[1]
        yield "== other dict", False, c == other
        for k in list(want)[:2]:
            less = {a: b for a, b in want.items() if a != k}
            yield f"== dict without {k!r}", False, c == less
        if self.fill is None or m.fill is None:
            yield "== same kind", True, c == self.real(m.content, filled=False)
            if len(m.content) < 3:
                yield "== other of the same kind", False, c == self.real({**m.content, [k for k in self.keys if k not in m.content][0]: self.values[0]}, filled=False)
        # Walk the container while only reading it.
        yield "nested reads", {k: want[k] for k in want}, {k: c[k] for k in c}


class Total:
    """The dict model, with an optional fill value."""

    def __init__(self, content, fill, keys):
        self.content, self.fill, self.keys = dict(content), fill, keys

    def view(self):
        if self.fill is None:
            return dict(self.content)
        return {k: self.content.get(k, self.fill) for k in self.keys}

    def __len__(self):
        return len(self.view())

    def __contains__(self, k):
        return k in self.view()

    def __setitem__(self, k, v):
        if k not in self.keys:
            raise KeyError(k)
        if v == BAD:
            raise KeyError(v)
        self.content[k] = v

    def __delitem__(self, k):
        if k not in self.keys or (self.fill is None and k not in self.content):
            raise KeyError(k)
        self.content.pop(k, None)

    def pop(self, k, *default):
        v = self.view()
        if k not in v:
            if default:
                return default[0]
            raise KeyError(k)
        self.content.pop(k, None)
        return v[k]

    def setdefault(self, k, v):
        if k not in self.keys:
            raise KeyError(k)
        w = self.view()
        if k in w:
            return w[k]
        self.content[k] = v
        return v

    def popitem(self):
        if not self.content:
            raise KeyError
        return "any", dict(self.content)

    def clear(self):
        self.content.clear()
        self.fill = None

    def update(self, d):
        for k, v in d.items() if isinstance(d, dict) else d:
            self[k] = v


class Nested:
    """NodeNodeMap (and VectorNodeMap when ``plain``)."""

    def __init__(self, ks, dtype, fill, keyed, plain=False):
        self.cfg = (ks, dtype, fill, keyed, plain)
        self.keys = KEYSETS[ks][0]
        self.k2i = key_to_id(ks)
        self.dtype, self.fill, self.keyed, self.plain = "INT64" if keyed else dtype, fill, keyed, plain
        a, b = self.keys[:2]
        v, w = (a, b) if keyed else (1, 2)
        if plain:
            self.rows = [{0: v}, {1: w, 2: v}]
        else:
            self.rows = [{a: v}, {b: w, self.keys[2]: v}]
        self.fill_value = (self.keys[2] if keyed else fill) if fill is not None else None

    def initial(self):
        k = self.keys
        yield {}
        yield {k[0]: self.rows[0], k[2]: self.rows[1]}
        yield {k[1]: self.rows[1]}

    def col(self, k):
        return k if self.plain else self.k2i[k]

    def matrix(self, content):
        r, c, v = [], [], []
        for k, row in content.items():
            for j, x in row.items():
                r.append(self.k2i[k]), c.append(self.col(j)), v.append(self.k2i[x] if self.keyed else x)
        n = len(self.keys)
        return gb.Matrix.from_coo(r, c, v, dtype=self.dtype, nrows=n, ncols=n)

    def real(self, content, filled=True):
        if self.plain:
            return VectorNodeMap(self.matrix(content), key_to_id=self.k2i)
        return NodeNodeMap(self.matrix(content), fill_value=self.fill_value if filled else None, values_are_keys=self.keyed, key_to_id=self.k2i)

    def model(self, content):
        return NestedModel(content, self.fill_value, self.keys)

    def alphabet(self):
        out = []
        for k in [*self.keys, BAD]:
            for i in range(len(self.rows)):
                out.append(("set", k, i))
            out += [("setempty", k), ("del", k), ("pop", k), ("popd", k, "dflt")]
        k = self.keys
        out += [("setmap", k[0], 1), ("setmap", k[2], 0), ("popitem",), ("clear",), ("look",), ("update", {k[1]: 0, k[2]: 1}), ("bad", k[0])]
        return out

    def row(self, i):
        row = self.rows[i]
        n = len(self.keys)
        vec = gb.Vector.from_coo([self.col(j) for j in row], [self.k2i[x] if self.keyed else x for x in row.values()], dtype=self.dtype, size=n)
        return VectorMap(vec) if self.plain else NodeMap(vec, values_are_keys=self.keyed, key_to_id=self.k2i)

    def apply(self, c, op):
        kind, *a = op
        model = isinstance(c, NestedModel)
        if kind == "set":
            c[a[0]] = dict(self.rows[a[1]])
        elif kind == "setmap":
            c[a[0]] = dict(self.rows[a[1]]) if model else self.row(a[1])
        elif kind == "setempty":
            c[a[0]] = {}
        elif kind == "del":
            del c[a[0]]
        elif kind == "pop":
            return rowplain(c.pop(a[0]))
        elif kind == "popd":
            return rowplain(c.pop(a[0], a[1]))
        elif kind == "popitem":
            x = c.popitem()
            return x if model else (x[0], rowplain(x[1]))
        elif kind == "clear":
            c.clear()
        elif kind == "look":
            return len(c), [k in c for k in self.keys]
        elif kind == "update":
            c.update({k: dict(self.rows[i]) for k, i in a[0].items()})
        elif kind == "bad":
            c[a[0]] = 3
        return None

    def observe(self, c, m):
        want = m.view()
        keys = [*self.keys, BAD]
        yield "len", len(want), len(c)
        yield "bool", bool(want), bool(c)
        yield "iteration", sorted(want, key=repr), sorted(c, key=repr)
        yield "keys", set(want), set(c.keys())
        yield "items", want, {k: rowplain(v) for k, v in c.items()}
        for k in keys:
            yield f"{k!r} in", k in want, k in c
            yield f"get({k!r})", want.get(k), rowplain(c.get(k))
            yield f"get({k!r}, default)", want.get(k, "dflt"), rowplain(c.get(k, "dflt"))
            yield f"[{k!r}]", outcome(lambda: want[k]), outcome(lambda: rowplain(c[k]))
            if k in want:
                row = c[k]
                cols = list(range(len(self.keys))) if self.plain else self.keys
                yield f"[{k!r}] lookups", [want[k].get(j) for j in cols], [row.get(j) for j in cols]
                yield f"[{k!r}] ==", True, row == want[k]
        yield "== dict", True, c == want
        if want and not (self.fill is not None and m.fill is not None):
            less = dict(list(want.items())[1:])
            yield "== smaller dict", False, c == less
        if m.fill is None:
            yield "== same kind", True, c == self.real(m.content, filled=False)
            yield "== other of the same kind", False, c == self.real({**m.content, self.keys[0]: {(0 if self.plain else self.keys[0]): (self.keys[1] if self.keyed else 9)}}, filled=False)


class NestedModel(Total):
    def view(self):
        full = {k: dict(v) for k, v in self.content.items() if v}
        if self.fill is None:
            return full
        return {k: {j: full.get(k, {}).get(j, self.fill) for j in self.keys} for k in self.keys}

    def __setitem__(self, k, v):
        if k not in self.keys:
            raise KeyError(k)
        if not isinstance(v, dict):
            raise TypeError
        if v:
            self.content[k] = v
        else:
            self.content.pop(k, None)

    def popitem(self):
        if not self.content:
            raise KeyError
        # With a fill value, what is popped is the whole row.
        v = self.view()
        return "any", {k: v[k] for k in self.content}


class Members:
    """NodeSet."""

    def __init__(self, ks, dtype):
        self.cfg = (ks, dtype)
        self.keys = KEYSETS[ks][0]
        self.k2i = key_to_id(ks)
        self.dtype = dtype

    def initial(self):
        k = self.keys
        yield []
        yield [k[0], k[2]]

    def real(self, content):
        idx = [self.k2i[k] for k in content]
        return NodeSet(gb.Vector.from_coo(idx, [1] * len(idx), dtype=self.dtype, size=len(self.keys)), key_to_id=self.k2i)

    def model(self, content):
        return SetModel(content, self.keys)

    def alphabet(self):
        out = []
        for k in [*self.keys, BAD]:
            out += [("add", k), ("discard", k), ("remove", k)]
        out += [("pop",), ("clear",), ("look",), ("copy",)]
        for r in range(4):
            for c in itertools.combinations(self.keys, r):
                for o in ("ior", "iand", "isub", "ixor", "or", "and", "sub", "xor"):
                    out.append((o, list(c), "same" if (r + len(o)) % 2 else "set"))
        return out

    def apply(self, c, op):
        kind, *a = op
        model = isinstance(c, SetModel)
        if kind in {"add", "discard", "remove"}:
            return getattr(c, kind)(a[0])
        if kind == "pop":
            return c.pop()
        if kind == "clear":
            return c.clear()
        if kind == "look":
            return len(c), [k in c for k in self.keys]
        if kind == "copy":
            if model:
                return set(c.s)
            d = c.copy()
            got = set(d)
            d.discard(self.keys[0]), d.add(self.keys[1])  # must not affect c
            return got
        other = set(a[0])
        if not model and a[1] == "same":
            other = self.real(a[0])
        if kind[0] == "i":
            s = c.s if model else c
            if kind == "ior":
                s |= other
            elif kind == "iand":
                s &= other
            elif kind == "isub":
                s -= other
            else:
                s ^= other
            if not model and s is not c:
                return "another object"
            return None
        s = c.s if model else c
        x = {"or": lambda: s | other, "and": lambda: s & other, "sub": lambda: s - other, "xor": lambda: s ^ other}[kind]()
        got = set(x)
        if not model and isinstance(x, NodeSet):
            if len(x) != len(got) or any((k in x) != (k in got) for k in self.keys):
                return "inconsistent set"
            x.clear()  # must not affect c
        return got

    def observe(self, c, m):
        want = m.s
        yield "len", len(want), len(c)
        yield "bool", bool(want), bool(c)
        yield "iteration", sorted(want, key=repr), sorted(c, key=repr)
        for k in [*self.keys, BAD]:
            yield f"{k!r} in", k in want, k in c
        yield "== set", True, c == set(want)
        yield "!= set", False, c != set(want)
        yield "union", want | {"other"}, c.union({"other"})
        for r in range(4):
            for t in itertools.combinations(self.keys, r):
                o, T = self.real(t), set(t)
                yield f"== {t}", want == T, c == o
                yield f"== {t} set", want == T, c == T
                yield f"<= {t}", want <= T, c <= o
                yield f"< {t} set", want < T, c < T
                yield f">= {t}", want >= T, c >= o
                yield f"> {t} set", want > T, c > T
                yield f"isdisjoint {t}", want.isdisjoint(T), c.isdisjoint(o)
                yield f"isdisjoint {t} set", want.isdisjoint(T), c.isdisjoint(T)


class SetModel:
    def __init__(self, content, keys):
        self.s, self.keys = set(content), keys

    def add(self, k):
        if k not in self.keys:
            raise KeyError(k)
        self.s.add(k)

    def discard(self, k):
        self.s.discard(k)

    def remove(self, k):
        self.s.remove(k)

    def pop(self):
        if not self.s:
            raise KeyError
        return ("any", set(self.s))

    def clear(self):
        self.s.clear()

    def __len__(self):
        return len(self.s)

    def __contains__(self, k):
        return k in self.s

    def view(self):
        return set(self.s)


def num(x):
    """Numbers by value (the dtype decides between 1, 1.0 and True)."""
    if isinstance(x, str) or x is None:
        return x
    try:
        return float(x)
    except (TypeError, ValueError):
        return x


def rowplain(x):
    if isinstance(x, (str, type(None), dict)):
        return x
    return {k: v for k, v in x.items()}


def outcome(fn):
    try:
        return fn()
    except KeyError:
        return "KeyError"
    except TypeError:
        return "TypeError"


KINDS = {"flat": Flat, "nested": Nested, "members": Members}


def systems(tier):
    """(system, depth)"""
    if tier == "thorough":
        for ks in KEYSETS:
            for dtype in ("INT64", "FP64", "UINT8", "FP32"):
                for fill in (None, 0, 5):
                    yield ("flat", ks, dtype, fill, False), 4
            for fill in (None, 0):
                yield ("nested", ks, "INT64", fill, False), 3
                yield ("nested", ks, "FP64", fill, False), 3
            for fill in (None, 1):
                yield ("flat", ks, "INT64", fill, True), 4
                yield ("nested", ks, "INT64", fill, True), 3
            yield ("flat", ks, "INT64", None, False, True), 4
            yield ("nested", ks, "INT64", None, False, True), 3
            yield ("members", ks, "BOOL"), 3
            yield ("members", ks, "INT64"), 3
        return
    for fill in (None, 0):
        yield ("flat", "mixed", "INT64", fill, False), 2
        yield ("flat", "shift", "FP64", fill, False), 1
        yield ("nested", "mixed", "INT64", fill, False), 2
    for fill in (None, 1):
        yield ("flat", "mixed", "INT64", fill, True), 1
    yield ("flat", "ints", "FP64", 5, False), 1
    yield ("flat", "ints", "FP64", None, False, True), 2
    yield ("nested", "shift", "INT64", None, True), 1
    yield ("nested", "mixed", "INT64", None, False, True), 1
    yield ("members", "mixed", "BOOL"), 1
    yield ("members", "shift", "INT64"), 1


def play(system, start, hist):
    """Run a history; returns (difference or None, model)."""
    S = KINDS[system[0]](*system[1:])
    contents = list(S.initial())
    c, m = S.real(contents[start]), S.model(contents[start])
    for i, op in enumerate(hist):
        want = outcome(lambda: S.apply(m, op))
        got = outcome(lambda: S.apply(c, op))
        if isinstance(want, tuple) and want and want[0] == "any":
            # Any element may be taken.
            pool = want[1]
            if isinstance(pool, set):
                ok = got in pool
                if ok:
                    m.s.discard(got)
            else:
                ok = isinstance(got, tuple) and len(got) == 2 and got[0] in pool and eq(pool[got[0]], got[1])
                if ok:
                    m.content.pop(got[0], None)
        else:
            ok = eq(want, got)
        if not ok:
            return f"{op} returned {got!r}, expected {want!r}", m
        if i == len(hist) - 1:
            for what, a, b in S.observe(c, m):
                if not eq(a, b):
                    return f"then {what} is {b!r}, expected {a!r}", m
    return None, m


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    return a == b


def frozen(m):
    if isinstance(m, SetModel):
        return tuple(sorted(map(repr, m.s)))
    return tuple(sorted((repr(k), repr(v)) for k, v in m.content.items())), m.fill is None


def safe(system, start, hist):
    r = limited(lambda: play(system, start, hist))
    if r[0] == "exc":
        return f"{hist[-1]}: {r[1].__name__}: {r[2]}", None
    return r[1]


def tasks(tier):
    out = []
    for s, depth in systems(tier):
        S = KINDS[s[0]](*s[1:])
        alpha = S.alphabet()
        for start in range(len(list(S.initial()))):
            for i in range(0, len(alpha), 16):
                out.append((s, start, i, 16, depth))
    out += [("helpers", d, tier) for d in (False, True)]
    out += [("foreign", i, tier) for i in range(8)]
    return out


def work(task):
    if task[0] == "helpers":
        return helpers(task)
    if task[0] == "foreign":
        rep = Report()
        for content in itertools.islice(foreign_cases(task[2]), task[1], None, 8):
            rep.state("foreign", content)
            rep.n["transitions"] += 1
            bad = check_helper(False, "foreign", content)
            if bad:
                rep.bad(bad, {"helper": "foreign", "directed": False, "content": repr(content)})
        return rep
    system, start, lo, width, depth = task
    rep = Report()
    S = KINDS[system[0]](*system[1:])
    alpha = S.alphabet()
    seen = set()
    frontier = [()]
    for level in range(1 + depth):
        nxt = []
        for hist in frontier:
            for j, op in enumerate(alpha):
                if level == 0 and not lo <= j < lo + width:
                    continue
                h = (*hist, op)
                bad, m = safe(system, start, h)
                rep.n["transitions"] += 1
                if bad:
                    rep.bad(f"{system[0]}{system[1:]} initially {list(S.initial())[start]} after {list(h)}: {bad}",
                            {"system": list(system), "start": start, "history": [pack(x) for x in h]})
                    continue
                looked = any(x[0] == "look" for x in h)
                k = (frozen(m), looked, op[0])
                rep.outcome(system, frozen(m))
                if k not in seen:
                    seen.add(k)
                    rep.state(system, k)
                    nxt.append(h)
        frontier = nxt
        rep.n["traces"] += len(nxt)
        if not frontier:
            break
    rep.sample({"container": list(system), "start": repr(list(S.initial())[start]), "longest": repr(frontier[0] if frontier else "fixpoint")}, limit=1)
    return rep


def pack(op):
    return repr(op)


def unpack(s):
    import ast

    return ast.literal_eval(s)


def replay(case):
    if "helper" in case:
        return check_helper(case["directed"], case["helper"], unpack(case["content"]))
    system = tuple(case["system"])
    hist = tuple(unpack(x) for x in case["history"])
    return safe(system, case["start"], hist)[0]


# --------------------------------------------------------------------- conversions of a graph
def helper_graph(directed):
    G = nx.DiGraph() if directed else nx.Graph()
    keys = ["a", 7, ("t",), "q"]
    G.add_nodes_from(keys)
    return (ga.DiGraph if directed else ga.Graph).from_networkx(G), keys


def check_helper(directed, name, content):
    r = limited(lambda: HELPERS[name](directed, content))
    return f"{name}: {r[1].__name__}: {r[2]}" if r[0] == "exc" else r[1]


def _expect(want, got):
    return None if want == got and type(want) is type(got) else f"expected {want!r}, got {got!r}"


def vec(G, d, dtype="INT64"):
    ids = dict(zip(G.list_to_keys(range(len(G))), range(len(G))))
    return gb.Vector.from_coo([ids[k] for k in d], list(d.values()), dtype=dtype, size=len(G)), ids


def h_vector_dict(directed, content):
    G, keys = helper_graph(directed)
    v, ids = vec(G, content)
    w = G.dict_to_vector(content, dtype="INT64")
    if not v.isequal(w):
        return f"dict_to_vector({content}) is {w.to_dict()}"
    for fill in (None, 0, 5):
        want = dict(content) if fill is None else {k: content.get(k, fill) for k in keys}
        got = G.vector_to_dict(v.dup(), fill_value=fill)
        if got != want:
            return f"vector_to_dict(fill_value={fill}) of {content} is {got}"
        m = G.vector_to_nodemap(v.dup(), fill_value=fill)
        if dict(m.items()) != want or len(m) != len(want):
            return f"vector_to_nodemap(fill_value={fill}) of {content} is {dict(m.items())}"
        for size in range(len(keys) + 1):
            for sub in itertools.combinations(keys, size):
                mask = G.list_to_mask(list(sub))
                inside = v.dup(mask=mask)
                want = {k: content[k] for k in sub if k in content} if fill is None else {k: content.get(k, fill) for k in sub}
                got = G.vector_to_dict(inside.dup(), mask=mask, fill_value=fill)
                if got != want:
                    return f"vector_to_dict(mask={sub}, fill_value={fill}) of {content} is {got}"
                m = G.vector_to_nodemap(inside.dup(), mask=mask, fill_value=fill)
                if dict(m.items()) != want or len(m) != len(want) or set(m) != set(want) or any((k in m) != (k in want) for k in keys):
                    return f"vector_to_nodemap(mask={sub}, fill_value={fill}) of {content} is {dict(m.items())}"
    return None


def h_lists(directed, content):
    G, keys = helper_graph(directed)
    nodes = list(content)
    v = G.list_to_vector(nodes)
    s = G.set_to_vector(set(nodes))
    got = set(G.vector_to_set(v)), set(G.vector_to_set(s)), set(G.vector_to_list(v)), set(G.vector_to_nodeset(s))
    if any(g != set(nodes) for g in got):
        return f"nodes {nodes} became {got}"
    if sorted(map(repr, G.vector_to_list(s))) != sorted(map(repr, nodes)):
        return f"vector_to_list of {nodes} is {G.vector_to_list(s)}"
    t = G.set_to_vector({*nodes, "no such node"}, ignore_extra=True)
    if not s.isequal(t):
        return f"set_to_vector(ignore_extra=True) of {nodes} is {G.vector_to_set(t)}"
    for bad in ([*nodes, "no such node"],):
        for f in (G.list_to_vector, G.set_to_vector, G.list_to_ids, G.list_to_mask):
            try:
                f(bad)
            except KeyError:
                continue
            return f"{f.__name__} accepts keys that are not nodes"
    ids = G.list_to_ids(nodes)
    if G.list_to_keys(ids) != nodes:
        return f"list_to_keys(list_to_ids({nodes})) is {G.list_to_keys(ids)}"
    if any(f(None) is not None for f in (G.list_to_vector, G.set_to_vector, G.list_to_ids, G.list_to_mask, G.list_to_keys, G.dict_to_vector)):
        return "None is not passed through"
    return None


def h_dicts(directed, content):
    """content: {row: {col: value}}"""
    G, keys = helper_graph(directed)
    ids = dict(zip(G.list_to_keys(range(len(G))), range(len(G))))
    n = len(keys)
    trip = [(ids[r], ids[c], x) for r, row in content.items() for c, x in row.items()]
    A = gb.Matrix.from_coo([t[0] for t in trip], [t[1] for t in trip], [t[2] for t in trip], dtype="INT64", nrows=n, ncols=n)
    for ri in (False, True):
        for ci in (False, True):
            want = {(ids[r] if ri else r): {(ids[c] if ci else c): x for c, x in row.items()} for r, row in content.items() if row}
            got = G.matrix_to_dicts(A, use_row_index=ri, use_column_index=ci)
            if got != want:
                return f"matrix_to_dicts(use_row_index={ri}, use_column_index={ci}) of {content} is {got}"
            tw = {}
            for r, row in content.items():
                for c, x in row.items():
                    tw.setdefault(ids[c] if ri else c, {})[ids[r] if ci else r] = x
            got = G.matrix_to_dicts(A.T, use_row_index=ri, use_column_index=ci)
            if got != tw:
                return f"matrix_to_dicts(transposed, use_row_index={ri}, use_column_index={ci}) of {content} is {got}"
    m = G.matrix_to_nodenodemap(A)
    want = {r: row for r, row in content.items() if row}
    if {k: dict(v.items()) for k, v in m.items()} != want:
        return f"matrix_to_nodenodemap of {content} is wrong"
    m = G.matrix_to_vectornodemap(A)
    if {k: dict(v.items()) for k, v in m.items()} != {r: {ids[c]: x for c, x in row.items()} for r, row in want.items()}:
        return f"matrix_to_vectornodemap of {content} is wrong"
    return None


FOREIGN = [3, 5, ("t",), "new"]  # the keys of the first graph are the first three


def foreign_content(kind, keys, pattern):
    """The content of a container of some kind for one pattern of small integers, one per key."""
    if kind in ("nodemap", "vectornodemap"):
        flat = {k: x for k, x in zip(keys, pattern) if x}
        return flat if kind == "nodemap" else {k: {x - 1: x} for k, x in flat.items()}
    if kind == "nodeset":
        return {k for k, x in zip(keys, pattern) if x}
    return {k: {keys[(i + x) % 3]: x} for i, (k, x) in enumerate(zip(keys, pattern)) if x}


def foreign_real(kind, order, content):
    k2i = {k: i for i, k in enumerate(order)}
    n = len(order)
    if kind == "nodeset":
        return NodeSet(gb.Vector.from_coo([k2i[k] for k in content], [True] * len(content), dtype=bool, size=n), key_to_id=k2i)
    if kind == "nodemap":
        return NodeMap(gb.Vector.from_coo([k2i[k] for k in content], list(content.values()), dtype="INT64", size=n), key_to_id=k2i)
    trip = [(k2i[k], j if kind == "vectornodemap" else k2i[j], x) for k, row in content.items() for j, x in row.items()]
    A = gb.Matrix.from_coo([t[0] for t in trip], [t[1] for t in trip], [t[2] for t in trip], dtype="INT64", nrows=n, ncols=n)
    return (VectorNodeMap if kind == "vectornodemap" else NodeNodeMap)(A, key_to_id=k2i)


def h_foreign(directed, content):
    """content: (kind, node order of the first graph, pattern, node order of the other graph, pattern)"""
    kind, order1, pat1, order2, pat2 = content
    c1, c2 = foreign_content(kind, order1, pat1), foreign_content(kind, order2, pat2)
    a, b = foreign_real(kind, order1, c1), foreign_real(kind, order2, c2)
    for what, x, y in (("first == second", a == b, b == a), ("not (first != second)", not (a != b), not (b != a))):
        if x != y or not isinstance(x, bool):
            return f"{what} of {kind} {c1} (nodes {order1}) and {c2} (nodes {order2}) depends on the side: {x} and {y}"
        if c1 != c2 and x:
            return f"{what} holds for {kind} {c1} (nodes {order1}) and {c2} (nodes {order2})"
        if c1 == c2 and order1 == order2 and not x:
            return f"{what} fails for {kind} {c1} twice (nodes {order1})"
    if kind == "nodeset":
        for what, want, got in (
            ("<=", c1 <= c2, a <= b), ("<", c1 < c2, a < b), (">=", c1 >= c2, a >= b), (">", c1 > c2, a > b),
            ("isdisjoint", c1.isdisjoint(c2), a.isdisjoint(b)),
            ("&", c1 & c2, set(a & b)), ("-", c1 - c2, set(a - b)), ("union", c1 | c2, set(a.union(b))),
        ):
            if want != got:
                return f"{what} of {c1} (nodes {order1}) and {c2} (nodes {order2}) is {got!r}, expected {want!r}"
    return None


def foreign_cases(tier):
    first = FOREIGN[:3]
    orders = list(itertools.permutations(first)) + [(FOREIGN[3], *first[:2]), (first[0], FOREIGN[3], first[2]), tuple(first[:2]), tuple(FOREIGN)]
    for kind in ("nodeset", "nodemap", "nodenodemap", "vectornodemap"):
        vals = (0, 1) if kind == "nodeset" else (0, 1, 2)
        for order in orders:
            for p1 in itertools.product(vals, repeat=3):
                for p2 in itertools.product(vals, repeat=len(order)):
                    if tier != "thorough" and kind != "nodeset" and sum(map(bool, p1)) != sum(map(bool, p2)):
                        continue
                    if len(order) == 2 and kind != "nodeset" and any(p2) and kind != "nodemap":
                        continue
                    yield kind, tuple(first), p1, order, p2


HELPERS = {"foreign": h_foreign, "vector_dict": h_vector_dict, "lists": h_lists, "dicts": h_dicts}


def helpers(task):
    _, directed, tier = task
    rep = Report()
    _, keys = helper_graph(directed)
    flat = [dict(x for x in zip(keys, vals) if x[1] is not None) for vals in itertools.product((None, 1, 2), repeat=4)]
    rows = [{}, {keys[2]: 1}, {keys[0]: 3, keys[3]: 2}]
    nested = [dict(zip(keys, rr)) for rr in itertools.product(rows, repeat=4)]
    for name, contents in (("vector_dict", flat), ("lists", flat), ("dicts", nested)):
        for content in contents:
            rep.state("helper", name, directed, content)
            rep.n["transitions"] += 1
            bad = check_helper(directed, name, content)
            if bad:
                rep.bad(bad, {"helper": name, "directed": directed, "content": repr(content)})
    return rep
