"""Chunked execution gives the answer of unchunked execution.

States: (graph, chunk size specification).  Transition: one chunked call, compared with the
reference and with the unchunked call.  The interpretation of specifications and the splitting
of lists are compared with written definitions on complete grids of small arguments.
"""
from __future__ import annotations

import collections
import fractions
import itertools
import json
import math
import re

import networkx as nx
import numpy as np

from .. import family, graphs
from ..canon import canon, same
from ..engine import Report
from ..equiv import limited, to_ga
from ..family import batch, rotate
from ..graphs import Spec
from ..ops import public

try:
    from graphblas_algorithms.nxapi._utils import normalize_chunksize, partition, split_evenly
except ImportError:  # moved; the public functions below still use them
    normalize_chunksize = partition = split_evenly = None

ID = "P16"
LEVEL = "model_checking"
RULE = (
    "states are (graph, key order, chunk size specification); a transition is one call with that specification, "
    "whose complete answer was compared with networkx and with the unchunked call; plus every (specification, "
    "item size, length) and (chunk size, length) of a grid against a written definition"
)
ASSUMPTIONS = [
    "the written definition of specifications: a number of rows, or a number with a byte unit divided by the size "
    "of a row, or a number of chunks; None when everything fits",
]

SPECS = [None, "all", "", 0, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 2.0, 2.9, "1", "2", "3.0", "1 chunk", "2 chunks", "3chunks", "4 chunks",
         "1b", "8 b", "50 B", "100b", "150 b", "200B", "0.1 kB", "1e-1kb", "1_0_0 b", "1 KiB", "MB", "10 MiB", "np2"]
BAD = [("x", ValueError), ("1 zz", ValueError), ("1 chunkz", ValueError), ([2], TypeError), ({}, TypeError), (object, TypeError)]
CALLS = [
    ("all_pairs_shortest_path_length", {}),
    ("all_pairs_shortest_path_length", {"cutoff": 1}),
    ("all_pairs_bellman_ford_path_length", {"weight": None}),
    ("all_pairs_bellman_ford_path_length", {"weight": "weight"}),
    ("square_clustering", {}),
    ("square_clustering", {"nodes": "rest"}),
    ("square_clustering", {"nodes": "reversed"}),
]
UNITS = {"": 1, "b": 1, **{f"{p}b": 1000 ** (i + 1) for i, p in enumerate("kmgtpez")}, **{f"{p}ib": 1024 ** (i + 1) for i, p in enumerate("kmgtpez")}}


def spec_value(s):
    return np.int64(2) if s == "np2" else s


def kwargs(spec, p, G):
    p = dict(p)
    if p.get("nodes") == "rest":
        p["nodes"] = list(G)[1:]
    elif p.get("nodes") == "reversed":
        p["nodes"] = list(G)[::-1]
    return p


def applies(spec, name, p):
    if name == "square_clustering":
        return not spec.directed and not spec.loops and spec.n
    if p.get("weight"):
        return spec.weighted
    return True


def answer(f, name):
    x = f()
    if name.startswith("all_pairs"):
        pairs = [(k, canon(v)) for k, v in x]
        if len({k for k, _ in pairs}) != len(pairs):
            return ("repeated", [k for k, _ in pairs])
        return dict(pairs)
    return canon(x)


def check(spec, permuted, name, p, s):
    G = spec.nx()
    H = to_ga(spec, G, "weight" if p.get("weight") else None, permuted=permuted)
    kw = kwargs(spec, p, G)
    f = public(name)
    want = limited(lambda: answer(lambda: f(G, **kw), name))
    got = limited(lambda: answer(lambda: f(H, **kw, chunksize=spec_value(s)), name))
    whole = limited(lambda: answer(lambda: f(H, **kw, chunksize=None), name))
    if want[0] == "ok" and got[0] == "ok" and whole[0] == "ok" and same(want[1], got[1]) and same(whole[1], got[1]):
        return None, got
    if want[0] == got[0] == whole[0] == "exc":
        return None, got
    return f"{name}({kw}, chunksize={s!r}) on {'directed' if spec.directed else 'undirected'} {spec.K} {spec.edges} is {got[1]!r:.300}, unchunked {whole[1]!r:.300}, expected {want[1]!r:.300}", got


def check_bad(spec, name, p, i):
    G = spec.nx()
    H = to_ga(spec, G, None)
    value, exc = BAD[i]
    got = limited(lambda: answer(lambda: public(name)(H, **kwargs(spec, p, G), chunksize=value), name))
    if got[0] == "exc" and issubclass(got[1], exc):
        return None
    return f"{name}(chunksize={value!r}) gave {got[1]!r:.200}, expected {exc.__name__}"


# ------------------------------------------------------------------------------ definitions
def meaning(s, itemsize, N):
    """What a specification means: ("rows", r), "all", or an exception type."""
    if s is None:
        return None
    if isinstance(s, str):
        t = s.replace(" ", "").replace("_", "").lower()
        if t in {"", "all"}:
            return None
        m = re.fullmatch(r"(.*\d)?(\D*)", t)
        num, unit = m[1] or "1", m[2]
        try:
            x = float(num)
        except ValueError:
            return ValueError
        if unit in {"chunk", "chunks"}:
            if x <= 1:
                return None
            if N is None:
                return TypeError
            r = math.ceil(N / x)
        elif unit not in UNITS:
            return ValueError
        else:
            x = x * UNITS[unit]
            if unit:
                x = max(1, x / max(1, itemsize))
            r = round(x)
    elif isinstance(s, (int, float)):
        r = int(s)
    else:
        return TypeError
    return None if r <= 0 or (N is not None and r >= N) else r


NUMS = ["", "0", "1", "2", "3", "7", "10", "1.5", "2.5", "0.3", "1e1", "1e-2", "-1", "1_0", " 4 ", "1bad0", "1.2.3"]
SUFFIX = ["", "b", "B", "kb", "kB", "KiB", "MB", "mib", "gb", "GiB", "tb", "tib", "pb", "PiB", "eb", "eib", "zb", "ZiB", " chunk", "chunks", "x", "bb", "k", "chunkss"]


def grid():
    for num, suf in itertools.product(NUMS, SUFFIX):
        for itemsize in (1, 8, 24, 0):
            for N in (None, 0, 1, 2, 5, 10, 11, 1000, 10**7):
                yield num + suf, itemsize, N
    for s in [None, "all", "ALL", " a_l l", 0, 1, 2, 5, 9, 10, 11, 2.0, 2.7, -3, -0.5, 0.5, 10.0, (2,), b"2"]:
        for N in (None, 0, 1, 2, 5, 10, 11):
            yield s, 8, N


def check_meaning(s, itemsize, N):
    want = meaning(s, itemsize, N)
    r = limited(lambda: normalize_chunksize(s, itemsize, N))
    if r[0] == "exc":
        got = r[1]
        ok = isinstance(want, type) and issubclass(got, want)
    else:
        got = r[1]
        ok = got == want and not isinstance(want, type) and type(got) in {int, type(None)}
    return None if ok else f"chunk size {s!r} (rows of {itemsize} bytes, {N} rows) means {got!r}, expected {want!r}"


def check_partition(size, n, evenly):
    L = [f"x{i}" for i in range(n)]
    out = list(partition(size, L, evenly=evenly))
    if size == 1 and n > 1:
        out = [x if isinstance(x, list) else [x] for x in out]
    flat = [x for c in out for x in c]
    bad = None
    if flat != L:
        bad = "the chunks are not the list"
    elif any(len(c) == 0 for c in out):
        bad = "there is an empty chunk"
    elif size > 0 and any(len(c) > size for c in out):
        bad = "a chunk is too large"
    elif size <= 0 and n and out != [L]:
        bad = "a nonpositive size means one chunk"
    elif size > 0 and n and len(out) != math.ceil(n / size):
        bad = "there are too many chunks"
    elif evenly and out and max(map(len, out)) - min(map(len, out)) > 1:
        bad = "the chunks are uneven"
    return f"partition({size}, {n} items, evenly={evenly}): {bad}: {out}" if bad else None


def check_split(k, n):
    L = list(range(n))
    out = list(split_evenly(k, L))
    bad = None
    if [x for c in out for x in c] != L:
        bad = "the parts are not the list"
    elif any(not c for c in out):
        bad = "there is an empty part"
    elif n and len(out) != max(1, min(k, n)):
        bad = "wrong number of parts"
    elif out and max(map(len, out)) - min(map(len, out)) > 1:
        bad = "the parts are uneven"
    return f"split_evenly({k}, {n} items): {bad}: {out}" if bad else None


# --------------------------------------------------------------------------------- exploration
def space(tier):
    thorough = tier == "thorough"
    for d in (False, True):
        yield Spec(d, 0, ())
        yield Spec(d, 1, ())
        yield from graphs.classes(d, 3, True)
        if not d:
            yield from graphs.classes(d, 4, False)
            yield from graphs.classes(d, 5, False)
            if thorough:
                yield from graphs.classes(d, 6, False)
        elif thorough:
            yield from graphs.classes(d, 4, False)
        yield from family.structured(d, (5, 6, 7, 8) if thorough else (5, 7))


def tasks(tier):
    out = []
    sp = [s for s, _ in rotate(dict.fromkeys(space(tier)))]
    for i in range(0, len(sp), 6):
        out.append(("graphs", sp[i : i + 6], tier))
    if normalize_chunksize is not None:
        g = list(grid())
        out += [("grid", g[i : i + 2000]) for i in range(0, len(g), 2000)]
        out.append(("split", 60 if tier == "thorough" else 40))
    return out


def work(task):
    rep = Report()
    if task[0] == "grid":
        for s, itemsize, N in task[1]:
            rep.state("grid", s, itemsize, N)
            rep.n["transitions"] += 1
            bad = check_meaning(s, itemsize, N)
            rep.outcome("grid", meaning(s, itemsize, N))
            if bad:
                rep.bad(bad, {"kind": "grid", "args": repr((s, itemsize, N))})
        return rep
    if task[0] == "split":
        for size in range(-1, task[1]):
            for n in range(task[1]):
                rep.state("split", size, n)
                for args in ((size, n, True), (size, n, False)):
                    rep.n["transitions"] += 1
                    bad = check_partition(*args)
                    if bad:
                        rep.bad(bad, {"kind": "partition", "args": repr(args)})
                rep.n["transitions"] += 1
                bad = check_split(size, n)
                if bad:
                    rep.bad(bad, {"kind": "split", "args": repr((size, n))})
        return rep
    _, specs, tier = task
    for k, spec in enumerate(specs):
        for name, p in CALLS:
            if not applies(spec, name, p):
                continue
            for j, s in enumerate(SPECS):
                for permuted in (False, True) if tier == "thorough" else ((j + k) % 2 == 0,):
                    rep.state(spec, name, p, s, permuted)
                    rep.n["transitions"] += 1
                    bad, got = check(spec, permuted, name, p, s)
                    rep.outcome(spec, name, repr(got[1])[:300])
                    if bad:
                        rep.bad(bad, {"kind": "graph", "spec": spec.to_json(), "permuted": permuted, "op": name, "args": p, "chunksize": s})
            if spec.n > 1:
                for i in range(len(BAD)):
                    rep.n["transitions"] += 1
                    bad = check_bad(spec, name, p, i)
                    if bad:
                        rep.bad(bad, {"kind": "bad", "spec": spec.to_json(), "op": name, "args": p, "i": i})
            rep.n["traces"] += 1
        if spec.edges:
            rep.sample({"graph": spec.to_json(), "chunk sizes": [str(s) for s in SPECS]}, limit=1)
    return rep


def replay(case):
    import ast

    if case["kind"] == "grid":
        return check_meaning(*ast.literal_eval(case["args"]))
    if case["kind"] == "partition":
        return check_partition(*ast.literal_eval(case["args"]))
    if case["kind"] == "split":
        return check_split(*ast.literal_eval(case["args"]))
    spec = Spec.from_json(case["spec"])
    if case["kind"] == "bad":
        return check_bad(spec, case["op"], case["args"], case["i"])
    return check(spec, case["permuted"], case["op"], case["args"], case["chunksize"])[0]
