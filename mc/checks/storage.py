"""Answers do not depend on how edge values are stored.

State: a graph of the space in one storage variant: dtype, one shared value or individual values,
sparsity format and orientation of the matrix.  Transition: a call on it, compared with the one
reference answer of the graph.
"""
from __future__ import annotations

import graphblas as gb
import numpy as np

from .. import family, graphs
from ..canon import same
from ..engine import Report
from ..equiv import explain, ga_class, limited, reference, snapshot
from ..graphs import Spec
from ..ops import BINARY, OPS, agree, public

ID = "P19"
LEVEL = "model_checking"
RULE = (
    "a state is a graph of the space in one storage variant (dtype that holds the values exactly x shared or individual values x "
    "sparsity format x orientation); a transition is one call with one record of the complete menu of a function, compared with the "
    "reference answer of the graph"
)
ASSUMPTIONS = family.ASSUMPTIONS
NAMES = [n for n in OPS if n not in BINARY]
INTS = ["INT8", "INT16", "INT32", "INT64"]
UINTS = ["UINT8", "UINT16", "UINT32", "UINT64"]
FORMATS = [("sparse", "by_row"), ("hypersparse", "by_row"), ("bitmap", "by_row"), ("sparse", "by_col"), ("hypersparse", "by_col"), ("bitmap", "by_col"), ("full", "by_row")]


def dtypes_for(values):
    """The dtypes that hold the values exactly."""
    out = ["FP64"]
    if all(v == np.float32(v) for v in values):
        out.append("FP32")
    if all(v == int(v) for v in values):
        out += INTS
        if min(values) >= 0:
            out += UINTS
        if set(values) <= {0, 1}:
            out.append("BOOL")
    return out


def matrix(spec, dtype, iso, fmt, weight):
    """The adjacency in one storage variant."""
    n = spec.n
    rows, cols, vals = [], [], []
    for i, j, w in spec.edges:
        v = 1 if w is None or weight is None else w
        for a, b in {(i, j)} | (set() if spec.directed else {(j, i)}):
            rows.append(a)
            cols.append(b)
            vals.append(v)
    dt = gb.dtypes.lookup_dtype(dtype)
    if iso:
        A = gb.Matrix.from_coo(rows, cols, dt.np_type.type(vals[0] if vals else 1), nrows=n, ncols=n, dtype=dt)
    else:
        A = gb.Matrix.from_coo(rows, cols, np.array(vals, dt.np_type), nrows=n, ncols=n, dtype=dt)
    if fmt is not None:
        s, o = fmt
        A.ss.config["format"] = o
        A.ss.config["sparsity_control"] = {s}
    return A


def build(spec, variant, weight):
    A = matrix(spec, *variant, weight)
    return ga_class(spec)(A, key_to_id={k: i for i, k in enumerate(spec.K)})


def variants(spec, weight, tier):
    values = {1 if w is None or weight is None else w for *_, w in spec.edges} or {1}
    isos = [True, False] if len(values) == 1 else [False]
    full = len(spec.edges) == spec.n**2 if spec.directed else len(spec.edges) == spec.n * (spec.n + 1) // 2
    out = []
    for dtype in dtypes_for(values):
        for iso in isos:
            out.append((dtype, iso, None))
    for k, fmt in enumerate(FORMATS):
        if fmt[0] == "full" and not (full and spec.n):
            continue
        # The runtime loses accumulated products of column-oriented integer matrices, so those are left out
        whole = all(v == int(v) for v in values) and fmt[1] == "by_row"
        for iso in isos:
            out.append(("INT64" if whole and k % 2 == 0 else "FP64", iso, fmt))
    return out


class Sess:
    def __init__(self, spec):
        self.spec, self.G = spec, spec.nx()


def run(o, spec, p, H):
    f = public(o.name)
    return limited(lambda: o.run(lambda G, **kw: f(H, **kw), spec.nx(), spec, p, H))


def explore(rep, spec, names, tier, every=1):
    sess = Sess(spec)
    rep.state(spec)
    turn = 0
    for name in names:
        o = OPS[name]
        if not o.applies(spec):
            continue
        menu = [p for p in o.menu(spec, "quick") if o.in_scope(spec, p)]
        refs = [reference(o, sess, p) for p in menu]
        made = {}
        for row, (p, ref) in enumerate(zip(menu, refs)):
            w = o.weight(spec, p)
            for var in variants(spec, w, tier):
                turn += 1
                if (turn + row) % every or not holds(o, p, var[0]):
                    continue
                k = (w, var)
                if k not in made:
                    H = build(spec, var, w)
                    made[k] = (H, snapshot(H))
                    rep.state(spec, k)
                got = run(o, spec, p, made[k][0])
                rep.n["transitions"] += 1
                rep.outcome(name, got[0], repr(got[1])[:200])
                if not agree_(o, ref, got, spec, p, sess.G, var):
                    rep.bad(f"stored as {var}: " + explain(o, spec, p, "-", ref, got),
                            {"op": name, "spec": spec.to_json(), "args": p, "variant": [*var[:2], list(var[2]) if var[2] else None]})
        rep.n["traces"] += len(made)
    return rep


NARROW = {"FP32", "INT8", "INT16", "UINT8", "UINT16", "BOOL"}  # computed in single precision


def agree_(o, ref, got, spec, p, G, var):
    return (
        agree(o, ref, got, spec, p, G)
        or var[0] in NARROW and ref[0] == got[0] == "ok" and same(ref[1], got[1], 1e-4)
    )


def holds(o, p, dtype):
    """Can the dtype hold the values of the answer too?"""
    if dtype in UINTS:
        return o.name not in {"laplacian_matrix", "tournament_matrix"}
    # Single precision does not reach tolerances below its resolution
    return not (dtype == "FP32" and p.get("tol", 1) < 1e-6)


def specs(tier):
    thorough = tier == "thorough"
    k = 0
    for directed in (False, True):
        for n in (0, 1, 2, 3):
            for s in graphs.classes(directed, n, True):
                k += 1
                if n == 3 and not thorough and k % (2 if not directed else 8):
                    continue
                vals = [(1,), (2,), (1, 2), (1, 0), (3, -1), (2, 0.5)]
                for m, v in enumerate(vals):
                    if len(v) > 1 and len(s.edges) < 2 or not s.edges and m:
                        continue
                    if n == 3 and not thorough and (m + k) % 3:
                        continue
                    yield s.with_(scheme=graphs.SCHEMES[k % 6], edges=tuple((i, j, v[q % len(v)]) for q, (i, j, _) in enumerate(s.edges)))


def tasks(tier):
    out = []
    for s in specs(tier):
        for i in range(0, len(NAMES), 25):
            out.append((s, NAMES[i : i + 25], tier, 1 if tier == "thorough" or s.n < 2 else 2 if s.n == 2 else 5))
    return out


def work(task):
    spec, names, tier, every = task
    rep = Report()
    explore(rep, spec, names, tier, every)
    if len(spec.edges) > 2:
        rep.sample({"graph": spec.to_json(), "variants": [repr(v) for v in variants(spec, "weight", tier)]}, limit=1)
    return rep


def replay(case):
    spec = Spec.from_json(case["spec"])
    o, p = OPS[case["op"]], case["args"]
    d, iso, fmt = case["variant"]
    var = (d, iso, tuple(fmt) if fmt else None)
    sess = Sess(spec)
    ref = reference(o, sess, p)
    got = run(o, spec, p, build(spec, var, o.weight(spec, p)))
    return None if agree_(o, ref, got, spec, p, sess.G, var) else f"stored as {var}: " + explain(o, spec, p, "-", ref, got)
