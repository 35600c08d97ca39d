"""Mutation of the package to find gaps of the checks (a development aid; no check uses it).

python3 tools/mutate.py OUT.jsonl FILE[:N] ...     FILE relative to graphblas_algorithms; N mutants of it (default all)

For every mutant (one small syntactic change): the checks responsible for the file run on a scratch copy; of those
that no check reports, the test suite runs too.  Survivors of both are what to look at.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor, as_completed
from pathlib import Path
from queue import Queue

PY = "/opt/venv/bin/python"
SCRATCH = Path("/tmp/mut")
PAIRS = [
    ("reduce_rowwise", "reduce_columnwise"), ("plus_first", "plus_second"), ("plus_times", "plus_pair"), ("min_plus", "max_plus"), ("min_first", "min_second"),
    ("plus_max", "plus_min"), ("monoid.min", "monoid.max"), ("binary.plus", "binary.times"), (".S", ".V"), ("any_first", "any_second"), ("row_degrees", "column_degrees"),
    ("nrows", "ncols"), ("tril", "triu"), ("ewise_mult", "ewise_add"), ("L-", "U-"), ("binary.first", "binary.second"), ("min_element", "max_element"), ("any_pair", "plus_pair"),
    ("successors", "predecessors"), ("offdiag", "A"), ("size", "nvals"),
]
CMP = {"==": "!=", "!=": "==", "<": "<=", ">": ">=", "<=": "<", ">=": ">", "is": "is not", "is not": "is", "in": "not in", "not in": "in"}
RESPONSIBLE = [
    (r"classes/_caching|classes/(graph|digraph).py", ["cache", "conversion", "histories", "operators"]),
    (r"classes/_utils", ["conversion", "containers", "relabel", "traversal"]),
    (r"classes/node", ["containers"]),
    (r"interface", ["conversion", "multigraphs"]),
    (r"nxapi/_utils", ["chunks"]),
    (r"operators|ego|isomorph", ["operators"]),
    (r"cluster|core", ["squares", "clustering", "chunks", "multigraphs"]),
    (r"weighted.py", ["bellman_ford", "unweighted", "chunks", "storage", "iterators"]),
    (r"unweighted", ["unweighted", "chunks", "iterators"]),
    (r"dense", ["floyd", "conversion"]),
    (r"_bfs", ["traversal", "unweighted", "operators", "bellman_ford"]),
    (r"dag|traversal|simple_paths|components|lowest|generic|efficiency", ["traversal", "unweighted", "iterators"]),
    (r"cuts|boundary|quality|dominating", ["cuts", "multigraphs"]),
    (r"pagerank|hits|katz|eigenvector", ["link", "storage"]),
    (r"linalg", ["linalg", "multigraphs"]),
    (r"degree_alg|isolate|regular|reciproc|smetric|triads|structural|tournament", ["degrees"]),
]


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def at(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def put(a, b, text):
        return raw[:a] + text.encode() + raw[b:]

    doc = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = at(n.left)[1], at(n.comparators[0])[0]
            op = raw[a:b].decode()
            m = re.search(r"is not|not in|==|!=|<=|>=|<|>|\bis\b|\bin\b", op)
            if m:
                yield n.lineno, f"{m[0]} -> {CMP[m[0]]}", put(a, b, op.replace(m[0], CMP[m[0]], 1))
        elif isinstance(n, ast.BinOp):
            a, b = at(n.left)[1], at(n.right)[0]
            op = raw[a:b].decode()
            for x, y in (("+", "-"), ("-", "+"), ("*", "/"), ("/", "*"), ("&", "|"), ("|", "&")):
                if op.strip() == x:
                    yield n.lineno, f"{x} -> {y}", put(a, b, op.replace(x, y))
                    break
        elif isinstance(n, ast.BoolOp):
            a, b = at(n.values[0])[1], at(n.values[1])[0]
            op = raw[a:b].decode()
            x, y = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if x in op:
                yield n.lineno, f"{x} -> {y}", put(a, b, op.replace(x, y, 1))
            for i, v in enumerate(n.values):  # drop one operand
                others = [raw[slice(*at(w))].decode() for j, w in enumerate(n.values) if j != i]
                yield n.lineno, f"drop operand {i} of {x}", put(*at(n), "(" + f" {x} ".join(f"({o})" for o in others) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            yield n.lineno, "drop unary", put(at(n)[0], at(n.operand)[0], " ")
        elif isinstance(n, ast.Constant) and id(n) not in doc:
            if isinstance(n.value, bool):
                yield n.lineno, f"{n.value} -> {not n.value}", put(*at(n), str(not n.value))
            elif isinstance(n.value, (int, float)):
                yield n.lineno, f"{n.value} -> +1", put(*at(n), repr(n.value + 1))
                if n.value:
                    yield n.lineno, f"{n.value} -> 0", put(*at(n), "0")
            elif isinstance(n.value, str) and re.fullmatch(r"[\w ]+[+-]", n.value):
                s = n.value[:-1] + ("-" if n.value[-1] == "+" else "+")
                yield n.lineno, f"{n.value} -> {s}", put(*at(n), repr(s))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = raw[slice(*at(n.test))].decode()
            if ":=" not in t:
                yield n.lineno, "if False", put(*at(n.test), "False")
                if not isinstance(n, ast.While):
                    yield n.lineno, "if True", put(*at(n.test), "True")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) or (isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)):
            yield n.lineno, "drop statement", put(*at(n), "pass")
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            yield n.lineno, "drop .T", put(at(n.value)[1], at(n)[1], "")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("dup", "copy", "abs") and not n.args and not n.keywords:
                yield n.lineno, f"drop .{n.func.attr}()", put(at(n.func.value)[1], at(n)[1], "")
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
                (a, b), (c, d) = at(n.args[0]), at(n.args[1])
                yield n.lineno, "swap arguments", raw[:a] + raw[c:d] + raw[b:c] + raw[a:b] + raw[d:]
            for k in n.keywords:
                if k.arg:
                    e = at(k)[1]
                    m = re.match(rb"\s*,\s*", raw[e:])
                    yield n.lineno, f"drop {k.arg}=", put(at(k)[0], e + (m.end() if m else 0), "")
    for i, ln in enumerate(lines):
        code = ln.split("#")[0]
        for x, y in PAIRS:
            for p, q in ((x, y), (y, x)):
                for m in re.finditer(r"(?<!\w)" + re.escape(p) + r"(?!\w)" if p[0] != "." else re.escape(p) + r"(?!\w)", code):
                    a = starts[i] + len(code[: m.start()].encode())
                    yield i + 1, f"{p} -> {q}", put(a, a + len(p.encode()), q)


def worker(slots, task):
    file, line, what, new = task
    d = slots.get()
    try:
        repo, verif = d / "repo", d / "verif"
        target = repo / "graphblas_algorithms" / file
        orig = (Path("/repo/graphblas_algorithms") / file).read_bytes()
        target.write_bytes(new)
        mods = next((m for r, m in RESPONSIBLE if re.search(r, file)), ["dispatch"])
        res = {"file": file, "line": line, "what": what, "text": new.decode().splitlines()[line - 1].strip()}
        env = {**os.environ, "PYTHONPATH": str(repo), "VERIF_JOBS": "1", "VERIF_TIER": "quick", "OMP_NUM_THREADS": "1"}
        try:
            for m in mods:
                try:
                    r = subprocess.run(["nice", "-n", "19", PY, "-B", "-m", "tools.firsthit", m], cwd=verif, env=env, capture_output=True, text=True, timeout=1500)
                    code = r.returncode
                except subprocess.TimeoutExpired:
                    code = "timeout"
                if code != 0:
                    res["out"] = "" if code == "timeout" else (r.stdout + r.stderr)[-300:]
                    res["killed"] = m
                    res["code"] = code
                    return res
            s = Path("/opt/vp/test.sh").read_text().replace("/repo", str(repo)).replace("REPORTS=/opt/vp/reports", f"REPORTS={repo}.reports")
            (d / "t.sh").write_text(s)
            subprocess.run(["nice", "-n", "19", "bash", str(d / "t.sh"), str(d / "o.json")], env={**os.environ, "PYTHONPATH": str(repo)}, capture_output=True, timeout=1200)
            out = json.loads((d / "o.json").read_text())
            stable = set(json.loads(Path("/opt/vp/BASELINE.json").read_text())["stable"])
            res["failing"] = len(stable - set(out["passed"]))
            return res
        finally:
            target.write_bytes(orig)
            shutil.rmtree(verif / "replays", ignore_errors=True)
    except Exception as e:  # noqa: BLE001
        return {"file": file, "line": line, "what": what, "error": repr(e)}
    finally:
        slots.put(d)


def main():
    out = Path(sys.argv[1])
    jobs = int(os.environ.get("MUT_JOBS", "8"))
    done = set()
    if out.exists():
        done = {(x["file"], x["line"], x["what"], x.get("text")) for x in map(json.loads, out.read_text().splitlines())}
    slots = Queue()
    for i in range(jobs):
        d = SCRATCH / f"{os.getpid()}-{i}"
        d.mkdir(parents=True)
        shutil.copytree("/repo", d / "repo", symlinks=True)
        shutil.copytree("/verif", d / "verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
        slots.put(d)
    tasks = []
    rnd = random.Random(int(os.environ.get("MUT_SEED", "7")))
    for arg in sys.argv[2:]:
        file, _, n = arg.partition(":")
        src = (Path("/repo/graphblas_algorithms") / file).read_text()
        ms = []
        for line, what, new in mutants(src):
            try:
                compile(new, file, "exec")
            except SyntaxError:
                continue
            if new != src.encode():
                ms.append((file, line, what, new))
        if n and len(ms) > int(n):
            ms = rnd.sample(ms, int(n))
        tasks += ms
    tasks = [t for t in tasks if (t[0], t[1], t[2], t[3].decode().splitlines()[t[1] - 1].strip()) not in done]
    print(len(tasks), "mutants", flush=True)
    with ThreadPoolExecutor(jobs) as ex, out.open("a") as f:
        for r in (x.result() for x in as_completed([ex.submit(worker, slots, t) for t in tasks])):
            f.write(json.dumps(r) + "\n")
            f.flush()
    shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    main()
