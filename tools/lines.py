"""Which lines of /repo do the checks execute?  usage: python3 -m tools.lines STRIDE MODULE...  (development aid)

Runs every STRIDEth work item of the checks in three processes, and prints the lines never executed.
"""
import dis
import importlib
import os
import pathlib
import sys
import types
from multiprocessing import get_context

os.environ["VERIF_TIER"] = "quick"
ROOT = "/repo/graphblas_algorithms/"
SEEN = set()


def line(code, number):
    if code.co_filename.startswith(ROOT):
        SEEN.add((code.co_filename, number))
    return sys.monitoring.DISABLE


def work(a):
    module, k, jobs, stride = a
    m = sys.monitoring
    m.use_tool_id(3, "lines")
    m.set_events(3, m.events.LINE)
    m.register_callback(3, m.events.LINE, line)
    from mc import engine

    engine._init(f"mc.checks.{module}")
    tasks = engine._MODULE.tasks("quick")
    for i in range(k * stride, len(tasks), jobs * stride):
        try:
            engine._work((i, tasks[i]))
        except BaseException as e:
            print(module, i, repr(e)[:200])
    return SEEN


def lines_of(code):
    out = {n for _, _, n in code.co_lines() if n}
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            out |= lines_of(c)
    return out


if __name__ == "__main__":
    stride, modules = int(sys.argv[1]), sys.argv[2:]
    jobs = int(os.environ.get("VERIF_JOBS", 3))
    seen = set()
    with get_context("spawn").Pool(jobs, maxtasksperchild=1) as pool:
        for s in pool.imap_unordered(work, [(m, k, jobs, stride) for m in modules for k in range(jobs)], chunksize=1):
            seen |= s
    for p in sorted(pathlib.Path(ROOT).rglob("*.py")):
        if "tests" in p.parts:
            continue
        every = lines_of(compile(p.read_text(), str(p), "exec"))
        missing = sorted(every - {n for f, n in seen if f == str(p)})
        if missing:
            text = p.read_text().splitlines()
            print(f"== {p.relative_to(ROOT)}: {len(missing)} of {len(every)}")
            for n in missing:
                print(f"{n:5d} {text[n - 1]}")
