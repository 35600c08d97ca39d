"""Run a check in this process and stop at the first raw violation (used by tools/mutate.py)."""
import os
import sys

os.environ["VERIF_TIER"] = "quick"
from mc import engine  # noqa: E402

engine.MANY = 1
engine._init(f"mc.checks.{sys.argv[1]}")
mod = engine._MODULE
tasks = mod.tasks("quick")
# Spread the work items, so that different kinds come early.
step = 7
for k in range(step):
    for i in range(k, len(tasks), step):
        kind, r = engine._work((i, tasks[i]))
        if kind == "error":
            print("ERROR", r)
            sys.exit(2)
        if r.violations:
            print("HIT", r.violations[0][0][:300])
            sys.exit(1)
