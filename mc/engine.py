"""The exploration engine.

A check module defines

    ID                      property id
    LEVEL                   evidence level
    RULE                    how cases are made, what makes one non-trivial
    ASSUMPTIONS             list of strings
    tasks(tier)             finite list of picklable work items; together they are the whole
                            bounded space of the tier
    work(task)              explore one item completely; returns a ``Report``
    replay(case)            re-run one recorded case from scratch; returns None, or a description
                            of the violation

and the engine runs every item on all cores, confirms each violation by replaying it from
scratch, subtracts known findings, writes the evidence file and prints the verdict.
"""
from __future__ import annotations

import collections
import hashlib
import json
import os
import sys
import time
import traceback
import warnings
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / "evidence"
REPLAYS = ROOT / "replays"
KNOWN = ROOT / "known_findings.json"
STALL = 800
MANY = 10  # violations after which a work item stops
PLENTY = 40  # violations after which the check stops
_KNOWN = []
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class Enough(Exception):  # noqa: N818
    """A work item has enough violations."""


class Report:
    """What exploring one work item did."""

    def __init__(self):
        self.n = collections.Counter()  # measured counts
        self.states = set()  # digests of distinct states
        self.outcomes = set()  # digests of distinct observed outcomes
        self.violations = []  # [(what, case)]
        self.samples = []

    def state(self, *key):
        self.states.add(digest(key))

    def outcome(self, *key):
        self.outcomes.add(digest(key))

    def bad(self, what, case):
        """Record a violation; gives up on the work item when there are many."""
        self.n["violating"] += 1
        for i, k in enumerate(_KNOWN):
            if matches(k, what, case):
                self.n[f"known {i}"] += 1
                return
        self.violations.append((what, case))
        if len(self.violations) >= MANY:
            raise Enough(self)

    def sample(self, x, limit=2):
        if len(self.samples) < limit:
            self.samples.append(x)


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


def quiet():
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")


_MODULE = None


def _init(modname):
    global _MODULE
    import importlib

    quiet()
    _MODULE = importlib.import_module(modname)
    _KNOWN[:] = known_findings(_MODULE.ID)
    sys.setrecursionlimit(10000)


def _work(item):
    i, task = item
    try:
        try:
            r = _MODULE.work(task)
        except Enough as e:
            r = e.args[0]
        r.violations = [(what, case, i) for what, case in r.violations]
        return ("ok", r)
    except Exception:  # noqa: BLE001
        return ("error", f"{task!r}\n{traceback.format_exc()}")


def rerun(modname, task, what, case):
    """Explore the whole work item again in a new process: is the violation still there?"""
    from multiprocessing import get_context

    with get_context("spawn").Pool(1, initializer=_init, initargs=(modname,)) as pool:
        kind, r = pool.apply(_work, ((0, task),))
    return kind == "ok" and any(w == what and c == case for w, c, _ in r.violations)


def known_findings(pid):
    if not KNOWN.exists():
        return []
    return [k for k in json.loads(KNOWN.read_text())["findings"] if k["property"] == pid and k["status"] == "known"]


def matches(finding, what, case):
    """A finding is identified by the fields of ``match``, which must all agree with the case."""
    return all(case.get(k) == v for k, v in finding["match"].items())


def write_replay(pid, what, case):
    REPLAYS.mkdir(exist_ok=True)
    blob = {"property": pid, "what": what, "case": case}
    text = json.dumps(blob, indent=1, default=repr)
    path = REPLAYS / f"{pid}-{hashlib.blake2b(text.encode(), digest_size=6).hexdigest()}.json"
    path.write_text(text)
    return path


def main(modname):
    """Run a check; returns the exit status."""
    import importlib
    from multiprocessing import get_context

    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 1 and sys.argv[-1] in {"quick", "thorough"}:
        tier = sys.argv[-1]
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    quiet()
    mod = importlib.import_module(modname)
    _KNOWN[:] = known_findings(mod.ID)
    tasks = list(mod.tasks(tier))
    total = Report()
    errors = []
    stopped = False
    ctx = get_context("fork")
    chunk = getattr(mod, "CHUNK", 1)
    with ctx.Pool(JOBS, initializer=_init, initargs=(modname,), maxtasksperchild=getattr(mod, "MAXTASKS", None)) as pool:
        results = pool.imap_unordered(_work, list(enumerate(tasks)), chunksize=chunk)
        for _ in tasks if chunk == 1 else iter(int, 1):
            try:
                kind, r = results.next(timeout=STALL)
            except StopIteration:
                break
            except TimeoutError:
                kind, r = "error", f"no work item finished for {STALL} s"
                errors.append(r)
                break
            if kind == "error":
                errors.append(r)
                continue
            total.n.update(r.n)
            total.states |= r.states
            total.outcomes |= r.outcomes
            total.violations.extend(r.violations)
            if len(total.samples) < 6:
                total.samples.extend(r.samples[: 6 - len(total.samples)])
            if len(total.violations) >= PLENTY and not os.environ.get("MC_DUMP"):
                stopped = True
                break
    if errors and not total.violations:
        print("\n".join(errors[:3]), file=sys.stderr)
        print(f"CHECK-ERROR property={mod.ID}: {len(errors)} work items failed", file=sys.stderr)
        return 2
    return finish(mod, tier, seed, tasks, total, t0, not stopped and not errors)


def finish(mod, tier, seed, tasks, total, t0, exhaustive):
    pid = mod.ID
    if os.environ.get("MC_DUMP"):
        import pickle

        with open(os.environ["MC_DUMP"], "wb") as f:
            pickle.dump(total.violations, f)
    known = _KNOWN
    fresh = sorted(total.violations, key=lambda v: len(json.dumps(v[1], default=repr)))
    confirmed = []
    flaky = 0
    for what, case, ti in fresh[:20]:
        # Replay twice from scratch: the same case must fail every time.
        plain = json.loads(json.dumps(case))
        again = [mod.replay(plain) for _ in range(2)]
        if all(a is not None for a in again):
            confirmed.append((again[0], plain))
        elif flaky < 2 and all(rerun(mod.__name__, tasks[ti], what, case) for _ in range(2)):
            # It needs what was executed before it in the same process.
            confirmed.append((what + " [needs the whole work item]", {"work_item": tasks[ti], "case": plain}))
        else:
            flaky += 1
        if confirmed:
            break
        if flaky:
            print(f"unconfirmed (not reproducible from scratch): {what}: {json.dumps(case, default=repr)[:500]}", file=sys.stderr)
    cov = mod.coverage(total, tasks) if hasattr(mod, "coverage") else coverage(mod, total, tasks)
    cov.setdefault("exhaustive", exhaustive)
    cov["samples"] = total.samples or ["none"]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=repr) + "\n")
    for i, k in enumerate(known):
        if total.n[f"known {i}"]:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(
        f"{pid} {tier}: "
        + " ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, int) and not isinstance(v, bool))
        + f" violations={len(confirmed)} (raw {total.n['violating']}, unconfirmed {flaky}) wall={time.time() - t0:.1f}s"
    )
    if confirmed:
        for what, case in confirmed[:1]:
            path = write_replay(pid, what, case)
            print(f"  {what}"[:1500])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if fresh and flaky:
        # Something differed, but not reproducibly; that is not a verdict about the code.
        print(f"CHECK-ERROR property={pid}: {flaky} differences could not be reproduced", file=sys.stderr)
        return 3
    return 0


def coverage(mod, total, tasks):
    return {
        "states": len(total.states),
        "transitions": total.n["transitions"],
        "traces_validated_against_impl": total.n["traces"],
        "distinct_outcomes": len(total.outcomes),
        "rule": mod.RULE,
    }
