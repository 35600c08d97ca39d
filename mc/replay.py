"""python -m mc.replay FILE...  -- run recorded violations again on the current tree."""
import importlib
import json
import sys

from . import engine


def main():
    status = 0
    mods = {}
    for path in (engine.ROOT / "mc" / "checks").glob("[a-z]*.py"):
        m = importlib.import_module(f"mc.checks.{path.stem}")
        mods[m.ID] = m
    engine.quiet()
    for f in sys.argv[1:]:
        with open(f) as fh:
            blob = json.load(fh)
        mod = mods[blob["property"]]
        if "work_item" in blob["case"]:
            what = f"needs the whole work item: run the check ({mod.__name__})"
        else:
            what = mod.replay(blob["case"])
        print(f"{f}: {blob['property']}: {'holds' if what is None else what}")
        status |= what is not None
    return status


if __name__ == "__main__":
    sys.exit(main())
