"""python -m mc.run CHECK [quick|thorough]  -- run one check."""
import os
import sys

if __name__ == "__main__":
    for k, v in {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg"}.items():
        if os.environ.get(k) != v:
            os.environ[k] = v
            os.environ["_MC_REEXEC"] = "1"
    if os.environ.pop("_MC_REEXEC", None):
        os.execv(sys.executable, [sys.executable, "-B", "-m", "mc.run", *sys.argv[1:]])
    from mc.engine import main

    sys.exit(main(f"mc.checks.{sys.argv[1]}"))
