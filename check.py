#!/usr/bin/env python3
"""Entry point: python3 check.py <property id>.  Re-executes itself with the
interpreter of the code under test and runs harness/<id>.py."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def main():
    if os.environ.get("_VERIF_CHILD") != "1":
        env = dict(os.environ)
        env.update(
            _VERIF_CHILD="1",
            PYTHONDONTWRITEBYTECODE="1",
            JAX_PLATFORMS="cpu",
            MPLBACKEND="Agg",
            PYTHONWARNINGS="ignore",
            PYTHONHASHSEED="0",
            OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
            TF_CPP_MIN_LOG_LEVEL="3",
        )
        env.pop("JAX_ENABLE_X64", None)
        repo = env.get("VERIF_REPO", "/repo")
        env["PYTHONPATH"] = os.path.join(repo, "src")
        os.execve(PY, [PY, os.path.join(HERE, "check.py"), *sys.argv[1:]], env)
    sys.path.insert(0, HERE)
    from harness import lib

    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = lib.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module(f"harness.{prop.lower()}")
        rc = mod.run(ctx)
    except Exception:
        traceback.print_exc()
        print(f"MACHINERY-ERROR property={prop}")
        rc = 3
    finally:
        ctx.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
