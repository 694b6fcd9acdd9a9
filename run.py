#!/opt/venv/bin/python
"""run.py PROPERTY [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)"""
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", *sys.argv])

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["TZ"] = "UTC"
import time  # noqa: E402

time.tzset()
from vf import core, env  # noqa: E402,F401


def main():
    prop = sys.argv[1]
    mod = importlib.import_module(f"vf.checks.{prop.lower()}")
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return core.replay(mod, sys.argv[3])
    return core.run(mod)


if __name__ == "__main__":
    sys.exit(main())
