"""Process set-up: always the real library from /repo's working tree."""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
# Never read stale byte code of the library.
sys.pycache_prefix = "/nonexistent-verif-pycache"
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def check_import():
    import binobj

    where = os.path.dirname(os.path.abspath(binobj.__file__))
    if where != os.path.join(REPO, "binobj"):
        raise SystemExit(f"binobj imported from {where}, not from {REPO}")
