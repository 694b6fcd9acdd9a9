"""setup_cmd: nothing has to be built; make sure that what the checks rely on is there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import env  # noqa: E402

env.check_import()
import vf.gen  # noqa: E402,F401
import vf.util  # noqa: E402,F401

print("ready: python", sys.version.split()[0], "binobj from", env.REPO)
