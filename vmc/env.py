"""Process environment shared by every check: deterministic, offline, and bound
to the current working tree of /repo (never to an installed copy)."""
import logging
import os
import sys
import types
import warnings

REPO = os.environ.get("VMC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["TZ"] = "UTC"
os.environ.setdefault("MPLCONFIGDIR", "/tmp/vmc-mpl-%d" % os.getuid())
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")


def setup():
    """Put /repo first on sys.path, import gridded, and verify it is that tree."""
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    # _version.py is generated by the build and git-ignored; a bare checkout
    # does not have it.
    if not os.path.exists(os.path.join(REPO, "gridded", "_version.py")):
        m = types.ModuleType("gridded._version")
        m.version = m.__version__ = "0+vmc"
        m.version_tuple = m.__version_tuple__ = (0, "vmc")
        sys.modules["gridded._version"] = m
    logging.disable(logging.CRITICAL)
    import numpy as np

    np.seterr(all="ignore")
    import gridded

    where = os.path.realpath(gridded.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("gridded was imported from %s, not from %s" % (where, REPO))
    return gridded
