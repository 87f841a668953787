"""Import the gridded package of /repo's working tree (never an installed copy)."""

import os
import sys
import types
import warnings
import logging

REPO = os.environ.get("VERIF_REPO", "/repo")


def load():
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    # _version.py is generated by the build and git-ignored
    if not os.path.exists(os.path.join(REPO, "gridded", "_version.py")):
        m = types.ModuleType("gridded._version")
        m.version = m.__version__ = "0.0.0"
        m.version_tuple = m.__version_tuple__ = (0, 0, 0)
        sys.modules["gridded._version"] = m
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np

    np.seterr(all="ignore")
    import gridded

    here = os.path.realpath(gridded.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("gridded imported from %s, not from %s" % (here, REPO))
    return gridded
