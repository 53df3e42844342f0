"""Install the seams, then import zoidberg from /repo's working tree.

Import this module before anything that imports zoidberg.  All seams are inert
(they call the real thing) unless a World is active, so imports and the
harness itself see an ordinary interpreter.
"""
import builtins
import importlib.machinery
import os
import sys
import types

REPO = os.environ.get("ZOIDSIM_REPO", "/repo")
PKG = os.path.join(REPO, "zoidberg") + os.sep

os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

# --- never trust cached bytecode of the code under test
_get_code = importlib.machinery.SourceFileLoader.get_code


def _fresh_code(self, fullname):
    path = self.get_filename(fullname)
    if path.startswith(REPO + os.sep):
        return self.source_to_code(self.get_data(path), path)
    return _get_code(self, fullname)


importlib.machinery.SourceFileLoader.get_code = _fresh_code

from . import world as _world  # noqa: E402

_world.install()
_world.under_test = PKG

if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings  # noqa: E402

warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

import zoidberg  # noqa: E402
import zoidberg.boundary  # noqa: E402,F401
import zoidberg.diff  # noqa: E402,F401
import zoidberg.poloidal_grid  # noqa: E402,F401
import zoidberg.progress  # noqa: E402,F401
import zoidberg.rzline  # noqa: E402,F401
import zoidberg.smooth  # noqa: E402,F401
import zoidberg.stencil_dagp_fv  # noqa: E402,F401

if not os.path.abspath(zoidberg.__file__).startswith(PKG):
    raise RuntimeError(f"zoidberg was imported from {zoidberg.__file__}, not from {PKG}")

zb = zoidberg
np.seterr(all="ignore")
