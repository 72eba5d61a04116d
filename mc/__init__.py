"""Bounded-exhaustive explorers and reference models for tky823/ssspy."""

import os
import sys

import numpy  # noqa: F401
import numpy.lib.recfunctions  # noqa: F401
import scipy  # noqa: F401
import scipy.linalg  # noqa: F401

sys.dont_write_bytecode = True
# the code under test is always compiled from its current source
sys.pycache_prefix = "/nonexistent/mc-no-pycache"

import ssspy  # noqa: E402

_repo = os.path.realpath(os.environ.get("MC_REPO", "/repo"))
if not os.path.realpath(ssspy.__file__).startswith(_repo + os.sep):
    raise ImportError("ssspy imported from %s, not from %s" % (ssspy.__file__, _repo))
