"""Set-up: checks that the tools the framework needs are there (nothing to build)."""
import shutil
import sys

import numpy  # noqa
import healpy  # noqa
import scipy  # noqa

from . import rng

r, used = rng.scripted(lambda: numpy.random.random_sample(3), [0.25, 0.5, 0.75])
assert used == 3 and list(r) == [0.25, 0.5, 0.75], "the random source cannot be controlled"
if shutil.which("gfortran") is None:
    print("no gfortran: C01-C03 cannot build the extensions")
    sys.exit(1)
print("ok")
