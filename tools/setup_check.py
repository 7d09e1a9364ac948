#!/usr/bin/env python3
"""Nothing to build: the code under test is pure Python. Checks that the pieces a check needs are present."""
import os
import sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import numpy, scipy, matplotlib  # noqa: E401,F401
import scp.water  # noqa: F401
from vp import core, gen, ref, ground  # noqa: F401
os.makedirs(os.path.join(here, 'evidence', 'replay'), exist_ok=True)
print('ok', sys.version.split()[0], 'numpy', numpy.__version__, 'scipy', scipy.__version__)
