#!/usr/bin/env python3
"""Nothing to build (pure Python): check the interpreter and the sources."""
import os
import subprocess
import sys

sys.exit(subprocess.call(
    ["/opt/venv/bin/python", "-c", "import numpy, pandas, h5py, scipy"],
    env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1")))
