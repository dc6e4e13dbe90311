#!/usr/bin/env python3
"""Nothing to build: confirm that the interpreter, Hypothesis and sleplet from /repo are usable."""
import os
import subprocess
import sys

py = "/opt/venv/bin/python"
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
r = subprocess.run(
    [py, "-c", "import hypothesis, numpy, scipy, plotly, sleplet, os;"
     "p = os.path.realpath(sleplet.__file__); assert p.startswith('/repo/'), p; print('sleplet from', p)"],
    env=env, check=False)
sys.exit(r.returncode)
