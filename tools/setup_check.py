#!/usr/bin/env python3
"""Nothing has to be built: check that the interpreter, hypothesis and the
package under test can be imported"""
import os
import sys

os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "checks"))
import core

core.bootstrap()
import hypothesis
import sample

print("hypothesis", hypothesis.__version__, "from", hypothesis.__file__)
print("sample", sample.__version__, "from", sample.__file__)
assert os.path.realpath(sample.__file__).startswith(core.REPO + os.sep)
