"""Check that the tools the checks use are there (nothing to build)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, '/repo/src')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import md4c  # noqa: E402,F401
import polib  # noqa: E402,F401

import mdpo  # noqa: E402,F401
from harness import tlc  # noqa: E402

for jar in tlc.CP.split(':'):
    assert os.path.isfile(jar), jar
print('ok')
