"""Nothing is built ahead of time: every check encodes the current source when it runs."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import core, arr, load, pyx, harness, runner  # noqa: F401,E402
print('ready')
