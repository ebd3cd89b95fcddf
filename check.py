#!/opt/venv/bin/python
"""check.py <property id> quick|thorough"""
import os
import sys
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from symx import runner
if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    rc = runner.main(sys.argv[1], tier)
    sys.stdout.flush()
    os._exit(rc)
