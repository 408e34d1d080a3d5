#!/usr/bin/env python
"""Decides one property by seeded deterministic simulation: check.py C01 [--replay FILE] [--runs N] [--tier T]."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
       'PYTHONDONTWRITEBYTECODE': '1'}

if __name__ == '__main__':
    if any(os.environ.get(k) is None for k in ENV):
        os.environ.update({k: os.environ.get(k, v) for k, v in ENV.items()})
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    from dst import core
    sys.exit(core.main(sys.argv[1:]))
