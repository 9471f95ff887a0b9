"""Solver-based checking of rockphypy: symbolic execution of the real source
over exact reals, obligations discharged by SMT."""
import sys
_V = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _V not in sys.path:
    sys.path.append(_V)      # appended: numpy/scipy of the project venv win
