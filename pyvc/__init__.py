"""pyvc: a small contract-based deductive verifier for Python/NumPy code.

The verified text is the code that runs: every run re-reads /repo/src, rewrites
only what CPython cannot execute on symbolic values (see loader.py) and
executes it symbolically; obligations go to z3 (cvc5 as a second back end).
"""
import os
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)

# the real code that concrete cases run: the same tree the proofs read
_SRC = os.environ.get('PYVC_SRC', '/repo/src')
if _SRC not in sys.path:
    sys.path.insert(0, _SRC)
