"""Solver-based symbolic execution of the real Python code (see DESIGN.md)."""
import sys as _sys

_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3 as _z3  # noqa: F401
except ImportError:
    _sys.path.append(_P)
    import z3 as _z3  # noqa: F401

    _sys.path.remove(_P)
