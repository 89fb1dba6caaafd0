"""Bounded symbolic execution of Python source with an SMT solver (z3)."""
