"""pyvc: a small deductive verifier for the numpy-style Python in corgidrp.

The real source in /repo is parsed on every run, mechanically instrumented
(loops, comprehensions and builtins are routed through this package) and
executed by CPython on symbolic values.  Every contract clause becomes a
first-order proof obligation discharged by z3 (see DESIGN.md)."""
