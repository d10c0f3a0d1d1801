"""pyvc: a deductive verifier for the numerical Python in /repo/pyTMD.

The verification conditions are generated by running the real functions
(bytecode compiled from the current source in /repo, see instrument.py for the
three mechanical rewrites) over symbolic real numbers and arrays of symbolic
length, and are discharged by an exact normal form for rational/trigonometric
expressions (nf.py) and by z3 (prove.py).
"""
