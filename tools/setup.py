"""Checks that what the checks need is there (nothing is built or downloaded)."""
import sys
sys.dont_write_bytecode = True
import z3, subprocess, os
assert os.path.exists('/repo/extra')
s = z3.Solver(); x = z3.Int('x'); s.add(x > 0, x < 0); assert s.check() == z3.unsat
print('z3', z3.get_version_string())
