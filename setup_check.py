#!/usr/bin/env python3
"""Nothing to build: check that the interpreter and the solver are in place"""
import subprocess
import sys
from check import PYTHON, environment

sys.exit(subprocess.run([PYTHON, "-c", (
    "import z3; s = z3.Solver(); x = z3.Int('x'); s.add(x * x == 49, x > 0);"
    "assert s.check() == z3.sat and s.model()[x].as_long() == 7;"
    "import symex.core, symex.instrument; print('ok', z3.get_version_string())")],
    env=environment("/tmp")).returncode)
