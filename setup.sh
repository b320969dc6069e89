#!/bin/bash
# Nothing to compile: checks that the project's interpreter and the solver's bindings are usable.
cd "$(dirname "$0")" || exit 2
exec /opt/venv-pypy/bin/python -W ignore -c "
import sys; sys.path.insert(0, '.')
from symx.run import load_z3
z3 = load_z3() or __import__('z3')
x = z3.Real('x'); s = z3.Solver(); s.add(x * x == 2, x > 0); assert str(s.check()) == 'sat'
print('z3', z3.get_version_string(), 'on', sys.version.split()[0])
"
