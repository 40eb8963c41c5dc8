#!/bin/sh
# nothing to build: the checks instrument /repo's source each time they run.  Fail early when the solver is missing.
cd "$(dirname "$0")/.." || exit 1
python3-vt -c "import z3; s = z3.Solver(); s.add(z3.BitVec('x', 8) == 3); assert str(s.check()) == 'sat'; print('z3', z3.get_version_string())"
