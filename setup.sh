#!/bin/bash
# Nothing to compile: verifies that the interpreter, the reference model and the code under test load.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" JAX_PLATFORMS=cpu
mkdir -p evidence
exec /opt/venv/bin/python -c "
from mc import env, ref
import numpy as np
env.load(True)
r, v = ref.kepler(np.longdouble(1), np.array([1., 0, 0]), np.array([0., 1, 0]), np.longdouble(1))
assert abs(r[0] - np.cos(np.longdouble(1))) < 1e-17
print('setup ok')
"
