#!/bin/sh
# Nothing is compiled: confirm that the interpreter and the code under test load.
cd "$(dirname "$0")/.." || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg NUMBA_THREADING_LAYER=workqueue
/opt/venv/bin/python -c "
import clustertools, numpy, scipy, galpy, numba, astropy
assert clustertools.__file__.startswith('/repo/'), clustertools.__file__
print('setup ok')"
