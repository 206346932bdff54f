#!/bin/bash
# Nothing to fetch: check that the interpreter sees hexrd's dependencies and Hypothesis.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
"$PY" - <<'PY'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, numpy, scipy, h5py, numba
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__)
PY
