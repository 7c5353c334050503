#!/bin/bash
# Nothing is compiled: the checks import the code straight from /repo, and Hypothesis is vendored. Verify that this works.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python -W ignore -B - <<'P'
import sys
sys.path.insert(0, '/repo')
sys.path.append('vendor')
import hypothesis, numpy, scipy, pycomplex
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'pycomplex', pycomplex.__file__)
P
