#!/bin/bash
# Nothing to build: check that the interpreter, elphmod and MPI are usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=$PWD /opt/venv/bin/python -W ignore -c '
import sys
sys.modules["mpi4py"] = None
import numpy, scipy, elphmod
import vmon.core, vmon.run
print("elphmod from", elphmod.__file__)
'
