#!/bin/bash
# Nothing to build ahead: every check builds what it needs from /repo's current tree.
set -e
/opt/venv/bin/python -c "import numpy, h5py, zarr, mpi4py, Cython"
/opt/veriftools/pyvenv/bin/python -c "import z3"
mkdir -p "$(dirname "$(readlink -f "$0")")/evidence"
