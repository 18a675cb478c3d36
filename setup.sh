#!/bin/bash
# nothing is kept between runs: each check compiles its shim and warms numba itself; this only proves
# that the tools the checks need are there
set -e
cd "$(dirname "$(readlink -f "$0")")"
gcc -O1 -fPIC -shared -o /dev/null dst/shim.c -ldl -lpthread
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c "import numpy, scipy, numba, matplotlib, meshio"
