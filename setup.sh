#!/bin/bash
# Nothing to build: the machinery is plain Python run by the repository's own interpreter.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, scipy, sympy, networkx, numba, awkward, mc.main" || exit 1
