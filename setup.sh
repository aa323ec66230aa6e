#!/bin/sh
# Nothing to build ahead: every check stages the specification and the driver in its own scratch directory.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
quint --version >/dev/null && /opt/venv/bin/python -c 'import numpy, numba'
