#!/bin/bash
# Checks that the interpreter and the tools the checks use are there; nothing needs to be prepared in advance.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c 'import numpy, mpmath, cvxopt, pandas, Cython' && command -v g++ >/dev/null && mkdir -p evidence
