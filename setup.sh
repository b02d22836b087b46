#!/bin/bash
# nothing to install: checks that the tools the checks use are there
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import numpy, numpy.f2py'
/opt/veriftools/pyvenv/bin/python -c 'import z3, sympy, numpy'
gfortran --version | head -1
mkdir -p evidence
echo setup ok
