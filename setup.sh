#!/bin/bash
# Nothing to compile: checks that the interpreter, Hypothesis and the committed oracle tables are usable.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
/opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "."); from vp import core; import hypothesis; print("hypothesis", hypothesis.__version__)'
