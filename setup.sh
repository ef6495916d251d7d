#!/bin/bash
# Nothing to build: the checks run from the committed files.  Make sure that the interpreters are there.
cd "$(dirname "$0")" && mkdir -p evidence work && /opt/venv/bin/python -c 'import numpy, pandas' && /opt/veriftools/pyvenv/bin/python -c 'import z3, cvc5'
