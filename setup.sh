#!/bin/bash
# Nothing to build: the checks run the Python code of /repo directly. Verifies the tools.
cd "$(dirname "$0")" || exit 1
python3-vt -c 'import hypothesis; print("hypothesis", hypothesis.__version__)' || exit 1
/opt/venv/bin/python -c 'import sys, django; print(sys.implementation.name, django.get_version())' || exit 1
mkdir -p evidence
