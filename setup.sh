#!/bin/bash
# nothing to compile: check that the back ends are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import pyvc, z3, numpy, seismic
print('z3', z3.get_version_string())"
cvc5 --version | head -1 || true
