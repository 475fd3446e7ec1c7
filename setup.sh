#!/bin/bash
# nothing to build: checks that the interpreter, the solver and the package under test are importable offline
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -c "
import symx, z3, sys
print('z3', z3.get_version_string())"
