#!/bin/bash
# Nothing to compile: checks that the interpreter and the package under test can be used.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=
/opt/venv/bin/python -c "
import sys; sys.path.insert(0, '/repo/src')
import vblf.reader, vf.engine, vf.model, vf.blf, vf.gen
print('python', sys.version.split()[0], 'vblf from', vblf.__file__)"
