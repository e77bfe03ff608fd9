#!/bin/bash
# Everything is interpreted: only verify that the interpreter and the library are usable.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, scipy, qutip, matplotlib; import mon.gen; print('ready')"
