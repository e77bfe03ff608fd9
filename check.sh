#!/bin/bash
# usage: check.sh <PROPERTY> [options]; runs the monitors of one property against /repo
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/spa-check.XXXXXX)"
trap 'rm -rf "$scratch"' EXIT
export HOME="$scratch" TMPDIR="$scratch" MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPYCACHEPREFIX="$scratch/pyc"
export VERIF_SCRATCH="$scratch"
mkdir -p "$MPLCONFIGDIR"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$here" || exit 2
timeout -k 10 870 "$py" -c 'import sys; sys.path.insert(0, "'"$here"'"); from mon.core import main; sys.exit(main(sys.argv[1:]))' "$@"
