#!/bin/bash
# usage: run.sh <property> [--tier=quick|thorough] [-v] [--only=substr] [--replay=file]
cd "$(dirname "$0")" || exit 2
export NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
T=$(mktemp -d /tmp/sxrun.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export MPLCONFIGDIR="$T/mpl" PYTHONPYCACHEPREFIX="$T/pyc"
mkdir -p "$T/mpl"
/opt/venv/bin/python -W ignore -c 'import sys
from sx.runner import main
sys.exit(main(sys.argv[1:]))' "$@"
rc=$?
exit $rc
