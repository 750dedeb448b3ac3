#!/bin/bash
# nothing to build: the framework is Python; check that the interpreter, the package and the solver are there
cd "$(dirname "$0")" || exit 2
export NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$(mktemp -d /tmp/sxsetup.XXXXXX)
/opt/venv/bin/python -W ignore -c 'import sys; sys.path.insert(0, "/repo"); from sx import runner, harness, solver; import lom.machine, lom.experiments; print("z3", solver.z3.get_version_string())'
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
