#!/bin/bash
# Nothing to compile: the checks import /repo/src directly. Verify the interpreter can.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 OPENMDAO_REPORTS=0 OMPI_MCA_ess_singleton_isolated=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 PYTHONPATH="$PWD:/repo/src" "$PY" -c "import rkopenmdao, rtm.rig; print('ok')"
