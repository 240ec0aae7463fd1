#!/bin/bash
# check.sh <PROPERTY-ID> [--tier quick|thorough] [--replay FILE] [...]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENMDAO_REPORTS=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_plm_rsh_agent=/bin/false OMPI_MCA_mpi_yield_when_idle=1
export HDF5_USE_FILE_LOCKING=FALSE
export RTM_REPO="${RTM_REPO:-/repo}"
export PYTHONPATH="$here:$RTM_REPO/src"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export RTM_PY="$PY"
cd "$here" || exit 4
exec "$PY" -m rtm.run "$@"
