#!/bin/bash
# usage: run.sh <property-id> [quick|thorough]     run one check
#        run.sh replay <file>                       re-execute one recorded case
#        run.sh setup                               verify the toolchain
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mplconfig}
export CFLAGS="-O0"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_btl=self,vader OMPI_MCA_mpi_yield_when_idle=1
PY=${VERIF_PYTHON:-/opt/venv/bin/python}
case "$1" in
  replay) shift; exec "$PY" -m mc.replay "$@";;
  setup) exec "$PY" -m mc.setup_check;;
  *) exec "$PY" -m mc.main "$@";;
esac
