#!/bin/bash
# bash run.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
export QV_REPO=${QV_REPO:-/repo}
export PYTHONPATH="$here:$QV_REPO" XDG_RUNTIME_DIR=${XDG_RUNTIME_DIR:-/tmp}
mpl=$(mktemp -d /tmp/qv_mpl.XXXXXX)
export MPLCONFIGDIR=$mpl
cd "$here" || exit 2
/opt/venv/bin/python -W ignore -m qv "$@"
rc=$?
rm -rf -- "$mpl"
exit $rc
