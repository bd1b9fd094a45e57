#!/bin/bash
# nothing to build: pure Python.  Confirms that the interpreter and /repo can be used.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here:${QV_REPO:-/repo}" MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
mpl=$(mktemp -d /tmp/qv_mpl.XXXXXX); export MPLCONFIGDIR=$mpl
/opt/venv/bin/python -W ignore -c "import qtune, qtune.autotuner, qtune.storage, qv.core; print('ok', qtune.__file__)" 2>&1 | tail -1
rc=${PIPESTATUS[0]}
rm -rf -- "$mpl"
exit $rc
