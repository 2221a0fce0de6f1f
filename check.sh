#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [section]
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root}
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export VERIF_REPO=${VERIF_REPO:-/repo}
export PYTHONPATH="$VERIF_REPO"
unset SEYFERT_HOOKS
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp" MPLCONFIGDIR="$tmp/mpl" HOME="$tmp"
cd "$here" || exit 3
limit=850
timeout -k 10 $limit /opt/venv/bin/python -W ignore "$here/run.py" "$@"
rc=$?
exit $rc
