#!/bin/bash
# run.sh <PROPERTY> [--replay FILE] : run one check against /repo's working tree.
# VERIF_SEED (default 1) and VERIF_TIER (quick|thorough, default quick) select the workload.
cd "$(dirname "$0")" || exit 2
HERE=$PWD
W=$(mktemp -d /tmp/vdolfyn.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
export VD_SCRATCH=$W
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC LC_ALL=C.UTF-8
# an empty bytecode cache: no stale .pyc can hide a change
export PYTHONPYCACHEPREFIX=$W/pyc HOME=$W
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=/repo:$HERE
unset DOLFYN_DEBUG
timeout -k 10 ${VD_TIMEOUT:-3300} /opt/venv/bin/python -W ignore -m vdolfyn.run "$@"
rc=$?
exit $rc
