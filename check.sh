#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]      run one check against /repo's working tree
#        check.sh --replay FILE                  re-run one saved case without Hypothesis
set -u
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export E2CNN_REPO="${E2CNN_REPO:-/repo}"
export PYTHONPATH="$E2CNN_REPO:$PWD"
SCRATCH=$(mktemp -d /tmp/vpcheck.XXXXXX) || exit 3
export VP_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl" HYPOTHESIS_STORAGE_DIRECTORY="$SCRATCH/hyp"
trap 'rm -rf "$SCRATCH"' EXIT
/opt/venv/bin/python -m vp.main "$@"
