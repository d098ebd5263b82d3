#!/bin/bash
# bash run.sh PROPERTY [quick|thorough]     run one property's check
# bash run.sh PROPERTY replay FILE          re-run one saved counterexample
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg HF_HUB_OFFLINE=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VERIF_SEED=${VERIF_SEED:-1}
export PYTHONPATH="$here:${VERIF_REPO:-/repo}"
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m pbt.main "$@"
