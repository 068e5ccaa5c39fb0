#!/bin/bash
# usage: bash check.sh C01   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TQDM_DISABLE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 LC_ALL=C.UTF-8
export MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/verif_mpl}"
unset PYTHONPATH
exec /opt/venv/bin/python -B -m pbt.main "$@"
