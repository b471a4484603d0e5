#!/bin/bash
# run.sh <property> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${VERIF_HASHSEED:-0}" OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
# MPI rank-count runs and anything that writes files happen in a scratch directory that is removed again
SCRATCH=$(mktemp -d /tmp/mc-XXXXXXXX) || exit 1
trap 'rm -rf "$SCRATCH"' EXIT
export MC_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl" OMPI_MCA_orte_tmpdir_base="$SCRATCH"
VERIF_HERE=$PWD
cd "$SCRATCH" || exit 1
/opt/venv/bin/python "$VERIF_HERE/mc/core.py" "$@"
rc=$?
cd /
exit $rc
