#!/bin/bash
# usage: run.sh <property> [--sub NAME] [--replay FILE] [--list]
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/verif_pbt.XXXXXX)" || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/mpl" "$scratch/hyp"
for m in hypothesis sortedcontainers _hypothesis_globals.py _hypothesis_pytestplugin.py _hypothesis_ftz_detector.py attr attrs; do
  s=/opt/veriftools/pyvenv/lib/python3.12/site-packages/$m
  [ -e "$s" ] && ln -s "$s" "$scratch/hyp/$m"
done
export PBT_SCRATCH="$scratch" PBT_HYP="$scratch/hyp" TMPDIR="$scratch"
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 HYPOTHESIS_STORAGE_DIRECTORY="$scratch/hypdb"
/opt/venv/bin/python -W ignore "$here/run.py" "$@"
exit $?
