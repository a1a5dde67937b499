#!/bin/bash
# run.sh <property> [quick|thorough] [--replay FILE]
# Builds the native extension from the repository's current sources into a
# scratch folder, then runs the monitored workload of one property.
PROP=$1; shift
TIER=${VERIF_TIER:-quick}
case "$1" in quick|thorough) TIER=$1; shift ;; esac
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_REPO=${VERIF_REPO:-/repo} VERIF_OUT=${VERIF_OUT:-$HERE/evidence}
export VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
PY=/opt/venv/bin/python
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/viqamon.XXXXXX") || exit 2
cleanup() { chmod -R u+w "$SCRATCH" 2>/dev/null; rm -rf "$SCRATCH"; }
trap cleanup EXIT
trap 'exit 2' INT TERM
export VERIF_SCRATCH=$SCRATCH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 TQDM_DISABLE=1
export MPLCONFIGDIR=$SCRATCH/mpl PYTHONPATH=$VERIF_REPO/src:$HERE/mon
unset PYTHONSTARTUP COVERAGE_PROCESS_START
mkdir -p "$SCRATCH/mpl" "$SCRATCH/ext"
cp /opt/vp/support/mpl/* "$SCRATCH/mpl/" 2>/dev/null
STAT=$VERIF_REPO/src/viqa/fr_metrics/stat_utils
read -r PYINC NPINC SUF < <($PY -c 'import sysconfig, numpy; print(sysconfig.get_path("include"), numpy.get_include(), sysconfig.get_config_var("EXT_SUFFIX"))')
if ! gcc -shared -fPIC -std=c11 -O3 -Wall -w -I"$PYINC" -I"$NPINC" "$STAT"/*.c \
     -o "$SCRATCH/ext/statisticscalc$SUF" -lm 2>"$SCRATCH/cc.log"; then
    echo "the native extension does not compile:"; cat "$SCRATCH/cc.log"; exit 2
fi
export VERIF_EXT=$SCRATCH/ext/statisticscalc$SUF VERIF_PYINC=$PYINC VERIF_NPINC=$NPINC
cd "$SCRATCH" || exit 2
$PY "$HERE/mon/core.py" "$PROP" "$@"
