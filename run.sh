#!/bin/bash
# usage: run.sh <PROPERTY-ID> [quick|thorough] [extra args, e.g. --case NAME]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"; shift
if [ "$1" = quick ] || [ "$1" = thorough ]; then export VERIF_TIER="$1"; shift; fi
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
export VERIF_HOME="$here" VERIF_REPO="${VERIF_REPO:-/repo}"
scratch="$(mktemp -d /tmp/vrun.XXXXXX)" || exit 3
trap 'rm -rf "$scratch"' EXIT
trap 'exit 4' TERM INT
export PYTHONPATH="$here/stubs:$here/lib:$VERIF_REPO" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 TF_NUM_INTEROP_THREADS=2 TF_NUM_INTRAOP_THREADS=2
export TF_ENABLE_ONEDNN_OPTS=0 MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" HOME="$scratch" TMPDIR="$scratch"
export TQDM_DISABLE=1 OMP_NUM_THREADS=2 VERIF_SCRATCH="$scratch" EGENERATOR_VERIF=1
cd "$scratch" || exit 3
/opt/venv/bin/python -X faulthandler "$here/checks/main.py" "$id" "$@" &
pid=$!
wait $pid; rc=$?
exit $rc
