#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property against /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
unset PYTHONPATH JAVA_TOOL_OPTIONS
export CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export ATEN_CPU_CAPABILITY=avx2 MKL_CBWR=COMPATIBLE ONEDNN_MAX_CPU_ISA=AVX2
export HF_HUB_OFFLINE=1 MPLBACKEND=Agg
export PYTHONPATH="$here/lib"
low="$(echo "$id" | tr 'A-Z' 'a-z')"
cd "$here" && exec /opt/venv/bin/python "$here/checks/$low.py"
