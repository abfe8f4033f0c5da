#!/bin/bash
# check.sh <property> [quick|thorough]      run the generated checks of one property
# check.sh --replay <file>                  re-execute one saved failing case
# check.sh --build                          only build the extension modules of /repo
HERE=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mpl}
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
export OPENBLAS_CORETYPE=Haswell
export PYTHONPATH=
exec /opt/venv/bin/python -W ignore "$HERE/pbt/run.py" "$@"
