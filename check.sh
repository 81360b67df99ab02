#!/bin/bash
# check.sh CNN [quick|thorough]   or   check.sh --replay FILE
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
export HYPOTHESIS_STORAGE_DIRECTORY=/tmp/vf_hypothesis_$$ PYTHONWARNINGS=ignore
export PYTHONPATH=/repo:$PWD:$PWD/vendor
/opt/venv/bin/python -m vf.run "$@"
rc=$?
rm -rf "/tmp/vf_hypothesis_$$"
exit $rc
