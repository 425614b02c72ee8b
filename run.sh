#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough]      decide one property on /repo's working tree
#        run.sh --replay <file.json>             re-run one saved case
# Everything imported from /repo is the current working tree (causy is an editable install; we also
# put /repo first on sys.path).  No bytecode is written, no tracked file of /repo is touched.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 NO_COLOR=1 HYPOTHESIS_STORAGE_DIRECTORY=/nonexistent
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
unset PYTEST_ADDOPTS
bash setup.sh >/dev/null || exit 2
export PYTHONPATH="${VERIF_REPO:-/repo}":"$PWD":"$PWD/.deps"
exec /opt/venv/bin/python -m vf.main "$@"
