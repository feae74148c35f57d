#!/bin/bash
# usage: check.sh <PROPERTY-ID>   (tier and seed from VERIF_TIER / VERIF_SEED)
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$here:/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
cd "$here" && exec /opt/venv/bin/python -W ignore -m harness.main "$@"
