#!/bin/bash
# run.sh ID [quick|thorough] [--replay FILE] : decide one property.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=0 HOME="${HOME:-/root}"
id="$1"; shift
exec /opt/venv/bin/python -W ignore -m checks.runner "$id" "$@"
