#!/bin/bash
# bash check.sh check ID | replay FILE | selftest [N]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here"
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 LC_ALL=C.UTF-8
if [ -z "$MPLCONFIGDIR" ]; then
  export MPLCONFIGDIR="$here/.mplconfig"
  mkdir -p "$MPLCONFIGDIR"
fi
cd "$here" || exit 2
"$PY" -c 'from dst import main; main.cli()' "$@"
