#!/bin/bash
# usage: run.sh <PROPERTY-ID> [quick|thorough]      run a check
#        run.sh --replay <replay.json>              re-run the case of a violation
# Runs the monitors of one property against the code in /repo's working tree.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8
export NORMALIZE_REPO="${NORMALIZE_REPO:-/repo}"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
cd "$HERE" || exit 3
exec "$PY" -B -X pycache_prefix=/nonexistent "$HERE/mon/main.py" "$@"
