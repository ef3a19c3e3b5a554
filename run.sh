#!/bin/bash
# run.sh PROPERTY quick|thorough | PROPERTY replay FILE
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export LANG=C.UTF-8 LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONHOME PYTHONOPTIMIZE
exec /opt/venv/bin/python -B -m psrpmon.run "$@"
