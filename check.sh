#!/bin/bash
# check.sh PROPERTY [quick|thorough] [further driver options]
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/sim/driver.py" "$prop" --tier "$tier" "$@"
