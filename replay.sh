#!/bin/bash
# replay.sh FILE: repeats exactly the run a VIOLATION line names
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1
prop="$(/opt/venv/bin/python -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$1")"
exec /opt/venv/bin/python "$here/sim/driver.py" "$prop" --replay "$1"
