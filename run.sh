#!/bin/bash
# Entry point of all checks; see dst/cli.py.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED="${DST_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here"
unset PYTHONASYNCIODEBUG PYTHONDEVMODE
exec /opt/venv/bin/python -m dst.cli "$@"
