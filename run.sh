#!/bin/bash
# usage: run.sh <property id> [--replay FILE] [--tier quick|thorough] [--family NAME]
# Runs one bounded-exhaustive check against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
py="${VERIF_PYTHON:-/opt/venv/bin/python}"
[ -x "$py" ] || py=python3
export PYTHONPATH="$repo:$here" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export PYTHONIOENCODING=utf-8
cd "$here" || exit 2
exec "$py" -m mc.main "$@"
