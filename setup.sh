#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly.  Only verifies that they can.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
mkdir -p evidence
py="${VERIF_PYTHON:-/opt/venv/bin/python}"
[ -x "$py" ] || py=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO:-/repo}:$here" "$py" -c "import algebraixlib.mathobjects, mc.core" || exit 1
echo "setup ok: $("$py" --version 2>&1 | tr '\n' ' ')"
