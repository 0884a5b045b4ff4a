#!/bin/bash
# the checks need nothing but the Python installation; make sure it is there
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$here" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$here" "$py" -c "import multibag, vlib.core, vlib.oracle" && mkdir -p evidence
