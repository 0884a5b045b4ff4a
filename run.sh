#!/bin/bash
# usage: run.sh <property id> <quick|thorough>
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export VERIF_SEED="${VERIF_SEED:-1}"
export VERIF_TIER="$2"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 PYTHONWARNINGS=ignore
export LC_ALL=C.UTF-8 TZ=UTC HOME=/nonexistent
base=/dev/shm; [ -d "$base" ] && [ -w "$base" ] || base=/tmp
VERIF_SCRATCH="$(mktemp -d "$base/mbverif.XXXXXX")" || exit 2
export VERIF_SCRATCH
export PYTHONPYCACHEPREFIX="$VERIF_SCRATCH/pyc" TMPDIR="$VERIF_SCRATCH/tmp"; mkdir "$TMPDIR"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
case "$1" in
  P17|P18)   # these inject faults below Python
    gcc -shared -fPIC -O1 -w -o "$VERIF_SCRATCH/fi.so" shim/fi.c -ldl || { echo "cannot build shim/fi.c"; exit 2; }
    export LD_PRELOAD="$VERIF_SCRATCH/fi.so" ;;
esac
"$py" -m vlib.core "$1" "$2"
rc=$?
case "$VERIF_SCRATCH" in
  /dev/shm/mbverif.*|/tmp/mbverif.*) rm -rf -- "$VERIF_SCRATCH" ;;
esac
exit $rc
