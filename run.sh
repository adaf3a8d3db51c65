#!/bin/bash
# run.sh <property id> [--replay file] [--only index] : runs one check against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_HOME="$here"
export VERIF_REPO="${VERIF_REPO:-/repo}"
mkdir -p "$here/.build" "$here/evidence"
so="$here/.build/shim.so"
if [ ! -f "$so" ] || [ "$here/native/shim.c" -nt "$so" ]; then
    tmp="$so.$$"
    gcc -O2 -shared -fPIC -w -U_FORTIFY_SOURCE -o "$tmp" "$here/native/shim.c" -ldl || exit 3
    mv -f "$tmp" "$so"
fi
[ "$1" = "--build-only" ] && exit 0
unset PYTHONPATH
export LD_PRELOAD="$so" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
export TZ=UTC LANG=C.UTF-8 LC_ALL=C.UTF-8 ANSI_COLORS_DISABLED=1 HOME=/root
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -W ignore -m vlib.main "$@"
