#!/bin/bash
# check.sh <property> | check.sh replay <file>
cd "$(dirname "$0")" || exit 2
export LC_ALL=C.UTF-8 PYTHONUTF8=1 PYTHONHASHSEED=0
# neither write nor read .pyc files: a stale one would hide a change of the source
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
unset PYTHONPATH
for PY in /opt/veriftools/pyvenv/bin/python /opt/venv/bin/python /usr/bin/python3; do
    [ -x "$PY" ] && break
done
if [ "$1" = setup ]; then exec "$PY" -c "import sys; sys.path.insert(0, '/repo'); import spylls.hunspell"; fi
if [ "$1" = replay ]; then exec "$PY" run.py replay "$2"; fi
exec "$PY" run.py check "$1"
