#!/bin/bash
# run.sh <property id> : run one check from /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${VERIF_SEED:-1}" LANG=C.UTF-8
export PATH=/opt/venv/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
exec /opt/venv/bin/python -B "checks/$1.py"
