#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--replay FILE] [-v]
# Runs one check against the working tree of /repo (imported directly, nothing cached).
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1 LC_ALL=C.UTF-8 LANG=C.UTF-8
export HOME=${HOME:-/root}
export PYTHONPATH="$here:${VF_REPO:-/repo}"
export OMP_NUM_THREADS=1
cd "$here" || exit 2
exec /opt/venv/bin/python -X utf8 -m vf "$@"
