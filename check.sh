#!/bin/bash
# check.sh <property id> [quick|thorough]   (or: check.sh <id> replay <file>)
cd "$(dirname "$0")" || exit 2
PC=$(mktemp -d /tmp/vpyc-XXXXXX) || exit 2
trap 'rm -rf "$PC"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$PC" LC_ALL=C.UTF-8 PYTHONHASHSEED=0
unset CMAP_PATH PYTHONPATH JAVA_TOOL_OPTIONS
/opt/venv/bin/python -W ignore check.py "$@"
