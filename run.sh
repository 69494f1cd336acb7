#!/bin/bash
# run.sh C01 quick|thorough [options]   -- runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
PYTHONPYCACHEPREFIX=$(mktemp -d /tmp/verif-pyc-XXXXXX)
export PYTHONPYCACHEPREFIX
trap 'rm -rf "$PYTHONPYCACHEPREFIX"' EXIT
/opt/venv-pypy/bin/python -W ignore -m sim.main "$@"
