#!/bin/bash
# check.sh ID quick|thorough      check one property against /repo's working tree
# check.sh ID --replay FILE       run one saved case again
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
repo="${VF_REPO:-/repo}"
export PYTHONWARNINGS=ignore VF_REPO="$repo" HOME=/root LANG=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX=/nonexistent PYTHONPATH="$repo" PYTHONNOUSERSITE=1
cd "$here" && exec /opt/venv-pypy/bin/python vf/run.py "$@"
