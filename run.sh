#!/bin/bash
# usage: run.sh <property> <quick|thorough>        run a check
#        run.sh --replay <file>                    run one recorded case again
# The code under test is always imported from /repo's working tree; nothing
# compiled is reused from a previous run.
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH PYTHONSTARTUP
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
export VF_REPO="${VF_REPO:-/repo}"
SCRATCH=$(mktemp -d /tmp/vf.XXXXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export VF_SCRATCH="$SCRATCH" TMPDIR="$SCRATCH" PYTHONPYCACHEPREFIX="$SCRATCH/pyc"
PY=/opt/venv/bin/python
"$PY" -m vf "$@"
