#!/bin/bash
# Nothing has to be built ahead of the checks: this only makes sure that what
# they need is there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
for t in gcc file bash timeout; do
    command -v "$t" >/dev/null || { echo "missing tool: $t"; exit 1; }
done
PYTHONDONTWRITEBYTECODE=1 VF_REPO=/repo /opt/venv/bin/python -m vf --selftest
