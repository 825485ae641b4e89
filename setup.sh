#!/bin/bash
# Nothing to build: make sure the interpreter and /repo's sources load.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo PYTHONWARNINGS=ignore
mkdir -p evidence/replays
exec /opt/venv/bin/python -c "from mc import core; core.load_target(); print('ready')"
