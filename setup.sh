#!/bin/sh
# Nothing to build: the framework is Python and compiles /repo's working tree at every run.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence replays
exec "$PY" -m sim.runner digests C01 3
