#!/bin/sh
# nothing to build: the harness is Python and imports the code under test from /repo's working tree
cd "$(dirname "$0")" && mkdir -p evidence replays && exec /opt/venv/bin/python -B -c "import sim.engine"
