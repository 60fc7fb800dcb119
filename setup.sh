#!/bin/bash
# Everything here is Python run from the committed files; only a sanity check.
cd "$(dirname "$0")" && PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import mon.core, mon.gw, mon.dbworld" && mkdir -p evidence replay
