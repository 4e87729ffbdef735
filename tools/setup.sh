#!/bin/bash
# Nothing to build: soepy is pure Python and every check imports it from the working tree.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -c "
import sys; sys.path[:0]=['.','/repo']
import mon.ref, mon.trace, mon.world, mon.api
print('monitors import; soepy from', mon.api.soepy.__file__)"
