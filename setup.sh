#!/bin/bash
# builds the MIR dumper and dumps the current tree once (both are also done on demand by every check)
set -e
cd "$(dirname "$0")"
python3-vt engine/dump.py dev release
