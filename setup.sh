#!/bin/bash
# Nothing is kept between runs: every check compiles its own harness from /repo. This only makes sure the tools are there.
set -e
cd "$(dirname "$0")"
g++ --version | head -1
/opt/veriftools/pyvenv/bin/python3 -c "import hypothesis, numpy, scipy; print('hypothesis', hypothesis.__version__)"
python3 tools/properties.py
mkdir -p evidence replays
