#!/bin/bash
# Nothing has to be compiled: check that the tools are there.
export PATH=/opt/venv/bin:$PATH
cd "$(dirname "$0")" || exit 1
python -c "import trio, numpy, h5py, pytest" && python -m compileall -q mc >/dev/null 2>&1
find mc -name __pycache__ -prune -exec rm -rf {} + 2>/dev/null
exit 0
